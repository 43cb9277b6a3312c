------------------------------ MODULE LobTrace ------------------------------
EXTENDS Lob, Lin
=============================================================================
