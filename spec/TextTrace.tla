------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, SeqTrace
=============================================================================
