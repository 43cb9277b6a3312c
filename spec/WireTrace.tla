------------------------------ MODULE WireTrace ------------------------------
EXTENDS Wire, SeqTrace
=============================================================================
