------------------------------ MODULE CoderTrace ------------------------------
EXTENDS Coder, SeqTrace
=============================================================================
