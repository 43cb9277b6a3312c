------------------------------ MODULE XchgTrace ------------------------------
EXTENDS Xchg, SeqTrace
=============================================================================
