------------------------------ MODULE MemTrace ------------------------------
EXTENDS Mem, SeqTrace
=============================================================================
