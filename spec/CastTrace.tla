------------------------------ MODULE CastTrace ------------------------------
EXTENDS Cast, SeqTrace
=============================================================================
