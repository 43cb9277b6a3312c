---------------------------- MODULE AuthTrace ----------------------------
EXTENDS Auth, SeqTrace
==========================================================================
