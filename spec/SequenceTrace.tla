-------------------------- MODULE SequenceTrace --------------------------
EXTENDS Seq, Lin
============================================================================
