---------------------------- MODULE RecordTrace ----------------------------
EXTENDS Stream, SeqTrace
============================================================================
