---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, Lin
============================================================================
