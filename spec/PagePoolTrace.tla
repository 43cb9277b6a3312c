--------------------------- MODULE PagePoolTrace ---------------------------
EXTENDS PagePool, Lin
============================================================================
