--------------------------- MODULE WPoolTrace ---------------------------
EXTENDS WPool, Lin
===========================================================================
