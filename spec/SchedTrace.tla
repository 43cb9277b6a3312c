---------------------------- MODULE SchedTrace ----------------------------
EXTENDS Sched, Lin
GInit(c) == Start(c[1], c[2])
Never(s, o) == FALSE
============================================================================
