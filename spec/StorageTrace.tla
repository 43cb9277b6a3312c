--------------------------- MODULE StorageTrace ---------------------------
EXTENDS Storage, Lin
GInit(c) == Empty
GTau(s, p) == UNION {IF p[t].done THEN {} ELSE Micro(s, p[t]) : t \in DOMAIN p}
Never(s, o) == FALSE
============================================================================
