from vlib import *
from txlib import *

PROGRAMS = [
    "W=2 T1=ok5 : dag 1 1 1 i x0.0 | abort 1",
    "W=2 T1=ok5 : dag 1 1 2 i x0.0",
    "W=2 T1=ok5 : write 1 1 x0.0 ; state 1",
    "W=2 T1=ok5 : write 1 1 e0.0 ; state 1 ; commit 1 2 a",
    "W=2 T1=ok5 : prep 1 1 fail",
    "W=2 T1=ok5 : prep 1 1 empty",
    "W=2 T1=ok5 : prep 1 1 write - ; abort 1",
    "W=2 T1=ok5 : abort 1 ; prep 1 1 write -",
    "W=2 T1=ok5 : abort 1 ; empty 1 1",
    "W=2 T1=ok5 : xlock ; write 1 1 - ; xunlock",
    "W=2 T1=ok5 : xlock ; prep 1 1 write - ; xunlock",
    "W=2 C=t T1=ok5 : dag 1 1 2,1<0 i y0.0",
    "W=2 C=d T1=ok5 : dag 1 1 2,1<0 i y0.0",
    "W=2 C=td T1=ok5 : dag 1 1 1,1<0 i - | abort 1",
    "W=2 C=h T1=ok5 : dag 1 1 2,1<0 s y0.0 | write 1 2 -",
    "W=2 T1=ok5 : custom 1 1 i y0.0 ; custom 1 2 s - ; wait 1 | commit 1 3 a",
    "W=2 T1=ok5 : write 1 1 - sync ; commit 1 2 s",
    "W=3 T1=ok5 : dag 1 1 3 i x0.1 ; wait 1",
    "W=2 C=t T1=ok5 : write 1 1 e0.0 ; prep 1 2 fail",
    "W=2 C=h T1=ok5 : prep 1 1 write - ; custom 1 2 i y0.0 | empty 1 3",
]


def check(chk):
    laws(chk, "ddl", "requests and their tasks: specification laws")
    tx(chk, PROGRAMS + programs(chk.rng, "jobs", 240 if chk.thorough else 48), "requests and their tasks", mem=chk.thorough)
