from vlib import *
from txlib import *

PROGRAMS = [
    "W=2 T1=ok5 : write 1 1 - ; commit 1 2 a",
    "W=2 T1=ok5 : write 1 1 - | commit 1 2 s",
    "W=2 T1=ok5 : write 1 1 - | abort 1",
    "W=2 T1=ok5 : dag 1 1 2 i - | commit 1 2 s",
    "W=2 T1=ok5 : dag 1 1 2 i - | abort 1",
    "W=2 T1=ok5 : dag 1 1 2 s - | abort 1 | commit 1 2 a",
    "W=2 T1=ok5 : commit 1 1 a | commit 1 2 s ; state 1",
    "W=2 T1=ok5 : dag 1 1 1 i x0.0 | abort 1",
    "W=2 T1=ok5 : write 1 1 e0.0 ; state 1 ; commit 1 2 a",
    "W=2 T1=ok5 : prep 1 1 write - ; abort 1",
    "W=2 T1=ok5 : abort 1 ; write 1 1 -",
    "W=2 T1=ok5 : abort 1 ; prep 1 1 write -",
    "W=2 T1=ok5 : abort 1 ; empty 1 1",
    "W=2 T1=ok5 : xlock ; write 1 1 - ; xunlock",
    "W=2 T1=ok5 : xlock ; dag 1 1 1 i - ; xunlock | abort 1",
    "W=2 C=h T1=ok5 : write 1 1 - ; write 1 2 - | commit 1 3 s",
    "W=2 T1=ok5 : custom 1 1 i y0.0 ; custom 1 2 s - ; wait 1 | commit 1 3 a",
    "W=2 T1=ok5 : dag 1 1 2 i - | commit 1 2 a | commit 1 3 s",
    "W=3 T1=ok5 : write 1 1 - | write 1 2 - | abort 1",
    "W=3 T1=ok5 : dag 1 1 1 i - | custom 1 2 i - | abort 1 ; state 1",
    "W=2 T1=sok5 : custom 1 1 i - ; commit 1 2 a | abort 1 | abort 1",
]


def check(chk):
    laws(chk, "term", "termination of transactions: specification laws")
    tx(chk, PROGRAMS + programs(chk.rng, "term", 160 if chk.thorough else 24), "termination of transactions")
