from vlib import *
from txlib import *

PROGRAMS = [
    "W=2 T1=ok5 : commit 1 1 a | commit 1 2 s ; state 1",
    "W=2 T1=ok5 T2=ok7 D=5 : commit 1 1 s | commit 2 2 s ; marker",
    "W=2 T1=ok5 : write 1 1 - ; commit 1 2 a",
    "W=2 C=h T1=ok5 : write 1 1 - ; write 1 2 - | commit 1 3 s",
    "W=2 C=c T1=sok5 : commit 1 1 a | state 1",
    "W=2 T1=serr : commit 1 1 a | state 1",
    "W=2 C=o T1=ok5 D=3,5 : commit 1 1 s | marker ; marker",
    "W=2 T1=ok5 T2=ok5 D=5 : commit 1 1 s | commit 2 2 s",
    "W=2 T1=sok5 T2=ok7 D=7,5 : commit 1 1 s ; marker | commit 2 2 s ; marker",
    "W=2 T1=ok3 T2=ok5 T3=ok7 D=4,6 : commit 1 1 s | commit 2 2 s | commit 3 3 s",
    "W=2 T1=ok5 T2=ok5 : commit 1 1 s ; dur 5 | commit 2 2 s ; dur 3 ; marker",
    "W=2 C=o T1=sok5 T2=ok3 D=3 : commit 1 1 s ; marker | commit 2 2 s ; dur 4 ; marker",
    "W=2 T1=err T2=ok5 D=5 : commit 1 1 s | commit 2 2 s",
]


def check(chk):
    laws(chk, "term", "durable commits: specification laws")
    tx(chk, PROGRAMS + programs(chk.rng, "dur", 160 if chk.thorough else 24), "durable commits")
