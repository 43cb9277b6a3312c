from vlib import *
from txlib import *

PROGRAMS = [
    "W=2 T1=ok5 : dag 1 1 2 i x0.0",
    "W=2 T1=ok5 : dag 1 1 2,1<0,1^1 i - ; wait 1",
    "W=2 T1=ok5 : dag 1 1 2,1<0,1^1 i e0.1",
    "W=2 T1=ok5 : dag 1 1 2,1,1<0+1 n y0.1 ; commit 1 2 s",
    "W=2 C=t T1=ok5 : dag 1 1 2,1<0 i y0.0",
    "W=2 C=d T1=ok5 : dag 1 1 2,1<0 i y0.0",
    "W=2 C=td T1=ok5 : dag 1 1 1,1<0 i - | abort 1",
    "W=2 C=h T1=ok5 : dag 1 1 2,1<0 s y0.0 | write 1 2 -",
    "W=2 T1=ok5 : dag 1 1 1,1,1<0+1,1<0^2 i -",
    "W=3 T1=ok5 : dag 1 1 2,2<0,2<1 n y0.0,y1.1",
    "W=2 T1=ok5 : dag 1 1 1,1^0,1<0+1 i x1.100",
    "W=2 C=d T1=ok5 : dag 1 1 1,1<0,1<0,1<1+2 i y1.0",
    "W=3 T1=ok5 : dag 1 1 2,1<0 i - | dag 1 2 1,2<0 i -",
]


def check(chk):
    laws(chk, "steps", "steps of a query: specification laws")
    tx(chk, PROGRAMS + programs(chk.rng, "steps", 240 if chk.thorough else 48), "steps of a query", mem=chk.thorough)
