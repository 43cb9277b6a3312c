from vlib import *
from hist import *

LATCH = ["latch 0 : wait | release", "latch 0 : wait | wait | release", "latch 0 : waitfor | release ; waitfor | wait",
         "latch 1 : wait | waitfor ; release", "latch 0 : release ; wait | waitfor ; wait", "latch 0 : wait ; waitfor | release ; release | waitfor",
         "latch 0 : waitfor ; release ; reset ; waitfor ; release ; wait", "latch 0 : wait | waitfor", "latch 0 : waitfor ; wait | waitfor ; release",
         "latch 1 : reset ; waitfor ; release ; wait"]
WATCH = ["watch 0 : wait 0 | store 1 ; notify_all", "watch 0 : wait 0 | wait 0 | store 1 ; notify_all", "watch 0 : wait 0 | wait 0 | store 1 ; notify_one ; notify_one",
         "watch 0 : waitfor 0 ; load | store 1 ; notify_one", "watch 0 : wait 1", "watch 1 : wait 0 ; load", "watch 0 : wait 0 | cas 0 2 ; notify_one | cas 0 3 ; notify_one",
         "watch 0 : wait 0 ; load x | casw 0 2 ; notify_all ; store 0 x", "watch 0 : wait 0 | store 1", "watch 2 : wait 2 | store 3 ; notify_one ; store 2 ; notify_one",
         "watch 0 : waitfor 0 | wait 0 | store 5 ; notify_one", "watch 0 : wait 0 ; wait 1 | store 1 ; notify_all ; store 2 ; notify_all"]


def rnd(chk, n):
    out = []
    for _ in range(n):
        ths = []
        for t in range(chk.rng.choice([2, 3])):
            ops = []
            for _ in range(chk.rng.choice([1, 2, 3])):
                ops.append(chk.rng.choice(["wait %d" % chk.rng.randrange(3), "waitfor %d" % chk.rng.randrange(3), "store %d" % chk.rng.randrange(3),
                                           "notify_one", "notify_all", "load", "cas %d %d" % (chk.rng.randrange(3), chk.rng.randrange(3)),
                                           "casw %d %d" % (chk.rng.randrange(3), chk.rng.randrange(3)), "store %d ; notify_all" % chk.rng.randrange(3)]))
            ths.append(" ; ".join(ops))
        out.append("watch %d : %s" % (chk.rng.randrange(3), " | ".join(ths)))
    return out


def rnd_latch(chk, n):
    out = []
    for _ in range(n):
        ths = [" ; ".join(chk.rng.choice(["wait", "waitfor", "release"]) for _ in range(chk.rng.choice([1, 2]))) for _ in range(chk.rng.choice([2, 3]))]
        out.append("latch %d : %s" % (chk.rng.randrange(2), " | ".join(ths)))
    return out


def check(chk):
    uc = chk.builder.build("uc", ["use_counter_h.cpp"], ["utils/use_counter.cpp"], shim=False)
    T = chk.thorough
    kw = dict(quick=(2, 4000, 400, 6), shim=False)
    src = ("sync", ["sync_h.cpp"], ["utils/latch.cpp"])
    if not check_conc(chk, *src, LATCH + rnd_latch(chk, 60 if T else 12), "SyncTrace", lincfg("LatchInit", "LatchApply"), "latch", **kw):
        return
    if not check_conc(chk, *src, WATCH + rnd(chk, 120 if T else 24), "SyncTrace", lincfg("WInit", "WApply", "WTau", "WMayBlock"), "watched value", **kw):
        return
    cfg = "SPECIFICATION Spec\nCONSTANT NH = %d\nINVARIANTS TypeOK CountsAgree\nVIEW Vw\nACTION_CONSTRAINT Export\nCHECK_DEADLOCK FALSE\n" % 3
    replay_graph(chk, uc, "UseCounter", cfg, "usage counter", walks=200 if T else 20)
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "a latch is reset only while nobody waits on it"]
