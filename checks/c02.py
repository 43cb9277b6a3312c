from vlib import *
from hist import *

# a way to bring a fresh status object into each kind
REACH = {0: [], 1: [1], 2: [1, 2], 3: [1, 2, 3], 4: [1, 2, 3, 4], 5: [1, 2, 3, 4, 5], 6: [1, 2, 3, 4, 5, 6], 7: [1, 2, 7], 8: [1, 2, 8], 9: [9]}
PAIRS = [(1, 2), (2, 8), (2, 3), (2, 7), (3, 4), (4, 5), (4, 6), (4, 8), (5, 6), (7, 8), (3, 8), (2, 9), (1, 8)]
CODES = [0, 1, 2, 2025, 2013]
STS = [-1, -24, 1, 0, -2]
SRC = ["transaction_state.cpp", "transaction_context.cpp", "request_context.cpp", "error/error_info.cpp", "error/error_info_factory.cpp",
       "storage/storage_manager.cpp", "storage/reference_scope.cpp", "storage/shared_lock.cpp", "storage/unique_lock.cpp", "auth/action_set.cpp", "auth/authorized_users_action_set.cpp"]


def table():
    out = []
    for k, path in REACH.items():
        for d in range(10):
            for s in "set", "tset":
                rd = "read" if s == "set" else "tread"
                out.append("0 : " + " ; ".join(["%s %d" % (s, x) for x in path] + [rd, "%s %d" % (s, d), rd, "%s 1" % s, rd, "%s 9" % s, rd, "%s %d" % (s, d), rd]))
    return out


def rnd(chk, n, big):
    r = chk.rng
    out = []
    for _ in range(n):
        ths = []
        for t in range(r.choice([2, 2, 3]) if not big else 1):
            ops = []
            for _ in range(r.choice([1, 2, 3]) if not big else r.choice([8, 20])):
                o = r.choice(["set", "set", "setif", "read", "tset", "tset", "tread", "terr", "terr", "tget", "rerr", "rget", "rst", "rstget", "serr", "serr"])
                ops.append({"set": lambda: "set %d" % r.randrange(10), "setif": lambda: "setif %d %d" % r.choice(PAIRS), "tset": lambda: "tset %d" % r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 0]),
                            "terr": lambda: "terr %d" % r.choice(CODES), "rerr": lambda: "rerr %d" % r.choice(CODES), "rst": lambda: "rst %d" % r.choice(STS),
                            "serr": lambda: "serr %d %d" % (r.choice(CODES), r.choice(STS))}.get(o, lambda: o)())
            ths.append(" ; ".join(ops))
        pre = ["tset 1", "tset 2"] if r.random() < .6 else []
        if pre:
            ths[0] = " ; ".join(pre + ["set 1", "set 2"]) + " ; " + ths[0]
        out.append("0 : " + " | ".join(ths))
    return out


CONC = ["0 : set 1 ; set 2 ; set 3 | set 8 ; read", "0 : set 1 ; set 3 ; set 4 ; set 5 ; set 6 | set 8 | read ; read", "0 : tset 1 ; tset 2 ; terr 5 | terr 6 ; tget | tset 3 ; tread",
        "0 : tset 1 ; tset 2 ; serr 5 -1 | serr 6 -2 ; rget ; tget", "0 : rst -1 ; rerr 3 | rst -2 ; rerr 4", "0 : tset 1 ; tset 2 ; serr 2025 -24 | serr 6 -2", "0 : terr 0 ; terr 4 | terr 5 ; tget",
        "0 : set 1 ; setif 1 2 ; setif 2 8 | set 3 ; read", "0 : set 1 ; set 7 ; set 8 | set 3 ; read | set 8 ; set 9", "0 : rerr 0 ; rerr 1 | rerr 2 ; rget | rget ; rget"]


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("LifeMC", "SPECIFICATION Spec\nCONSTANTS NT = 2\n MaxOps = %d\nPROPERTIES EdgesOnly TerminalStays NoWayBack FirstErrorSticks\nINVARIANT NothingLost\nCHECK_DEADLOCK FALSE\n" % (4 if T else 3), chk.workdir, heap="10g"), "life cycle: specification laws")
    kw = dict(protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))
    cfg = lincfg("LifeInit", "Do", "LifeTau", "Never")
    if not check_conc(chk, "life", ["life_h.cpp"], SRC, CONC + rnd(chk, 200 if T else 40, False), "LifeTrace", cfg, "life cycle", quick=(2, 3000, 200, 4), **kw):
        return
    check_conc(chk, "life", ["life_h.cpp"], SRC, table() + rnd(chk, 2000 if T else 200, True), "LifeTrace", cfg, "life cycle, one thread", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False, **kw)
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "std::atomic_* on shared_ptr modelled as one atomic step"]
