from vlib import *
from hist import *

SRC = """executor/sequence/manager.cpp executor/sequence/sequence.cpp executor/sequence/info.cpp executor/sequence/metadata_store.cpp
kvs/database.cpp kvs/storage.cpp kvs/transaction.cpp kvs/iterator.cpp kvs/coder.cpp kvs/readable_stream.cpp kvs/writable_stream.cpp kvs/error.cpp
data/any.cpp data/aligned_buffer.cpp executor/wrt/fill_record_fields.cpp executor/common/ddl_common.cpp utils/modify_status.cpp
transaction_state.cpp transaction_context.cpp request_context.cpp error/error_info.cpp error/error_info_factory.cpp
storage/storage_manager.cpp storage/reference_scope.cpp storage/shared_lock.cpp storage/unique_lock.cpp auth/action_set.cpp auth/authorized_users_action_set.cpp
memory/lifo_paged_memory_resource.cpp memory/page_pool.cpp memory/details/page_allocation_info.cpp""".split()
MAX, MIN = 999999999, -1000000000


def params(r):
    """init inc min max cycle"""
    k = r.random()
    inc = r.choice([1, 1, 2, 3, 7, -1, -2, -5])
    if k < .45:  # a few values only
        lo = r.choice([0, 1, -3, 5])
        hi = lo + r.choice([0, 1, 2, 3, 5, 9])
        return [r.randint(lo, hi), inc, lo, hi, r.choice([0, 1])]
    if k < .6:
        return [r.choice([0, 1, 10]), abs(inc), 0, MAX, r.choice([0, 1])]
    if k < .85:  # near the ends of the 64-bit range, or across it
        lo, hi = r.choice([(MIN, MAX), (-100, MAX), (MIN, 100), (MAX - 5, MAX), (MIN, MIN + 5), (-3, MAX - 2), (MIN + 1, 0)])
        init = r.choice([x for x in (lo, lo + 1, hi, hi - 1, -50, -1, 0, 1, 50) if lo <= x <= hi])
        return [init, r.choice([1, -1, 2, -3, MAX, MIN, MIN + 1, 500000000, -500000000, MAX - 1]), lo, hi, r.choice([0, 1])]
    return [r.choice([0, 1, -1]), inc, MIN, MAX, 0]


def conc(r):
    seqs = ["a", "b"][:r.choice([1, 1, 1, 2])]
    before = ["begin 9"] + ["create 9 %s %s" % (s, " ".join(map(str, params(r)))) for s in seqs] + ["commit 9"] + (["sync"] if r.random() < .9 else [])
    ths = []
    nt = r.choice([2, 2, 3])
    for t in range(1, nt + 1):
        ops, tx = ["begin %d" % t], t
        for _ in range(r.choice([1, 2, 2, 3])):
            k = r.random()
            if k < .62:
                ops.append("draw %d %s" % (tx, r.choice(seqs)))
            elif k < .72:
                ops.append("sync")
            elif k < .77:
                ops.append("failput %d" % tx)
            elif k < .85:
                ops.append("get %s" % r.choice(seqs))
            elif k < .93:
                tx += 10
                ops += ["commit %d" % (tx - 10), "begin %d" % tx]
            else:
                ops += ["abort %d" % tx]
                if r.random() < .7:
                    tx += 10
                    ops.append("begin %d" % tx)
        if not any(o == "abort %d" % tx for o in ops) and r.random() < .8:
            ops.append("commit %d" % tx)
        ths.append(" ; ".join(ops))
    if r.random() < .15:  # another sequence is defined meanwhile
        ths.append("begin 50 ; create 50 z %s ; draw 50 z ; commit 50" % " ".join(map(str, params(r))))
        seqs = seqs + ["z"] if False else seqs
    after = (["sync"] if r.random() < .6 else []) + ["get %s" % s for s in seqs] + ["restart", "begin 60"] + sum([["get %s" % s, "draw 60 %s" % s, "draw 60 %s" % s] for s in seqs], [])
    return "x : before ; %s | %s | after ; %s" % (" ; ".join(before), " | ".join(ths), " ; ".join(after))


def single(r, n):
    """one client: definitions, drops, values, durability and restarts in any order"""
    ops, live, names, tx, n_s, ddl = [], {}, [], 0, 0, False
    alive = None

    def ensure():
        nonlocal tx, alive
        if alive is None:
            tx += 1
            alive = tx
            ops.append("begin %d" % tx)
    pending_c, dropped = [], []
    for _ in range(n):
        k = r.random()
        if k < .08 and n_s < 6:
            ensure()
            s = "s%d" % n_s
            n_s += 1
            ops.append("create %d %s %s" % (alive, s, " ".join(map(str, params(r)))))
            names.append(s)
            ddl = True
        elif k < .12 and names and not ddl:
            ensure()
            s = r.choice(names)
            names.remove(s)
            ops.append("drop %d %s" % (alive, s))
            if r.random() < .5:
                ddl = True
            else:
                ops.append("commit %d" % alive)
                alive = None
        elif k < .62 and names:
            ensure()
            for _ in range(r.choice([1, 1, 1, 3, 8])):
                ops.append("draw %d %s" % (alive, r.choice(names)))
        elif k < .76:
            if alive is not None:
                ops.append("commit %d" % alive)
                alive, ddl = None, False
        elif k < .8:
            if alive is not None and not ddl:
                ops.append("abort %d" % alive)
                if names and r.random() < .5:
                    ops.append("draw %d %s" % (alive, r.choice(names)))
                alive = None
        elif k < .86:
            if alive is not None and not ddl:
                ops.append("failput %d" % alive)
        elif k < .9:
            ensure()
            ops.append("ids %d" % alive)
        elif k < .95:
            ops.append("sync")
        elif not ddl:
            if r.random() < .6:
                if alive is not None:
                    ops.append("commit %d" % alive)
                ops.append("sync")
            elif any(o.startswith(("create", "drop")) for o in ops[max([i for i, o in enumerate(ops) if o == "sync"], default=0):]):
                ops += (["commit %d" % alive] if alive is not None else []) + ["sync"]
            ops.append("restart")
            alive = None
        if names and r.random() < .1:
            ops.append("get %s" % r.choice(names))
    return "x : " + (" ; ".join(ops) or "sync")


PROGRAMS = [
    "x : before ; begin 9 ; create 9 a 1 1 1 3 0 ; commit 9 ; sync | begin 1 ; draw 1 a ; commit 1 ; sync | begin 2 ; draw 2 a ; draw 2 a ; commit 2 | after ; get a ; restart ; begin 60 ; draw 60 a ; draw 60 a",
    "x : before ; begin 9 ; create 9 a 1 1 1 3 1 ; commit 9 ; sync | begin 1 ; draw 1 a ; draw 1 a ; commit 1 | begin 2 ; draw 2 a ; draw 2 a ; commit 2 | after ; sync ; restart ; begin 60 ; draw 60 a ; draw 60 a",
    "x : before ; begin 9 ; create 9 a 5 -2 1 5 0 ; commit 9 ; sync | begin 1 ; draw 1 a ; abort 1 | begin 2 ; draw 2 a ; commit 2 ; sync | after ; get a ; restart ; begin 60 ; draw 60 a ; draw 60 a",
    "x : before ; begin 9 ; create 9 a 0 1 0 999999999 0 ; create 9 b 0 1 -100 999999999 0 ; commit 9 ; sync | begin 1 ; draw 1 a ; draw 1 b ; commit 1 ; sync | begin 2 ; draw 2 b ; draw 2 a ; commit 2 | after ; sync ; restart ; begin 60 ; draw 60 a ; draw 60 b",
    "x : begin 1 ; create 1 s -50 1 -100 999999999 0 ; commit 1 ; sync ; begin 2 ; draw 2 s ; draw 2 s ; commit 2 ; sync ; restart ; begin 3 ; draw 3 s",
    "x : begin 1 ; create 1 s 50 -1 -1000000000 100 0 ; commit 1 ; sync ; begin 2 ; draw 2 s ; draw 2 s ; draw 2 s",
    "x : begin 1 ; create 1 s 0 -1000000000 -1000000000 999999999 0 ; commit 1 ; sync ; begin 2 ; draw 2 s ; draw 2 s ; draw 2 s",
    "x : begin 1 ; create 1 s -1000000000 999999999 -1000000000 999999999 0 ; commit 1 ; sync ; begin 2 ; draw 2 s ; draw 2 s ; draw 2 s ; draw 2 s",
]


def check(chk):
    T = chk.thorough
    for inc, lo, hi, first, cyc in [(1, 0, 3, 0, 0), (1, 0, 2, 1, 1), (2, 0, 5, 1, 0), (-1, 0, 2, 2, 0), (-2, 0, 3, 3, 1)][: 5 if T else 2]:
        chk.model(lambda: model_check("SeqMC", "SPECIFICATION Spec\nCONSTANTS MaxOps = %d\n Step_ = %d\n Down = %s\n Lo = %d\n Hi = %d\n First = %d\n Cyc = %d\nINVARIANT Rules Follows NothingLost\nCHECK_DEADLOCK FALSE\n" % (10 if T else 7, abs(inc), 'TRUE' if inc < 0 else 'FALSE', lo, hi, first, cyc), chk.workdir, heap="6g"),
                  "sequences: specification laws (%d in %d..%d%s)" % (inc, lo, hi, ", cycling" if cyc else ""))
    kw = dict(plain_harness=True, protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"),
              pch=("jogasaki/request_context.h", "jogasaki/kvs/database.h", "jogasaki/kvs/transaction.h", "jogasaki/kvs/coder.h", "jogasaki/error/error_info_factory.h"))
    cfg = lincfg("SeqInit", "Do", "Silent", "Never")
    r = chk.rng
    progs = PROGRAMS + [conc(r) for _ in range(400 if T else 44)]
    if not check_conc(chk, "sequence", ["sequence_h.cpp"], SRC, progs, "SequenceTrace", cfg, "sequences", quick=(2, 600, 150, 2), thorough=(3, 8000, 2000, 30), mem_quick=(1, 60, 150, 2), cap=1500, mem_thorough=(2, 1000, 4000, 30), **kw):
        return
    lines = [single(r, r.choice([10, 30, 60])) for _ in range(3000 if T else 300)]
    check_conc(chk, "sequence", ["sequence_h.cpp"], SRC, lines, "SequenceTrace", cfg, "sequences, one client", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False, **kw)
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "the transaction engine is a stand-in with committed and durable layers", "values of one transaction are requested one after another", "transactions that define or drop sequences commit"]
