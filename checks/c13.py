from vlib import *
from hist import *

SRC = """data/aligned_buffer.cpp executor/io/reader_container.cpp executor/common/task.cpp data/fifo_record_store.cpp data/iterable_record_store.cpp data/record_store.cpp data/result_store.cpp data/small_record_store.cpp
executor/exchange/forward/flow.cpp executor/exchange/forward/forward_info.cpp executor/exchange/forward/input_partition.cpp executor/exchange/forward/reader.cpp executor/exchange/forward/sink.cpp executor/exchange/forward/source.cpp executor/exchange/forward/writer.cpp
executor/exchange/task.cpp executor/process/result_store_writer.cpp memory/page_pool.cpp memory/details/page_allocation_info.cpp memory/fifo_paged_memory_resource.cpp memory/lifo_paged_memory_resource.cpp memory/monotonic_paged_memory_resource.cpp
meta/record_meta.cpp meta/impl/record_layout_creator.cpp meta/character_field_option.cpp meta/octet_field_option.cpp meta/decimal_field_option.cpp meta/time_of_day_field_option.cpp meta/time_point_field_option.cpp meta/external_record_meta.cpp accessor/record_copier.cpp accessor/record_ref.cpp accessor/const_record_ref.cpp accessor/text.cpp
transaction_state.cpp transaction_context.cpp request_context.cpp error/error_info.cpp error/error_info_factory.cpp storage/storage_manager.cpp storage/reference_scope.cpp storage/shared_lock.cpp storage/unique_lock.cpp auth/action_set.cpp auth/authorized_users_action_set.cpp
model/flow_repository.cpp request_statistics.cpp utils/convert_control_characters.cpp""".split()
KW = dict(plain_harness=True, protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma", "-lboost_filesystem", "-lboost_thread"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))


PROGRAMS = [
    "i L=3 S=2 Q=0 : w 0 1 1 ; w 0 1 2 ; w 0 1 3 | w 1 1 4 ; w 1 1 5 ; w 1 1 6",
    "s L=1 S=3 Q=0 : w 0 1 6 | w 1 1 5 | w 2 1 4",
    "i L=0 S=2 Q=0 : w 0 1 1 ; rel 0 | w 1 1 1 ; rel 1",
    "i L=2 S=2 Q=0 : w 0 1 1 ; rd 0 1 ; w 0 1 2 ; rel 0 ; rd 0 2 | w 1 1 3 ; rd 1 2 ; w 1 1 4 ; rel 1",
    "s L=- S=1 Q=1 : qapp 0 2 6 ; qadd | qadd ; qadd | qex 1 ; qadd",
    "s L=- S=1 Q=0 : qadd ; qadd | qadd ; qadd | after ; qapp 0 1 1 ; qapp 3 1 2 ; qapp 1 2 3 ; qcnt ; qclr 3 ; qall ; qclr 0 ; qall ; qex 3 ; qex 1 ; qclr 2 ; qcnt",
    "is L=- S=1 Q=3 : qapp 0 3 1,6 ; qone 0 | qapp 1 1 2,5 ; qapp 1 2 -1,-1 ; qone 1 | qapp 2 1 3,4 ; qadd",
]
COLS = ["i", "s", "I", "is", "sI", "bSi", "ijfgnsobdyp", "IJFGNSOBDYP", "oBs", "nyp", "jb", "bbbbbbbbbs", "0", "So", "jJsS"]


def record(r, cols, wide=False):
    if cols == "0":
        return "-"
    return ",".join(str(r.choice(([-1] if c.islower() else []) + (list(range(2)) if c in "bB" else list(range(8)) if not wide else [6, 5]))) for c in cols)


def small(r, n):
    out = []
    for _ in range(n):
        s = r.choice([2, 2, 3])
        cols = r.choice(["i", "s", "is"])
        ths = []
        q = r.random() < .3
        for k in range(s):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                ops.append(r.choice(["w %d 1 %s", "w %d 1 %s", "rd %d 1"]) if not q else r.choice(["qapp %d 1 %s", "qone %d", "qadd"]))
            ops = [o % ((k, record(r, cols)) if o.count("%") == 2 else k if "%" in o else ()) for o in ops]
            ops = [o for i, o in enumerate(ops) if not o.startswith("rd") or any(x.startswith("w") for x in ops[:i])] or ["act %d" % k]
            if not q and r.random() < .3:
                ops.append("rel %d" % k)
            ths.append(" ; ".join(ops))
        out.append("%s L=%s S=%d Q=%d : " % (cols, r.choice(["-", 0, 1, 2, 2, 3]), s, s if q else 0) + " | ".join(ths))
    return out


def large(r, n):
    out = []
    for _ in range(n):
        cols = r.choice(COLS)
        s, q = r.choice([1, 2, 3]), r.choice([0, 1, 3])
        lim = r.choice(["-", "-", 0, 1, 7, 100, 30000])
        parts, gone, written = q, set(), set()
        ops = []
        count = lambda: r.choice([1, 1, 2, 3, 5, 20, 200]) if r.random() < .93 else r.choice([3000, 20000, 60000]) // max(1, len(cols) // 2)
        for _ in range(r.choice([10, 30, 60])):
            k = r.randrange(s)
            live = [x for x in range(parts) if x not in gone]
            kind = r.choice("rrriiifffffssqqqqqqwwwwwww")
            n_, v = count(), record(r, cols, r.random() < .2)
            if kind == "r":
                ops.append(r.choice(["rapp %d %s" % (n_, v)] * 3 + ["rall", "rcnt"] + (["rrst"] if r.random() < .2 else [])))
            elif kind == "i":
                ops.append(r.choice(["iapp %d %s" % (n_, v)] * 3 + ["iall", "icnt"] + (["irst"] if r.random() < .2 else [])))
            elif kind == "f":
                ops.append(r.choice(["push %d %s" % (n_, v)] * 3 + ["pop %d" % n_] * 2 + ["fcnt"]))
            elif kind == "s":
                ops += ["sset %s" % v] + (["sget"] if r.random() < .6 else [])
            elif kind == "w":
                if r.random() < (.5 if k in written else .15):
                    ops.append(r.choice(["rd %d %d" % (k, n_)] * 3 + ["av %d" % k, "act %d" % k]))
                else:
                    written.add(k)
                    ops.append("w %d %d %s" % (k, n_, v))
            elif not live or r.random() < .12:
                ops.append("qadd")
                parts += 1
            else:
                p = r.choice(live)
                o = r.choice(["qapp"] * 5 + ["qone", "qall", "qcnt", "qex", "qclr"])
                if o == "qclr":
                    if r.random() < .5:
                        continue
                    gone.add(p)
                ops.append({"qapp": "qapp %d %d %s" % (p, n_, v), "qone": "qone %d" % p, "qclr": "qclr %d" % p, "qex": "qex %d" % r.randrange(parts + 1)}.get(o, o))
        out.append("%s L=%s S=%d Q=%d : " % (cols, lim, s, q) + (" ; ".join(ops) or "rcnt"))
    return out


def check(chk):
    T = chk.thorough
    for u in ("FALSE", "TRUE"):
        chk.model(lambda: model_check("RowsMC", "SPECIFICATION Spec\nCONSTANTS Limit = 4\n Sinks = 2\n MaxOps = %d\n Unlimited = %s\nINVARIANT InOrder Exactly Counted FifoOrder\nCHECK_DEADLOCK FALSE\n" % (5 if T else 4, u), chk.workdir), "record stores and forward exchange: specification laws")
    cfg = lincfg("RowsInit", "Do", "NoTau", "Never")
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "a store, a sink and a source are each used by one thread at a time; the source of a sink reads while its writer is not writing",
                        "a record taken from a queue is used until the next one is taken"]
    if not check_conc(chk, "rows", ["rows_h.cpp"], SRC, PROGRAMS + small(chk.rng, 200 if T else 28), "RowsTrace", cfg, "record stores", quick=(3, 800, 80, 1.2), mem_quick=(1, 50, 60, 1), cap=1400, **KW):
        return
    check_conc(chk, "rows", ["rows_h.cpp"], SRC, large(chk.rng, 2000 if T else 180), "RowsTrace", cfg, "record stores, one thread", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False, env={"COOP_STEPS": "1000000000"}, **KW)
