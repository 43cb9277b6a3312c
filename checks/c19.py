from vlib import *
from hist import *

SRC = """datastore/assign_lob_id.cpp datastore/register_lob.cpp datastore/find_path_by_lob_id.cpp datastore/get_lob_data.cpp datastore/get_datastore.cpp datastore/datastore_prod.cpp datastore/datastore_mock.cpp
utils/assign_reference_tag.cpp executor/expr/lob_processing.cpp relay/blob_session_container.cpp executor/process/impl/work_context.cpp executor/process/impl/ops/context_container.cpp
executor/io/record_channel_adapter.cpp executor/io/data_channel_writer.cpp executor/io/writer_pool.cpp executor/io/writer_seat.cpp api/impl/record_meta.cpp meta/record_meta.cpp
transaction_state.cpp transaction_context.cpp request_context.cpp error/error_info.cpp error/error_info_factory.cpp data/any.cpp executor/expr/error.cpp
storage/storage_manager.cpp storage/reference_scope.cpp storage/shared_lock.cpp storage/unique_lock.cpp auth/action_set.cpp auth/authorized_users_action_set.cpp
serializer/value_input.cpp serializer/value_output.cpp serializer/base128v.cpp serializer/value_input_exception.cpp meta/external_record_meta.cpp meta/impl/record_layout_creator.cpp model/flow_repository.cpp request_statistics.cpp accessor/record_ref.cpp accessor/text.cpp utils/convert_control_characters.cpp executor/process/impl/variable_table.cpp data/small_record_store.cpp memory/page_pool.cpp memory/details/page_allocation_info.cpp memory/lifo_paged_memory_resource.cpp""".split()
KW = dict(plain_harness=True, protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma", "-lboost_filesystem", "-lboost_thread"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))


PROGRAMS = [
    "R=1 M=0 T=w1,w1 : regd 1 x | regd 2 y",
    "R=1 M=0 T=w1,p1 : reg 1 a 1 ; dup 1 7 | reg 2 b 0",
    "R=1 M=0 T=w1,w2 : regd 1 x | regd 2 y ; endtx 2 ; end 2",
    "R=1 M=0 T=w1,w1 : sess 1 ; end 1 | sess 2 ; disp 2 ; sess 2",
    "R=1 M=0 T=w1,w1 : sess 1 ; put 1 5 ; post 1 b 3 5 g | sess 2 ; put 2 5 ; post 2 c 3 5 g",
    "R=1 M=0 T=w1,w1 : regd 1 x ; end 1 | endtx 1 ; end 2",
    "R=1 M=0 T=w1,w1 : regd 1 x ; end 1 | regd 2 x ; end 2 | endtx 1",
    "R=1 M=0 T=w1 : get 1 ; sess 1 ; get 1 ; put 1 3 ; sess 1 ; post 1 b 3 3 g ; find 101 ; data 101 ; disp 1 ; get 1 ; disp 1 ; sess 1 ; post 1 b 3 3 g",
    "R=0 M=0 T=w1 : sess 1 ; post 1 b 1 4 g ; post 1 c 3 4 g ; pre 1 b 4 ; get 1",
    "R=1 M=1 T=w1,p2 : pre 1 b 4 ; pre 2 c 9 ; out 1 b 1 4 ; post 1 b 1 4 g",
    "R=1 M=0 T=w1 : bad f ; regd 1 x ; regd 1 y ; bad g ; find 101 ; find 101 ; bad t ; pre 1 b 3 ; bad t ; post 1 b 1 3 g ; bad t ; out 1 b 1 3 ; bad f ; sess 1 ; put 1 2 ; post 1 c 3 2 g ; post 1 c 3 2 g",
    "R=1 M=0 T=w1,p1 : sess 1 ; put 1 5 | sess 2 ; post 2 b 3 5 g ; post 2 b 3 5 o ; post 2 b 1 5 x",
    "R=1 M=0 T=w1 : " + " ; ".join("post 1 %s %d %d %s" % (k, p, i, g) for k in "bc" for p in (1, 3) for i in (2, 5) for g in "gonxzb") + " ; put 1 5 ; " + " ; ".join("post 1 %s %d %d %s" % (k, p, i, g) for k in "bc" for p in (1, 3) for i in (2, 5) for g in "gonxzb"),
    "R=1 M=0 T=w3,p2 : out 1 b 1 6 ; out 2 c 1 6 ; out 1 c 3 8 ; prei 1 5 ; posti 2 6 ; res 1 8 ; und 2 ; find 8 ; reg 1 p 0 ; reg 1 q 1 ; dup 2 101 ; find 101 ; find 103 ; data 102 ; data 101 ; data 9",
]


def programs(r, n, big):
    out = []
    for _ in range(n):
        nt = r.choice([1, 2, 3]) if big else r.choice([2, 2, 3])
        txs = [r.choice([1, 1, 1, 2]) for _ in range(nt)]
        init = "R=%d M=%d T=%s" % (r.random() < .95, r.random() < .1, ",".join("%s%d" % (r.choice("wp"), x) for x in txs))
        ths = []
        groups = [list(range(1, nt + 1))] if big else [[k] for k in range(1, nt + 1)]
        ended = set()
        for g in groups:
            ops, live = [], set(g)
            for _ in range(r.choice([10, 25]) if big else r.choice([1, 2, 3, 4])):
                if not live:
                    break
                k = r.choice(sorted(live))
                i = r.choice([3, 5])
                o = r.choice(["sess", "sess", "put", "put", "post", "post", "post", "post", "reg", "regd", "regd", "dup", "disp", "get", "pre", "out", "find", "data", "bad", "end", "res", "endtx"])
                x = {"put": "put %d %d" % (k, i), "post": "post %d %s %d %d %s" % (k, r.choice("bc"), r.choice([1, 3, 3]), i, r.choice("gggggonxzb")), "reg": "reg %d %s %d" % (k, r.choice("abc"), r.randrange(2)),
                     "regd": "regd %d %s" % (k, r.choice("xyz")), "dup": "dup %d %d" % (k, r.choice([3, 101])), "pre": "pre %d %s %d" % (k, r.choice("bc"), i), "out": "out %d %s %d %d" % (k, r.choice("bc"), r.choice([1, 3]), i),
                     "find": "find %d" % r.choice([3, 101, 102]), "data": "data %d" % r.choice([3, 101, 102]), "bad": "bad %s" % r.choice("fftg"), "res": "res %d %d" % (k, i)}.get(o)
                if o == "bad" and x == "bad g":
                    x += " ; find 101"
                if o in ("sess", "disp", "get"):
                    x = "%s %d" % (o, k)
                if o == "end":
                    if r.random() < .5:
                        continue
                    live.discard(k)
                    x = "end %d" % k
                if o == "endtx":
                    if txs[k - 1] in ended or r.random() < .6:
                        continue
                    ended.add(txs[k - 1])
                    x = "endtx %d" % txs[k - 1]
                if o == "data" and "bad g" in " ".join(ops):
                    continue
                ops.append(x)
            ths.append(" ; ".join(ops) or "get %d" % g[0] if live else " ; ".join(ops))
        out.append(init + " : " + " | ".join(ths))
    return out


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("LobMC", "SPECIFICATION Spec\nCONSTANTS NT = 2\n MaxOps = %d\nINVARIANT OneSession Agrees OnePool ReleasedLast NothingStuck\nPROPERTIES ClosedStays ReleasedStays\nCHECK_DEADLOCK FALSE\n" % (5 if T else 4), chk.workdir, heap="8g"), "large objects: specification laws")
    cfg = lincfg("LobInit", "Do", "NoTau", "Never")
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "the relay service, its sessions and the datastore are stand-ins",
                        "one task is evaluated by one thread at a time; values returned by functions have the datastore or the session as provider"]
    if not check_conc(chk, "lob", ["lob_h.cpp"], SRC, PROGRAMS + programs(chk.rng, 200 if T else 30, False), "LobTrace", cfg, "large objects", quick=(2, 800, 100, 2), mem_quick=(1, 60, 100, 1.5), cap=2000, **KW):
        return
    check_conc(chk, "lob", ["lob_h.cpp"], SRC, programs(chk.rng, 2000 if T else 200, True), "LobTrace", cfg, "large objects, one thread", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False, **KW)
