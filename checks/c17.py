from vlib import *
from hist import *

SRC = """data/aligned_buffer.cpp data/record_store.cpp data/iterable_record_store.cpp data/small_record_store.cpp executor/common/task.cpp executor/exchange/task.cpp executor/io/reader_container.cpp executor/partitioner.cpp executor/compare_info.cpp
executor/exchange/group/flow.cpp executor/exchange/group/group_info.cpp executor/exchange/group/input_partition.cpp executor/exchange/group/priority_queue_reader.cpp executor/exchange/group/sink.cpp executor/exchange/group/sorted_vector_reader.cpp executor/exchange/group/source.cpp executor/exchange/group/writer.cpp
executor/exchange/aggregate/aggregate_info.cpp executor/exchange/aggregate/flow.cpp executor/exchange/aggregate/input_partition.cpp executor/exchange/aggregate/reader.cpp executor/exchange/aggregate/sink.cpp executor/exchange/aggregate/source.cpp executor/exchange/aggregate/writer.cpp
executor/exchange/shuffle/flow.cpp executor/exchange/shuffle/pointer_table.cpp executor/exchange/shuffle/run_info.cpp
executor/function/builtin_functions.cpp executor/function/field_locator.cpp executor/function/value_generator.cpp executor/function/aggregate_function_info.cpp executor/function/aggregate_function_repository.cpp
executor/function/incremental/aggregate_function_info.cpp executor/function/incremental/aggregate_function_repository.cpp executor/function/incremental/aggregator_info.cpp executor/function/incremental/builtin_functions.cpp
memory/page_pool.cpp memory/details/page_allocation_info.cpp memory/lifo_paged_memory_resource.cpp memory/monotonic_paged_memory_resource.cpp
meta/record_meta.cpp meta/group_meta.cpp meta/impl/record_layout_creator.cpp meta/character_field_option.cpp meta/octet_field_option.cpp meta/decimal_field_option.cpp meta/time_of_day_field_option.cpp meta/time_point_field_option.cpp accessor/record_copier.cpp accessor/record_ref.cpp accessor/const_record_ref.cpp accessor/text.cpp
transaction_state.cpp transaction_context.cpp request_context.cpp error/error_info.cpp error/error_info_factory.cpp storage/storage_manager.cpp storage/reference_scope.cpp storage/shared_lock.cpp storage/unique_lock.cpp auth/action_set.cpp auth/authorized_users_action_set.cpp
model/flow_repository.cpp request_statistics.cpp utils/convert_control_characters.cpp utils/watch.cpp utils/copy_field_data.cpp""".split()
KW = dict(protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma", "-lboost_filesystem", "-lboost_thread"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))
ALL = "ijfgnsobdyp"


def value(r, c, wide=True):
    null = [-1, -1] if c.islower() and wide else []
    return r.choice(null + (list(range(2)) if c in "bB" else list(range(8))))


def row(r, cols, null=True):
    return ",".join(str(value(r, c, null)) for c in cols) or "-"


def columns(r, n, upper):
    f = str.upper if upper else str
    return "".join(f(r.choice(ALL)) if r.random() < .5 else r.choice(ALL) for _ in range(n))


def lst(xs):
    return ",".join(map(str, xs)) or "-"


def feed(r, f, cols, sinks, rows_, n, bulk):
    pool = [row(r, cols) for _ in range(rows_)]
    out = []
    for _ in range(n):
        k = r.choice([1, 1, 1, 2, 3, 7]) if not bulk else r.choice([1, 5, 200, 3000, 40000])
        out.append("w %d %d %d %s" % (f, r.randrange(sinks), k, r.choice(pool)))
    return out


def group_flow(r, f, cols, keys, parts, bulk=False):
    rest = [i for i in range(len(cols)) if i not in keys]
    sort = r.sample(rest, r.randrange(len(rest) + 1)) if rest else []
    sinks = r.choice([[1], [2], [3], [2, 1], [1, 1, 1]])
    lim = r.choice(["-", "-", "-", 0, 1, 2, 3, 10]) if not bulk else r.choice(["-", 1, 1000, 100000])
    L = ["new %d g %s %s %s %s %d %s %d" % (f, cols, lst(keys), lst("%d%s" % (i, r.choice("ad")) for i in sort), lim, parts, lst(sinks), r.randrange(2))]
    if not bulk and r.random() < .6:
        L.append("small %d %d" % (f, r.choice([1, 2, 3, 5])))
    return L, sum(sinks)


def finish(r, f, nsrc):
    order = list(range(nsrc))
    r.shuffle(order)
    return ["go %d" % f] + ["rd %d %d" % (f, p) for p in order] + ["end %d" % f]


def programs(r, n):
    out = []
    for i in range(n):
        L = ["RESET"]
        bulk = i % 25 == 24
        kt = [r.choice(ALL) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        parts = r.choice([1, 2, 3, 4, 8])
        flows = []
        for f in range(1, r.choice([1, 2, 3]) + 1 if not bulk else 2):
            other = [r.choice(ALL) for _ in range(r.choice([0, 1, 2, 3]))]
            cols = kt + other
            perm = list(range(len(cols)))
            r.shuffle(perm)
            names = "".join(cols[p].upper() if r.random() < .3 else cols[p] for p in perm)
            if not names:
                names = "i"
            keys = [perm.index(k) for k in range(len(kt))]
            a, sinks = group_flow(r, f, names, keys, parts, bulk)
            L += a
            flows.append((f, names, sinks))
        body = []
        for f, names, sinks in flows:
            if r.random() < .93:
                body.append(feed(r, f, names, sinks, r.choice([1, 3, 8, 20]), r.choice([1, 4, 15, 40]) if not bulk else 12, bulk))
            else:
                body.append([])
        for f, names, sinks in flows:
            L += body[f - 1] + finish(r, f, parts)
        out.append(L)
    return out


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("XchgMC", "SPECIFICATION Spec\nCONSTANTS MaxRows = %d\nINVARIANTS Accepts Complete Ordered Limited\nCHECK_DEADLOCK FALSE\n" % (4 if T else 3), chk.workdir), "group exchange: specification laws")
    exe = chk.builder.build("xchg", ["xchg_h.cpp"], SRC, **KW)
    chk.assumptions += ["each sink is written by one task at a time and flushed before it is released"]
    check_seq(chk, exe, programs(chk.rng, 6000 if T else 700), "XchgTrace", seqcfg("XInit", "XStep"), "group exchange", shards=NCPU)
