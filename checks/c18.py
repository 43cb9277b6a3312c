from vlib import *
from hist import *
from c17 import SRC, KW, ALL, value, row, lst, finish

AGG = {"sum": "ijfgn", "avg": "ijfgn", "max": "ijfgnsodyp", "min": "ijfgnsodyp", "count": ALL, "count_rows": ALL}


def agg_programs(r, n):
    out = []
    for i in range(n):
        L = ["RESET"]
        bulk = i % 25 == 24
        kt = [r.choice(ALL) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        parts = r.choice([1, 2, 3, 4, 8])
        for f in range(1, r.choice([1, 1, 2, 3]) + 1):
            cols = kt + [r.choice(ALL) for _ in range(r.choice([1, 1, 2, 3]))]
            perm = list(range(len(cols)))
            r.shuffle(perm)
            cols = "".join(cols[p] for p in perm)
            keys = [perm.index(k) for k in range(len(kt))]
            vals = []
            for _ in range(r.choice([1, 2, 3, 4])):
                c = r.randrange(len(cols))
                vals.append("%s:%d" % (r.choice([k for k, t in AGG.items() if cols[c] in t]), c))
            sinks = r.choice([[1], [2], [3], [2, 1]])
            empty = not keys and r.random() < .5
            L.append("new %d a %s %s %s %d %d %s" % (f, cols, lst(keys), ",".join(vals), empty, parts, lst(sinks)))
            # tables are flushed when the hash table fills up: tables of a few buckets make that frequent
            if r.random() < .6 and not bulk and not empty:
                L.append("small %d %d %d" % (f, 64, r.choice([1, 2, 4, 8, 16])))
            if r.random() < .9:
                pool = [row(r, cols) for _ in range(r.choice([1, 3, 8, 30]))]
                for _ in range(r.choice([1, 4, 15, 40]) if not bulk else 8):
                    k = r.choice([1, 1, 1, 2, 3, 7]) if not bulk else r.choice([1, 5, 200, 3000, 40000])
                    L.append("w %d %d %d %s" % (f, r.randrange(sum(sinks)), k, r.choice(pool)))
            L += finish(r, f, parts * len(sinks))
        out.append(L)
    return out


def store_programs(r, n):
    out = []
    for i in range(n):
        L = ["RESET"]
        nv = r.choice([1, 1, 2])
        ts = [r.choice(ALL) for _ in range(nv)]
        for v in range(nv):
            L.append("vs %d %s" % (v, ts[v]))
        size = [0] * nv
        for _ in range(r.choice([5, 15, 30])):
            v = r.randrange(nv)
            o = r.choice(["va"] * 6 + ["vl", "vl", "vc", "vd", "vd", "vr"])
            if o == "va":
                k = r.choice([1, 1, 2, 3, 9]) if r.random() < .93 else r.choice([5000, 70000, 150000, 300000])
                if size[v] + k > 900000:
                    continue
                size[v] += k
                L.append("va %d %d %d" % (v, k, value(r, ts[v])))
            else:
                L.append("%s %d" % (o, v))
                if o == "vr":
                    size[v] = 0
        for v in range(nv):
            L += ["vl %d" % v, "vc %d" % v, "vd %d" % v]
        out.append(L)
    return out


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("AggMC", "SPECIFICATION Spec\nCONSTANTS MaxRows = %d\nINVARIANTS Splits Determined Bounds NullOnly\nCHECK_DEADLOCK FALSE\n" % (5 if T else 4), chk.workdir), "aggregation: specification laws")
    exe = chk.builder.build("xchg", ["xchg_h.cpp"], SRC, **KW)
    chk.assumptions += ["sums stay within the range of their type", "decimal values are compared in one representation each",
                        "a record store of one column holds fewer values than fit the one page of its null flags (two million)", "fewer distinct values are counted than fit a hash table of one page"]
    cfg = seqcfg("XInit", "XStep")
    if check_seq(chk, exe, agg_programs(chk.rng, 6000 if T else 700), "XchgTrace", cfg, "aggregation", shards=NCPU):
        check_seq(chk, exe, store_programs(chk.rng, 3000 if T else 300), "XchgTrace", cfg, "value stores and COUNT(DISTINCT)", shards=NCPU)
