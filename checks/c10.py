from vlib import *
from hist import *

REPO_SRC = ["memory/page_pool.cpp", "memory/fifo_paged_memory_resource.cpp", "memory/lifo_paged_memory_resource.cpp",
            "memory/monotonic_paged_memory_resource.cpp", "memory/details/page_allocation_info.cpp"]
PS = 2 * 1024 * 1024


def build(chk):
    return chk.builder.build("mem", ["mem_h.cpp"], REPO_SRC, libs=("-lglog", "-ltbb", "-lnuma"), ldflags=["-Wl,--wrap=mmap,--wrap=munmap"])


def rnd(chk, kind, n):
    """random legal use with real sizes and alignments"""
    r = chk.rng
    prog = ["RESET " + kind]
    live, cps, fails = 0, [], 0
    total = 0
    big = r.random() < 0.5
    for _ in range(n):
        op = r.choice(["alloc"] * 6 + ["free"] * 3 + ["cp", "rewind", "rewind", "endpage"] + (["huge"] if r.random() < 0.1 else []) + (["clear"] if r.random() < 0.1 else []))
        if op == "alloc":
            sz = r.choice([1, 3, 8, 24, 100, 4096, 65537, 1 << 20, (1 << 20) + 1, PS - 1, PS, PS - 64, 700001, r.randrange(1, PS)]) if big else r.choice([1, 2, 7, 8, 16, 33, 1000, 500000, 1048575])
            prog.append("alloc %d %d" % (sz, r.choice([1, 1, 2, 4, 8, 16, 64, 4096])))
            live += 1
            total += 1
        elif op == "huge":
            if fails < 3:
                prog.append("alloc %d 8" % (PS + r.choice([1, 8, 100000])))
                fails += 1
        elif op == "free" and live:
            if kind == "lifo" and any(c >= live for c in cps if c is not None):
                cps = [None if (c is not None and c >= live) else c for c in cps]
            if kind == "fifo":  # checkpoints that would fall behind the oldest block are not used any more
                cps = [None if (c is not None and c <= total - live) else c for c in cps]
            live -= 1
            if kind != "fifo":
                total -= 1
            prog.append("free")
        elif op == "cp" and kind != "mono":
            prog.append("cp")
            cps.append(total if kind == "fifo" else live)
        elif op == "rewind" and kind != "mono":
            ok = [i for i, c in enumerate(cps) if c is not None]
            if ok:
                i = r.choice(ok[:2] if kind == "fifo" else ok[-3:])
                prog.append("rewind %d" % i)
                if kind == "fifo":
                    cps = [None if j < i else c for j, c in enumerate(cps)]
                    live = min(live, total - cps[i])
                else:
                    live = cps[i]
                    total = live
                    cps = [c if (c is not None and j <= i) else None for j, c in enumerate(cps)]
        elif op == "endpage":
            prog.append("endpage")
        elif op == "clear" and kind == "lifo":
            prog.append("clear")
            live = total = 0
            cps = [None] * len(cps)
    return prog


def from_graph(chk, kind):
    T = chk.thorough
    cfg = ("SPECIFICATION Spec\nCONSTANTS Kind = \"%s\"\n CAP = 4\n Sizes = {%s}\n MaxPages = 3\n MaxBlocks = %d\n MaxCps = 2\n MaxOps = %d\n"
           "INVARIANTS NoOverlap InOwned ReserveNotUsed OneId\nVIEW Vw\nACTION_CONSTRAINT Export\nCHECK_DEADLOCK FALSE\n") % (kind, "1,2,4" if T else "1,3", 4 if T else 3, 9 if T else 7)
    init, edges, st = state_graph("MemGen", cfg, chk.workdir)
    paths, left = edge_cover(init, edges, chk.rng, maxlen=30)
    chk.add_model(st, "paged resource (%s), page of 4 units" % kind)
    progs = []
    for p in paths:
        prog = ["RESET " + kind]
        cps = []
        n = 0
        for a in p:
            a = json.loads(a)
            if a["op"] == "alloc":
                u = a["args"][0]
                # a unit is a quarter of a page, or a little less so that the page is not filled exactly
                prog.append("alloc %d %d" % (u * (PS // 4) - chk.rng.choice([0, 0, 0, 5]), chk.rng.choice([1, 8, 64])))
            elif a["op"] == "rewind":
                c = a["args"][0] - 1
                prog.append("rewind %d" % cps[c])
                cps = cps[:c + 1] if kind == "lifo" else cps[c:]
            elif a["op"] == "cp":
                prog.append("cp")
                cps.append(n)
                n += 1
            else:
                prog.append(a["op"])
                if a["op"] == "free" and kind == "fifo":
                    cps = cps[a["args"][0]:]
        progs.append(prog)
    return progs


def check(chk):
    exe = build(chk)
    T = chk.thorough
    for kind in ("fifo", "lifo", "mono"):
        progs = from_graph(chk, kind) + [rnd(chk, kind, chk.rng.choice([10, 30, 60])) for _ in range(3000 if T else 300)]
        if not check_seq(chk, exe, progs, "MemTrace", seqcfg("MInit", "MemStep"), "paged memory resource (%s)" % kind):
            return
    chk.assumptions += ["alignments up to 4096 (pages are only guaranteed to be aligned to page_pool::min_alignment)", "blocks of at least one byte"]
