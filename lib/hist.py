"""running instrumented harnesses and validating the histories they produce"""
import json, random, concurrent.futures as cf
from vlib import *

LINCFG = """SPECIFICATION LSpec
CONSTANTS
 InitSt <- %s
 Apply <- %s
 Tau <- %s
 MayBlock <- %s
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""


def lincfg(init, apply, tau="NoTau", mayblock="NotServed", extra=""):
    return LINCFG % (init, apply, tau, mayblock) + extra


def explore(chk, exe, programs, budget, label, timeout=400, env=None):
    """programs: list of text programs; budget=(dfs_bound, dfs_max, random_runs, seconds). Returns [(program?, history, count)]"""
    shards = min(NCPU, len(programs))
    groups = [programs[i::shards] for i in range(shards)]

    def one(gi):
        g, k = gi if isinstance(gi, tuple) else (gi, 0)
        inp = "".join("%d %d %d %g\n%s\n" % (tuple(budget) + (p,)) for p in g)
        e = dict(HENV)
        e.update(env or {})
        e["COOP_CPU"] = str(k)
        rc, out, err = run([exe, str(chk.seed)], timeout=timeout if len(g) > 1 else min(timeout, 90 + 2 * budget[3]), env=e, input=inp.encode())
        return g, rc, out.decode(errors="replace"), err.decode(errors="replace")

    hs = {}
    runs = dead = live = complete = progs = 0
    crashed = None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for g, rc, out, err in ex.map(one, [(g, i) for i, g in enumerate(groups)]):
            if rc != 0:
                crashed = (g, rc, err)
                continue
            for line in out.splitlines():
                o = json.loads(line)
                if "h" in o:
                    k = json.dumps(o["h"])
                    hs[k] = hs.get(k, 0) + o["n"]
                elif "runs" in o:
                    runs += o["runs"]; dead += o["deadlocks"]; live += o["livelocks"]
                else:
                    complete += o["complete"]; progs += o["programs"]
    if crashed:
        g, rc, err = crashed
        # find a program that fails by itself
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for g1, rc2, _, err2 in ex.map(one, [([p], i) for i, p in enumerate(g)]):
                if rc2 != 0:
                    chk.violate(label + (": the implementation did not return" if rc2 == -999 else ": the implementation crashed") + " while following a legal scenario", {"program": g1[0], "rc": rc2, "stderr": err2[-3000:]})
                    return None
        if rc == -999:
            raise CheckError("harness timed out: " + label)
        chk.violate(label + ": the implementation crashed while following legal scenarios", {"programs": g, "rc": rc, "stderr": err[-3000:]})
        return None
    st = {"schedules": runs, "distinct_histories": len(hs), "blocked_runs": dead, "livelocks": live, "programs": progs, "exhaustive_within_bound": complete}
    return [json.loads(k) for k in hs], st


def check_histories(chk, exe, programs, budget, spec, cfg, label, timeout=400, shards=None, cap=None, env=None):
    r = explore(chk, exe, programs, budget, label, timeout=timeout, env=env)
    if r is None:
        return False
    hs, st = r
    hs.sort(key=lambda h: json.dumps(h))
    if cap and len(hs) > cap:
        chk.rng.shuffle(hs)
        hs = hs[:cap]
    for h in hs:
        if any(e.get("e") == "livelock" for e in h):
            chk.violate(label + ": a thread spins forever", {"history": h})
            return False
    rej, ts = validate_traces(spec, cfg, hs, chk.workdir, timeout=timeout, shards=shards)
    chk.cov["states"] += ts["distinct"]
    chk.cov["transitions"] += ts["generated"]
    chk.add_traces(len(hs), label + ": recorded histories validated", **st)
    chk.sample({"label": label, "history": hs[0][:14]})
    if rej:
        i, n = rej[0]
        rej2, _ = validate_traces(spec, cfg, [hs[i]], chk.workdir, timeout=timeout, shards=1)
        if not rej2:
            raise CheckError("rejection did not repeat")
        chk.violate(label + ": recorded history is not a behaviour of the specification", {"history": hs[i], "matched_events": rej2[0][1], "rejected": len(rej), "of": len(hs)})
        return False
    return True


SEQCFG = """SPECIFICATION LSpec
CONSTANTS
 InitSt <- %s
 Step <- %s
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
"""


def seqcfg(init, step, extra=""):
    return SEQCFG % (init, step) + extra


def record_seq(chk, exe, programs, label, timeout=240, env=None, args=()):
    """programs: lists of input lines, the first starting with RESET. Returns list of histories (parallel to programs)."""
    shards = min(NCPU, max(1, len(programs) // 20))
    groups = [list(range(i, len(programs), shards)) for i in range(shards)]

    def go(idx):
        inp = "\n".join("\n".join(programs[i]) for i in idx) + "\n"
        e = dict(HENV)
        e.update(env or {})
        rc, out, err = run([exe] + list(args), timeout=timeout if len(idx) > 1 else 60, env=e, input=inp.encode(errors="surrogateescape"))
        hs = []
        for line in out.decode(errors="replace").splitlines():
            try:
                o = json.loads(line)
            except ValueError:
                if rc != 0:
                    break
                raise CheckError("bad output of %s: %s" % (label, line[:300]))
            if o.get("e") == "i":
                hs.append([])
            hs[-1].append(o)
        return idx, rc, hs, err.decode(errors="replace")

    res = [None] * len(programs)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for idx, rc, hs, err in ex.map(go, groups):
            if rc != 0 or len(hs) != len(idx):
                bad = programs[idx[max(0, len(hs) - 1)]]
                _, rc2, hs2, err2 = go([idx[max(0, len(hs) - 1)]])
                if rc == -999 and rc2 != -999:
                    raise CheckError("harness timed out: " + label)
                chk.violate(label + (": the implementation did not return" if rc2 == -999 else ": the implementation crashed") + " while following a legal scenario",
                            {"program": bad, "rc": rc2 if rc2 != 0 else rc, "events_before": (hs2[0][-3:] if hs2 else []), "stderr": (err2 if rc2 != 0 else err)[-3000:]})
                return None
            for i, h in zip(idx, hs):
                res[i] = h
    return res


def check_seq(chk, exe, programs, spec, cfg, label, timeout=240, shards=None, env=None, args=(), heap="3g"):
    hs = record_seq(chk, exe, programs, label, timeout=timeout, env=env, args=args)
    if hs is None:
        return False
    rej, ts = validate_traces(spec, cfg, hs, chk.workdir, timeout=timeout, shards=shards, dfs=False, heap=heap)
    chk.cov["states"] += ts["distinct"]
    chk.cov["transitions"] += ts["generated"]
    chk.add_traces(len(hs), label + ": recorded histories validated", steps=sum(len(h) - 1 for h in hs))
    chk.sample({"label": label, "history": min(hs, key=len)[:14]})
    if rej:
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "w") as f:
                for i, n in rej:
                    f.write(json.dumps(hs[i][n] if n < len(hs[i]) else None) + "\n")
        i, n = min(rej, key=lambda r: len(hs[r[0]]))
        chk.violate(label + ": recorded history is not a behaviour of the specification",
                    {"program": programs[i][:n + 1], "matched_events": n, "first_rejected": hs[i][n] if n < len(hs[i]) else None, "history": hs[i][:n + 1][-12:], "rejected": len(rej), "of": len(hs)})
        return False
    return True


def check_conc(chk, name, harness, repo, programs, spec, cfg, label, quick=(2, 3000, 150, 4), thorough=(3, 40000, 3000, 40), mem_quick=(1, 100, 400, 4), mem_thorough=(1, 1000, 8000, 40),
               cap=None, timeout=400, env=None, mem=True, shards=None, **build):
    """explores the programs with scheduling points at synchronisation operations (with AddressSanitizer), then again
    with scheduling points at every memory access, and validates all recorded histories"""
    T = chk.thorough
    if mem:
        chk.builder.prefetch(name + "_mem", harness, repo, mem=True, **build)
    exe = chk.builder.build(name, harness, repo, coop=True, **build)
    if not check_histories(chk, exe, programs, thorough if T else quick, spec, cfg, label, timeout=timeout, env=env, cap=cap, shards=shards):
        return False
    if mem:
        exe = chk.builder.build(name + "_mem", harness, repo, mem=True, **build)
        return check_histories(chk, exe, programs, mem_thorough if T else mem_quick, spec, cfg, label + " (memory-access interleavings)", timeout=timeout, env=env,
                               cap=(None if cap is None else cap * 4) if T else (cap or 2500), shards=shards)
    return True
