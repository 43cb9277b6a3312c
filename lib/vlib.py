"""Shared machinery of the checks: building harnesses from /repo's working tree, running TLC,
turning TLC state graphs into test sequences, validating traces, writing evidence."""
import threading, concurrent.futures as cf, hashlib, json, os, random, re, shlex, shutil, signal, subprocess, sys, tempfile, time, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = os.environ.get("VERIF_CXX", "g++")
BASEFLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fno-omit-frame-pointer", "-DBOOST_THREAD_VERSION=4", "-DVERIF_HARNESS"]
ASAN = ["-fsanitize=address", "-fno-sanitize-recover=all"]


class CheckError(Exception):
    """the check itself could not be carried out (exit 2)"""


class Violation(Exception):
    def __init__(self, msg, data=None):
        super().__init__(msg)
        self.data = data


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _limit():
    os.setsid()


def run(cmd, timeout=None, env=None, cwd=None, input=None, check=False):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         env=e, cwd=cwd, preexec_fn=_limit)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -999, out, err
    if check and p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(map(str, cmd))[:300], err.decode(errors="replace")[-3000:]))
    return p.returncode, out, err


# --------------------------------------------------------------------------- build
class Builder:
    """Compiles harness + repository sources into one program. Objects are cached by the hash of
    their preprocessed text, so every object corresponds to the current tree."""

    def __init__(self, workdir):
        self.workdir = workdir
        self.cache = os.path.join(VERIF, "build", "cache")
        self.warm = os.path.isdir(self.cache)  # made by hand while developing; without it every object is compiled
        self.pch_locks = {}
        self.proto_out = None
        self.lock = threading.Lock()
        self.ahead = {}

    def prefetch(self, name, *a, **k):
        """starts building in the background; the same build() call later takes its result"""
        ex = cf.ThreadPoolExecutor(1)
        self.ahead[name] = ex.submit(self.build, "*" + name, *a, **k)
        ex.shutdown(wait=False)

    def protos(self):
        with self.lock:
            return self.gen_protos()

    def gen_protos(self):
        if self.proto_out:
            return self.proto_out
        out = os.path.join(self.workdir, "protos")
        os.makedirs(out, exist_ok=True)
        files = []
        for d, _, ns in os.walk(REPO + "/src"):
            files += [os.path.join(d, n) for n in ns if n.endswith(".proto")]
        run(["protoc", "-I" + REPO + "/src", "--cpp_out=" + out] + sorted(files), check=True, timeout=120)
        self.proto_out = out
        return out

    def pch(self, flags, pre):
        """precompiled header holding the force-included headers"""
        key = hashlib.sha256("\0".join(flags + pre).encode()).hexdigest()[:16]
        with self.lock:
            lk = self.pch_locks.setdefault(key, threading.Lock())
        h = os.path.join(self.workdir, "pch_" + key + ".h")
        with lk:
            if not os.path.exists(h + ".gch"):
                with open(h, "w") as f:
                    f.write("".join('#include "%s"\n' % x for x in pre))
                rc, out, err = run([CXX] + flags + ["-x", "c++-header", h, "-o", h + ".gch.tmp"], timeout=300)
                if rc != 0:
                    return None
                os.replace(h + ".gch.tmp", h + ".gch")
        return h

    def compile(self, src, flags, pre=(), want_pch=False):
        inc = [x for h in pre for x in ("-include", h)]
        if self.warm:
            rc, out, err = run([CXX] + flags + inc + ["-E", src], timeout=300)
            if rc != 0:
                raise CheckError("preprocessing %s failed:\n%s" % (src, err.decode(errors="replace")[-3000:]))
            key = hashlib.sha256(b"\0".join([x.encode() for x in flags] + [re.sub(rb"\n# \d+ .*", b"\n", out)])).hexdigest()[:40]
            obj = os.path.join(self.cache, key + ".o")
            if os.path.exists(obj):
                return obj
        else:
            obj = os.path.join(self.workdir, hashlib.sha256("\0".join([src] + flags + list(pre)).encode()).hexdigest()[:40] + ".o")
        h = self.pch(flags, list(pre) + [x for x in want_pch if x]) if want_pch else None
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, out, err = run([CXX] + flags + (["-include", h] if h else inc) + ["-c", src, "-o", tmp], timeout=600)
        if rc != 0 and h:
            rc, out, err = run([CXX] + flags + inc + ["-c", src, "-o", tmp], timeout=600)
        if rc != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, err.decode(errors="replace")[:4000]))
        os.replace(tmp, obj)
        return obj

    def build(self, name, harness, repo=(), coop=False, mem=False, asan=True, libs=("-lglog", "-ltbb"), defines=(), protos=False, extra_inc=(), ldflags=(), shim=True, plain_harness=False, pch=()):
        if name in self.ahead:
            return self.ahead.pop(name).result()
        name = name.lstrip("*")
        inc = ["-I" + x for x in extra_inc]
        if shim:
            inc.append("-I" + VERIF + "/shim")
        inc += ["-I" + VERIF + "/harness", "-I" + VERIF + "/coop", "-I" + REPO + "/include", "-I" + REPO + "/src"]
        if protos:
            inc.append("-I" + self.protos())
        if mem:
            coop, asan = True, False
            defines = tuple(defines) + ("VERIF_MEM",)
        flags = list(BASEFLAGS) + (ASAN if asan else []) + ["-D" + d for d in defines] + inc
        jobs = []
        pre = ([VERIF + "/shim/verif_prelude.h"] if shim else []) + ([VERIF + "/coop/instr.h"] if coop else [])
        iflags = flags + (["-DVERIF_COOP"] if coop else [])
        if mem:
            iflags = iflags + ["-fsanitize=thread"]
            jobs.append((VERIF + "/coop/tsanrt.cpp", list(BASEFLAGS) + ["-I" + VERIF + "/coop"]))
        for h in harness:
            plain = mem and plain_harness
            jobs.append((os.path.join(VERIF, "harness", h), [f for f in iflags if f != "-fsanitize=thread" or not plain], pre))
        for r in repo:
            p = r if r.startswith("/") else os.path.join(REPO, "src/jogasaki", r)
            if not os.path.exists(p):
                raise CheckError("no source file " + p)
            jobs.append((p, iflags, pre, len(repo) > 2 and [""] + list(pch)))
        if coop:
            jobs.append((VERIF + "/coop/coop.cpp", list(BASEFLAGS) + (ASAN if asan else []) + ["-I" + VERIF + "/coop"]))
        if protos and protos != "headers":
            po = self.protos()
            for d, _, ns in os.walk(po):
                jobs += [(os.path.join(d, n), flags) for n in ns if n.endswith(".pb.cc")]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda j: self.compile(*j), jobs))
        exe = os.path.join(self.workdir, name)
        cmd = [CXX] + (ASAN if asan else []) + ["-o", exe] + objs + list(ldflags) + list(libs) + ["-lboost_thread", "-lboost_container", "-lboost_system", "-lboost_filesystem", "-lpthread"]
        rc, out, err = run(cmd, timeout=300)
        if rc != 0:
            raise CheckError("linking %s failed:\n%s" % (name, err.decode(errors="replace")[-4000:]))
        return exe


HENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99", "GLOG_minloglevel": "3", "GLOG_logtostderr": "1"}


# --------------------------------------------------------------------------- TLC
def tlc(spec, cfg, workdir, env=None, workers=None, timeout=600, args=(), heap="4g", dfs=False, simulate=None, depth=None):
    """Runs TLC on /verif/spec/<spec>.tla with config text `cfg`. Returns (rc, stdout text)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=workdir)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    with open(os.path.join(d, spec + "_run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d]
    if dfs:
        cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
    cmd += ["-cp", TLAJARS, "tlc2.TLC", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-workers", str(workers or NCPU), "-config", spec + "_run.cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    cmd += list(args) + [spec + ".tla"]
    rc, out, err = run(cmd, cwd=d, env=env, timeout=timeout)
    text = out.decode(errors="replace") + err.decode(errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    return rc, text


def tlc_counts(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def model_check(spec, cfg, workdir, timeout=600, **kw):
    """Exhaustive check of the specification itself. An error here is an error of the check, never of the code."""
    rc, text = tlc(spec, cfg, workdir, timeout=timeout, **kw)
    if rc != 0 or "Model checking completed. No error has been found." not in text:
        raise CheckError("model checking of %s failed (rc=%s):\n%s" % (spec, rc, text[-4000:]))
    gen, dist = tlc_counts(text)
    if dist == 0:
        raise CheckError("model checking of %s: no states" % spec)
    return {"spec": spec, "generated": gen, "distinct": dist}


def state_graph(spec, cfg, workdir, timeout=600, **kw):
    """The specification must define ACTION_CONSTRAINT Export printing '@@' + ToJson([s, a, t]).
    Returns (init, edges) where edges: node -> list of (action, node)."""
    rc, text = tlc(spec, cfg, workdir, timeout=timeout, workers=1, **kw)
    if rc != 0 or "No error has been found" not in text:
        raise CheckError("state graph of %s failed (rc=%s):\n%s" % (spec, rc, text[-4000:]))
    edges = collections.OrderedDict()
    init = None
    n = 0
    seen = set()
    for line in text.splitlines():
        i = line.find("@@")
        if i < 0:
            continue
        j = line[i + 2:]
        if j.endswith('"'):
            j = j[:-1]
        j = j.replace('\\"', '"').replace("\\\\", "\\")
        o = json.loads(j)
        if "i" in o:
            init = json.dumps(o["i"], sort_keys=True)
            continue
        s = json.dumps(o["s"], sort_keys=True)
        t = json.dumps(o["t"], sort_keys=True)
        a = json.dumps(o["a"], sort_keys=True)
        if (s, a, t) in seen:
            continue
        seen.add((s, a, t))
        edges.setdefault(s, []).append((a, t))
        if init is None:
            init = s
        n += 1
    if n == 0:
        raise CheckError("state graph of %s is empty:\n%s" % (spec, text[-2000:]))
    gen, dist = tlc_counts(text)
    return init, edges, {"spec": spec, "generated": gen, "distinct": dist, "transitions": n}


def edge_cover(init, edges, rng, maxlen=60, budget=None):
    """Sequences of actions from init covering every transition at least once."""
    # shortest path tree
    parent = {init: None}
    q = collections.deque([init])
    while q:
        s = q.popleft()
        for (a, t) in edges.get(s, ()):
            if t not in parent:
                parent[t] = (s, a)
                q.append(t)
    uncovered = {(s, a, t) for s in edges for (a, t) in edges[s] if s in parent}
    todo = {}
    for (s, a, t) in uncovered:
        todo.setdefault(s, []).append((a, t))
    for s in todo:
        todo[s].sort()
        rng.shuffle(todo[s])
    paths = []
    order = sorted(todo)
    rng.shuffle(order)
    for s0 in order:
        while todo[s0]:
            pre = []
            x = s0
            while parent[x] is not None:
                px, a = parent[x]
                pre.append(a)
                x = px
            pre.reverse()
            seq = list(pre)
            cur = s0
            while len(seq) < len(pre) + maxlen:
                if todo.get(cur):
                    a, t = todo[cur].pop()
                else:
                    # bounded BFS to the nearest state with uncovered edges
                    par = {cur: None}
                    qq = collections.deque([(cur, 0)])
                    hit = None
                    while qq:
                        y, d = qq.popleft()
                        if todo.get(y):
                            hit = y
                            break
                        if d >= 3:
                            continue
                        for (a, t) in edges.get(y, ()):
                            if t not in par:
                                par[t] = (y, a)
                                qq.append((t, d + 1))
                    if hit is None:
                        break
                    back = []
                    while par[hit] is not None:
                        y, a = par[hit]
                        back.append((a, hit))
                        hit = y
                    for (a, t) in reversed(back):
                        seq.append(a)
                        cur = t
                    continue
                seq.append(a)
                cur = t
            paths.append(seq)
            if budget and len(paths) >= budget:
                return paths, sum(len(v) for v in todo.values())
    return paths, 0


def random_walks(init, edges, rng, count, length):
    out = []
    for _ in range(count):
        s = init
        seq = []
        for _ in range(length):
            e = edges.get(s)
            if not e:
                break
            a, s = e[rng.randrange(len(e))]
            seq.append(a)
        out.append(seq)
    return out


def tok(x):
    if x is True:
        return "1"
    if x is False:
        return "0"
    return str(x)


def replay(exe, paths, timeout=300, chunk=None, env=None, shards=None):
    """Each path is a list of action JSON texts {"op":..,"args":[..],"res":[..]}. The program reads
    lines 'op args...' and 'RESET', answers one line per op. Returns None or a failing description."""
    shards = shards or min(NCPU, max(1, len(paths) // 50))
    groups = [paths[i::shards] for i in range(shards)]

    def one(group):
        lines = []
        exp = []
        for pi, path in enumerate(group):
            lines.append("RESET")
            exp.append(None)
            for ai, a in enumerate(path):
                o = json.loads(a) if isinstance(a, str) else a
                lines.append(" ".join([o["op"]] + [tok(v) for v in o.get("args", [])]))
                exp.append((pi, ai, [tok(v) for v in o.get("res", [])]))
        e = dict(HENV)
        e.update(env or {})
        rc, out, err = run([exe], timeout=timeout if len(group) > 1 else min(timeout, 60), env=e, input=("\n".join(lines) + "\n").encode())
        got = out.decode(errors="replace").splitlines()
        for i, x in enumerate(exp):
            if i >= len(got):
                pi, ai = (x[0], x[1]) if x else (0, 0)
                if x is None:  # crashed in RESET (destruction of the previous object)
                    pi = sum(1 for y in exp[:i + 1] if y is None) - 2
                    pi = max(pi, 0)
                    ai = len(group[pi]) - 1
                return {"path": [json.loads(a) if isinstance(a, str) else a for a in group[pi][:ai + 1]], "expected": x[2] if x else None,
                        "observed": "harness %s (rc=%s): %s" % ("did not return" if rc == -999 else "ended", rc, err.decode(errors="replace")[:1500])}
            if x is None:
                continue
            g = got[i].split()
            if g != x[2]:
                pi, ai, _ = x
                return {"path": [json.loads(a) if isinstance(a, str) else a for a in group[pi][:ai + 1]], "expected": x[2], "observed": g}
        if rc != 0:
            return {"path": [json.loads(a) if isinstance(a, str) else a for a in group[-1]], "expected": "clean exit", "observed": "rc=%s %s" % (rc, err.decode(errors="replace")[:1500])}
        return None

    with cf.ThreadPoolExecutor(max(1, min(NCPU, len(groups)))) as ex:
        for r in ex.map(one, groups):
            if r is not None:
                return r
    return None


def minimise(exe, path, check, limit=200):
    """drop prefix-irrelevant actions is not possible in general; keep as is (paths are short)"""
    return path


# --------------------------------------------------------------------------- trace validation
EVAL_ERROR = re.compile(r"Evaluating|evaluat|Attempted to|attempted to|Overflow|overflow when|not in the domain|The first argument of|The second argument of|CHOOSE|was not in")


def validate_traces(spec, cfg, traces, workdir, timeout=600, shards=None, dfs=True, heap="3g", extra_env=None):
    """traces: list of histories, each a list of JSON events. The Trace spec reads IOEnv.TRACES (ndjson, one history
    per line), explores every history and prints '@@REJECT <index> <reached>' through its POSTCONDITION for each
    history that is not a behaviour. Returns (list of (trace index, matched events), stats)."""
    if not traces:
        raise CheckError("no traces to validate for " + spec)
    shards = shards or min(NCPU, max(1, len(traces) // 40))
    groups = [list(range(i, len(traces), shards)) for i in range(shards)]
    stats = {"generated": 0, "distinct": 0, "traces": len(traces)}

    def attempt(idx):
        fd, fn = tempfile.mkstemp(suffix=".ndjson", dir=workdir)
        with os.fdopen(fd, "w") as f:
            for i in idx:
                f.write(json.dumps({"h": traces[i]}) + "\n")
        env = {"TRACES": fn}
        env.update(extra_env or {})
        rc, text = tlc(spec, cfg, workdir, env=env, workers=1, timeout=timeout, dfs=dfs, heap=heap)
        os.unlink(fn)
        return rc, text

    def one(idx):
        rc, text = attempt(idx)
        if "@@DONE" not in text:
            if not EVAL_ERROR.search(text):
                raise CheckError("trace validation with %s did not finish (rc=%s):\n%s" % (spec, rc, text[-4000:]))
            # a recorded value lies outside what the specification can even evaluate: find the history which holds it
            while len(idx) > 1:
                half = idx[:len(idx) // 2]
                rc2, t2 = attempt(half)
                if "@@DONE" in t2:
                    idx = idx[len(idx) // 2:]
                else:
                    idx, text = half, t2
            rc, text = attempt(idx)
            if "@@DONE" not in text:
                if not EVAL_ERROR.search(text):
                    raise CheckError("trace validation with %s did not finish (rc=%s):\n%s" % (spec, rc, text[-4000:]))
                m = re.search(r"depth of the complete state graph search is (\d+)", text)
                at = min(int(m.group(1)) if m else 0, len(traces[idx[0]]) - 1)
                return [(idx[0], at)], tlc_counts(text)
        rej = []
        for m in re.finditer(r"@@REJECT (\d+) (\d+)", text):
            rej.append((idx[int(m.group(1)) - 1], int(m.group(2)) - 1))
        if rc != 0 and not rej:
            raise CheckError("trace validation with %s failed (rc=%s):\n%s" % (spec, rc, text[-4000:]))
        return rej, tlc_counts(text)

    rejected = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rej, (g, d) in ex.map(one, groups):
            rejected += rej
            stats["generated"] += g
            stats["distinct"] += d
    return sorted(rejected), stats


# --------------------------------------------------------------------------- check frame
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level = level
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        base = os.path.join(VERIF, "build", "work")
        os.makedirs(base, exist_ok=True)
        self.workdir = tempfile.mkdtemp(prefix=pid + "_", dir=base)
        self.builder = Builder(self.workdir)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "parts": []}
        self.assumptions = []
        self.violations = []
        self.pending = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_model(self, r, label=None):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r.get("transitions", r["generated"])
        self.cov["parts"].append(dict(r, label=label or r.get("spec")))

    def model(self, fn, label=None):
        """model-checks in the background in the quick tier (joined by finish)"""
        if self.thorough:
            self.add_model(fn(), label)
            return
        ex = cf.ThreadPoolExecutor(1)
        self.pending.append((ex.submit(fn), label))
        ex.shutdown(wait=False)

    def add_traces(self, n, label, **kw):
        self.cov["traces_validated_against_impl"] += n
        self.cov["parts"].append(dict({"label": label, "traces": n}, **kw))

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violate(self, what, data):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "data": data, "seed": self.seed, "tier": self.tier}, f, indent=1, default=str)
        self.violations.append((what, path))
        log("[%s] VIOLATED: %s\n%s" % (self.pid, what, json.dumps(data, default=str)[:3000]))

    def known(self, text):
        print("KNOWN-FINDING: property=%s %s" % (self.pid, text), flush=True)

    def finish(self):
        for f, label in self.pending:
            self.add_model(f.result(), label)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.workdir, ignore_errors=True)
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("%s: %s in %.1fs" % (self.pid, "VIOLATED" if self.violations else "held", time.time() - self.t0), flush=True)
        return 1 if self.violations else 0


def replay_graph(chk, exe, spec, cfg, label, maxlen=60, walks=0, walklen=40, timeout=300, confirm=True, env=None):
    """model check + export graph, cover every transition on the real code, plus random walks"""
    init, edges, st = state_graph(spec, cfg, chk.workdir, timeout=timeout)
    paths, left = edge_cover(init, edges, chk.rng, maxlen=maxlen)
    if left:
        raise CheckError("uncovered transitions: %d" % left)
    if walks:
        paths += random_walks(init, edges, chk.rng, walks, walklen)
    chk.add_model(st, label)
    r = replay(exe, paths, timeout=timeout, env=env)
    if r is not None and confirm:
        r2 = replay(exe, [[json.dumps(a) for a in r["path"]]], timeout=timeout, shards=1, env=env)
        if r2 is None:
            # only fails after other paths in the same process: rerun everything
            r2 = replay(exe, paths, timeout=timeout, env=env)
            if r2 is None:
                raise CheckError("mismatch did not repeat: %s" % json.dumps(r)[:1000])
        else:
            r = r2
    chk.add_traces(len(paths), label + ": behaviours of the specification replayed", steps=sum(map(len, paths)), transitions=st["transitions"])
    if paths:
        chk.sample({"label": label, "path": [json.loads(a) for a in min(paths, key=len)[:12]]})
    if r is not None:
        chk.violate("%s: the implementation does not follow the specification" % label, r)
        return False
    return True


def main(pid, fn, level="model_checking"):
    chk = Check(pid, level)
    try:
        fn(chk)
        rc = chk.finish()
    except CheckError as e:
        log("[%s] ERROR of the check: %s" % (pid, e))
        shutil.rmtree(chk.workdir, ignore_errors=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        shutil.rmtree(chk.workdir, ignore_errors=True)
        rc = 2
    sys.exit(rc)
