#!/usr/bin/env python3
"""muts.py ID[,ID..] < lines "file ||| old ||| new [||| nth]": tries each change in a scratch copy (3 at a time) and reports whether the check notices."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile, time
ids = sys.argv[1].split(",")
jobs = int(os.environ.get("J", "3"))


def one(l):
    w = (l + " ").split(" ||| ") if l.endswith("|||") else l.split(" ||| ")
    if not w[0].startswith(("src/", "include/")):
        w[0] = "src/jogasaki/" + w[0]
    f, o, n = w[:3]
    n = "" if n == " " else n
    nth = int(w[3]) if len(w) > 3 else 1
    o = o.encode().decode("unicode_escape"); n = n.encode().decode("unicode_escape")
    d = tempfile.mkdtemp(prefix="mrepo_", dir="/tmp")
    try:
        for x in ("src", "include", "mock"):
            if os.path.isdir("/repo/" + x):
                shutil.copytree("/repo/" + x, d + "/" + x)
        p = d + "/" + f
        s = open(p).read()
        i = -1
        for _ in range(nth):
            i = s.find(o, i + 1)
            if i < 0:
                return l, "PATTERN NOT FOUND"
        open(p, "w").write(s[:i] + n + s[i + len(o):])
        out = []
        for k in ids:
            t = time.time()
            r = subprocess.run([sys.executable, "run.py", k], cwd="/verif", env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            e = [x for x in r.stderr.splitlines() if "VIOLATED" in x or "ERROR" in x or "error:" in x]
            out.append("%s rc=%d %.0fs %s" % (k, r.returncode, time.time() - t, (e[0][:150] if e else "")))
        return l, "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


lines = [x.rstrip("\n") for x in sys.stdin if x.strip()]
miss = 0
with cf.ThreadPoolExecutor(jobs) as ex:
    for l, r in ex.map(one, lines):
        ok = "rc=1" in r
        miss += not ok
        print(("caught " if ok else "MISSED ") + l + "\n        " + r, flush=True)
print("%d missed of %d" % (miss, len(lines)))
