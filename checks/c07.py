from storagelib import *

T1, I2, T3 = ent(1), ent(2, pe=1, prim=0, key="k2"), ent(3, key="k3")
E = " ".join([T1, I2, T3])
OK = " n1=ok k2=ok k3=ok"
PROGS = [E + OK + " : " + p for p in [
    "uadd 1 1 ; ref 21 1 ; mark 1 ; urel 1 ; scend 21 | maint ; maint", "uadd 1 1 ; ref 21 1 ; mark 2 ; mark 1 ; urel 1 ; scend 21 | maint ; maint",
    "sget 11 1 0 ; ref 21 1 ; srel 11 ; scend 21 | uadd 2 1 ; mark 1 ; urel 2 | maint ; maint", "ref 21 1 ; ref 21 1 ; scend 21 | ref 22 1 ; scend 22 | refs 1 ; refs 1",
    "ref 21 3 ; ref 21 1 ; scend 21 | mark 3 ; maint", "mark 2 | maint ; maint", "mark 3 ; add 4 n3 k4 1 0 o4 ; byname n3 | maint ; byname n3 ; key n3 ; maint",
    "ref 21 1 ; mark 2 ; scend 21 | maint ; maint", "mark 1 ; maint ; maint | mark 3 ; key n3 ; idx k3", "mark 3 ; stop 1 | maint ; mlist ; stop 0 ; maint",
    "add 4 - k4 1 0 n4 ; byname n4 ; idx k4 | maint ; maint", "mlist ; mlist | mark 1 ; mark 3", "mlist | add 5 n5 - 1 0 - ; mark 5"]] + [
    E + " n1=error k2=error k3=ok : mark 1 ; mark 2 ; mark 3 ; maint ; maint ; maint", E + " n1=not_found k2=ok : mark 1 ; mark 2 ; mark 3 ; maint ; maint",
    E + " n1=error k2=ok : ref 21 1 ; mark 1 ; mark 2 ; scend 21 | maint ; maint ; maint"]


def rnd(chk, n, L):
    r = chk.rng
    out = []
    for _ in range(n):
        es, st, known, ops, nxt = [], [], {}, [], 1
        marked = set()

        def fresh():
            nonlocal nxt
            i = nxt
            nxt += 1
            prims = [k for k in known if known[k]]
            prim = not prims or r.random() < .6
            key = r.choice(["-", "k%d" % i])
            nameless = r.random() < .1
            known[i] = prim
            st.append("%s=%s" % ("k%d" % i if key != "-" else "n%d" % i, r.choice(["ok", "ok", "ok", "error", "not_found"])) if r.random() < .9 else "")
            if nameless:
                marked.add(i)
            return (i, "-" if nameless else "n%d" % i, key, int(prim), 0 if prim or r.random() < .1 else r.choice(prims), "n%d" % i if nameless else "-")
        for _ in range(r.choice([1, 3, 4])):
            es.append("%d,%s,%s,%d,%d,%s" % fresh())
        refs = {}
        for _ in range(r.choice(L)):
            o = r.choice(["ref"] * 5 + ["scend"] * 3 + ["mark"] * 3 + ["maint"] * 3 + ["add", "mlist", "info", "stop", "look"])
            ids = list(known)
            live = [i for i in ids if i not in marked]
            if o == "ref" and live:
                ops.append("ref %d %d" % (r.choice([21, 22, 23]), r.choice(live)))
            elif o == "scend":
                ops.append("scend %d" % r.choice([21, 22, 23]))
            elif o == "mark" and live:
                i = r.choice(live)
                marked.add(i)
                ops.append("mark %d" % i)
            elif o == "add" and nxt < 28:
                ops.append("add %d %s %s %d %d %s" % fresh())
            elif o == "info":
                ops += ["info %d" % i for i in ids]
            elif o == "stop":
                ops += ["stop 1", "maint", "stop 0"]
            elif o == "look":
                i = r.choice(ids)
                ops += ["byname n%d" % i, "key n%d" % i, "idx k%d" % i, "idx n%d" % i, "refs %d" % i]
            elif o in ("maint", "mlist"):
                ops += [o, "size"]
        out.append(" ".join(es + [x for x in st if x]) + " : " + " ; ".join(ops + ["maint", "scend 21", "scend 22", "scend 23", "maint", "maint"] + ["info %d" % i for i in known]))
    return out


def check(chk):
    T = chk.thorough
    model(chk, "References NeverInUse Once OnlyMarked")
    if not conc(chk, "storage", PROGS, "removal of tables", quick=(2, 4000, 300, 5)):
        return
    conc(chk, "storage", rnd(chk, 3000 if T else 400, [5, 20, 40]), "removal of tables, long histories", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False)
    chk.assumptions += ["one maintenance run at a time", "a table already marked for deletion is not newly referred to", "sequentially consistent memory between instrumented operations",
                        "tbb::concurrent_hash_map replaced by a model with the same locking rules; the store underneath is simulated"]
