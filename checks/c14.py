from storagelib import *

E = " ".join([ent(1), ent(2, key="k2"), ent(3, key="k3", prim=0, pe=1)])
PROGS = [E + " : " + p for p in [
    "key n1 | mark 1", "key n2 ; key n2 | mark 2 ; rm 2", "idx k2 | rm 2", "idx n1 | mark 1 ; rm 1", "key n1 ; idx n1 | rm 1", "byname n1 ; key n1 | rm 1 ; add 4 n1 - 1 0 - ; key n1",
    "key n2 ; byname n2 | mark 2 ; add 4 n2 k4 1 0 - ; key n2 ; idx k4 ; idx k2", "byname n1 ; has 1 | mark 1 ; has 1 ; byname n1", "add 4 n4 k4 1 0 - | byname n4 ; key n4 ; idx k4", "add 4 n4 - 1 0 - | has 4 ; byname n4 ; key n4 ; idx n4",
    "key n1 | key n1 | mark 1", "idx k2 | idx k2 ; key n2 | mark 2 ; rm 2", "add 1 n9 k9 1 0 - ; byname n9 ; idx k9 | rm 1", "uadd 1 1 ; key n1 | sget 12 1 0 ; idx n1 | mark 1",
    "add 4 n1 k4 1 0 - ; byname n1 ; rm 4 ; byname n1 ; key n1 ; idx n1 ; idx k4", "add 4 n4 k2 1 0 - ; idx k2 ; rm 4 ; byname n4 ; idx k2 ; key n2", "add 5 n5 - 1 0 o5 ; info 5 ; idx n5 ; mark 5 ; info 5 ; idx n5 ; idx o5 ; rm 5 ; idx n5",
    "add 5 n5 - 1 0 o5 ; mark 5 ; maint | idx n5 ; idx o5 ; byname n5", "add 4 n1 k4 1 0 - ; rm 1 ; byname n1 ; key n1 ; add 5 n1 k5 1 0 - ; byname n1 ; rm 4 ; key n1"]]


def rnd(chk, n, ops, ths):
    r = chk.rng
    out = []
    for _ in range(n):
        alive = {1: "n1", 2: "n2", 3: "n3"}
        own = {}
        T = []
        k = r.choice(ths)
        for t in range(k):
            # each thread changes entries of its own, all of them look at all
            mine = {i: alive[i] for i in alive if i % k == t}
            L = []
            nxt = 10 * (t + 1)
            for _ in range(r.choice(ops)):
                o = r.choice(["mark", "rm", "add", "add", "look", "look", "look"])
                if o == "mark" and mine:
                    i = r.choice(list(mine))
                    L.append("mark %d" % i)
                    own.setdefault(t, []).append(i)
                    mine.pop(i)
                elif o == "rm" and (mine or own.get(t)):
                    i = r.choice(list(mine) + own.get(t, []))
                    L.append("rm %d" % i)
                    mine.pop(i, None)
                    own[t] = [x for x in own.get(t, []) if x != i]
                elif o == "add":
                    # names of entries that are gone may be used again
                    name = r.choice(["x%d" % nxt] + ["n%d" % i for i in (1, 2, 3) if i % k == t and "n%d" % i not in mine.values()])
                    if name in mine.values():
                        continue
                    L.append("add %d %s %s 1 0 " % (nxt, name, r.choice(["k%d" % nxt, "k%d" % nxt, "-"]) if name[0] == "x" else "k%d" % nxt) + r.choice(["-", "-", "o%d" % nxt]))
                    mine[nxt] = name
                    nxt += 1
                else:
                    w = r.choice(["n1", "n2", "n3", "x10", "x20", "x11", "k2", "k3", "k10", "k20", "k11"])
                    L.append(r.choice(["byname " + w, "key " + w, "key " + w, "idx " + w, "idx " + w]))
            T.append(" ; ".join(L + ["size"] if k == 1 else L))
        out.append(E + " : " + " | ".join(T))
    return out


def check(chk):
    T = chk.thorough
    model(chk, "NamesFit")
    if not conc(chk, "storage", PROGS + rnd(chk, 100 if T else 20, [2, 3, 4], [2, 3]), "names and keys of tables", quick=(2, 3000, 200, 3)):
        return
    conc(chk, "storage", rnd(chk, 2000 if T else 250, [30, 60], [1]), "names and keys of tables, long histories", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False)
    chk.assumptions += ["tables have distinct names and keys, an identifier is not used again", "sequentially consistent memory between instrumented operations", "tbb::concurrent_hash_map replaced by a model with the same locking rules"]
