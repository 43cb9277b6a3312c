from storagelib import *

E3 = " ".join([ent(1), ent(2), ent(3)])
PROGS = [E3 + " : " + p for p in [
    "uadd 1 1 ; urel 1 | uadd 2 1 ; urel 2", "uadd 1 1 ; urel 1 | sget 12 1 0 ; srel 12", "sget 11 1 0 ; srel 11 | sget 12 1 0 ; srel 12 | uadd 3 1 ; urel 3",
    "uadd 1 1,2 ; urel 1 | uadd 2 2,1 ; urel 2", "uadd 1 1,2,3 | sget 12 3,2 0 ; srel 12", "sget 11 1,2,3 0 ; srel 11 | uadd 2 2 ; uadd 2 3 ; urel 2",
    "uadd 1 1 ; uadd 1 1,2 ; urel 1 | uadd 2 2 ; uadd 2 1 ; urel 2", "uadd 1 1 ; sget 11 1,2 1 ; srel 11 ; urel 1 | sget 12 1,2 0 ; srel 12",
    "uadd 1 1,2 ; usub 1 1 ; urel 1 | uadd 2 1 ; urel 2", "uadd 1 1,2 ; uone 1 2 ; uone 1 2 ; uone 1 3 ; urel 1 | sget 12 2,1 0 ; srel 12",
    "uadd 1 1,1 ; uadd 1 2 | uadd 2 1", "sget 11 1,1 0 ; srel 11 | uadd 2 1 ; urel 2", "uadd 1 4 ; uadd 1 1,4 ; sget 11 1,4 0 | uadd 2 1 ; urel 2",
    "sget 11 2,1 0 | sget 12 1,2 0 | uadd 3 2,1", "uadd 1 1 ; rm 1 ; add 4 n4 - 1 0 - ; uadd 1 4 ; urel 1 | sget 12 1 0 ; sget 13 4 0",
    "uadd 1 1 ; mark 1 ; urel 1 | sget 12 1 0 ; srel 12 | uadd 3 1 ; urel 3"]]


def rnd(chk, n, ops, ths):
    r = chk.rng
    out = []
    for _ in range(n):
        T = []
        for t in range(r.choice(ths)):
            L = []
            for _ in range(r.choice(ops)):
                o = r.choice(["uadd", "uadd", "urel", "usub", "uone", "sget", "sget", "srel", "srel2", "sget2"])
                l = ",".join(str(r.choice([1, 2, 3, 3, 2, 1, 4])) for _ in range(r.choice([1, 1, 2, 2, 3])))
                h = t + 1
                if o in ("uadd", "usub"):
                    L.append("%s %d %s" % (o, h, ",".join(sorted(set(l.split(",")), key=l.index)) if o == "usub" else l))
                elif o == "uone":
                    L.append("uone %d %d" % (h, r.choice([1, 2, 3])))
                elif o == "urel":
                    L.append("urel %d" % h)
                elif o.startswith("sget"):
                    L.append("sget %d %s %d" % (h + (20 if o[-1] == "2" else 10), l, r.choice([0, h])))
                else:
                    L.append("srel %d" % (h + (20 if o[-1] == "2" else 10)))
            if len(ths) == 1:
                L = [x for y in L for x in (y, "info 1", "info 2", "info 3", "uholds 1 1", "uholds 1 2")]
            T.append(" ; ".join(L))
        out.append(E3 + " : " + " | ".join(T))
    return out


def check(chk):
    T = chk.thorough
    model(chk, "Exclusion")
    if not conc(chk, "storage", PROGS + rnd(chk, 120 if T else 30, [2, 3], [2, 3]), "locks on tables", quick=(2, 2500, 200, 3)):
        return
    # long histories of one session
    conc(chk, "storage", rnd(chk, 2000 if T else 250, [20, 40], [1]), "locks on tables, long histories", quick=(0, 1, 1, 1), thorough=(0, 1, 1, 1), mem=False)
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "tbb::concurrent_hash_map replaced by a model with the same locking rules"]
