import itertools
from vlib import *
from hist import *

ACT = ["control", "select", "insert", "update", "delete"]
SUBS = [[a for i, a in enumerate(ACT) if m >> i & 1] for m in range(32)]
STATES = [["control"]] + [s for s in SUBS if "control" not in s]
f = lambda s: ",".join(s) or "-"


def programs(chk):
    r = chk.rng
    P = []
    sub = lambda: f(r.sample(s, len(s))) if (s := r.choice(SUBS)) is not None else "-"
    # every held set, every grant and revoke on it, with what everybody may do afterwards
    for h in STATES:
        for a in SUBS:
            for op in ("grant", "revoke"):
                P.append(["grant b select,update", "grant a " + f(h), "%s a %s" % (op, f(a)), "find a", "find b", "users", "same a b"] + ["acovers a " + x for x in ACT] + ["has a " + x for x in ACT]
                         + ["reload", "find a", "find b", "pub", "users"])
            for op in ("pgrant", "prevoke"):
                P.append(["grant b insert", "pgrant " + f(h), "%s %s" % (op, f(a)), "pub"] + ["pallow " + x for x in ACT] + ["find b", "users", "reload", "pub", "find b"])
    # every pair of a user's rights and the public rights, every question
    for h in STATES:
        for p in STATES:
            P.append(["grant a " + f(h), "pgrant " + f(p), "grant c control"] + ["allows a " + f(q) for q in SUBS] + ["rawallows a " + f(q) for q in SUBS] + ["allows b " + f(q) for q in SUBS[:8]]
                     + ["covers a " + f(q) for q in SUBS])
    for _ in range(6000 if chk.thorough else 700):
        L = []
        for _ in range(r.randrange(4, 40)):
            u = r.choice(["a", "b", "A", "ab", "\u00e9" if False else "c"])
            o = r.choice(["grant"] * 4 + ["revoke"] * 3 + ["revoke1", "drop", "only", "pgrant", "prevoke", "pgrant1", "prevoke1", "pclear", "reload"] + ["allows", "allows", "find", "users", "pub", "covers", "has", "same", "rawallows"])
            if o in ("grant", "revoke", "allows", "covers", "rawallows"):
                L.append("%s %s %s" % (o, u, sub()))
            elif o in ("revoke1", "has"):
                L.append("%s %s %s" % (o, u, r.choice(ACT)))
            elif o in ("drop", "only", "find"):
                L.append("%s %s" % (o, u))
            elif o in ("pgrant", "prevoke"):
                L.append("%s %s" % (o, sub()))
            elif o in ("pgrant1", "prevoke1"):
                L.append("%s %s" % (o, r.choice(ACT)))
            elif o == "same":
                L.append("same %s %s" % (u, r.choice("abc")))
            else:
                L.append(o)
        for u in ("a", "b", "A", "ab", "c"):
            L += ["find " + u, "allows %s %s" % (u, sub())]
        P.append(L + ["users", "pub"])
    return [["RESET"] + x for x in P]


def check(chk):
    acts = ACT if chk.thorough else ACT[:3]
    chk.add_model(model_check("AuthMC", "SPECIFICATION Spec\nCONSTANT Acts = {%s}\nINVARIANTS Sole ControlAll Cover\nPROPERTY Effect\nCHECK_DEADLOCK FALSE\n" % ", ".join('"%s"' % a for a in acts), chk.workdir, heap="8g"), "rights: specification laws")
    exe = chk.builder.build("auth", ["auth_h.cpp"], ["auth/action_set.cpp", "auth/authorized_users_action_set.cpp", "auth/fill_action_set.cpp", "storage/storage_manager.cpp", "storage/unique_lock.cpp", "storage/shared_lock.cpp"],
                            protos=True, libs=("-lglog", "-ltbb", "-lprotobuf"))
    check_seq(chk, exe, programs(chk), "AuthTrace", seqcfg("AInit", "AStep"), "rights of users", shards=NCPU)
