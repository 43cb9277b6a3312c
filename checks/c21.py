import json
from vlib import *
from hist import *

MSG = ["A", "B", "Msg", "Aa", "A_"]
PKG = ["", "p", "p.q", "A", "p.A"]


def ty(r, allow_empty=True):
    if allow_empty and r.random() < .08:
        return {"abs": False, "ty": ""}
    path = ".".join(r.choice(MSG) for _ in range(r.choice([1, 1, 1, 2])))
    pkg = r.choice(PKG)
    full = (pkg + "." if pkg else "") + path
    a = r.random() < .7
    return {"abs": a, "ty": ("." if a else "") + full}


def msg(r, depth=0):
    return {"name": r.choice(MSG), "fields": [dict(ty(r), msg=r.random() < .7) for _ in range(r.choice([0, 0, 1, 2, 3]))],
            "nested": [msg(r, depth + 1) for _ in range(r.choice([0, 0, 0, 1, 2]) if depth < 2 else 0)]}


def svc(r, rich):
    return {"name": r.choice(["S", "T", "Svc"]), "methods": [{"name": r.choice(["f", "g", "h", "Say"]) if not rich else "m%d" % r.randrange(1000), "in": ty(r), "out": ty(r)} for _ in range(r.choice([0, 1, 1, 2]))]}


def proto(r, rich):
    return {"name": r.choice(["a.proto", "b.proto", "c.proto", "d/a.proto"]), "pkg": r.choice(PKG), "msgs": [msg(r) for _ in range(r.choice([0, 1, 1, 2, 3]))],
            "svcs": [svc(r, rich) for _ in range(r.choice([0, 0, 1, 1, 2]))]}


def fileset(r):
    rich = r.random() < .6
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    return [{"st": r.choice(["ok"] * 6 + ["missing", "corrupt"]), "protos": [proto(r, rich) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]} for _ in range(n)]


def small():
    """every combination of a few single-proto files over small alternatives"""
    out = []
    M = [[], [{"name": "A", "fields": [], "nested": []}], [{"name": "B", "fields": [{"msg": True, "abs": True, "ty": ".p.A"}], "nested": [{"name": "A", "fields": [], "nested": []}]}]]
    Sv = [[], [{"name": "S", "methods": [{"name": "f", "in": {"abs": True, "ty": ".p.A"}, "out": {"abs": False, "ty": "B.A"}}]}],
          [{"name": "S", "methods": [{"name": "g", "in": {"abs": False, "ty": ""}, "out": {"abs": True, "ty": ".A"}}, {"name": "F", "in": {"abs": False, "ty": "A"}, "out": {"abs": True, "ty": ".A"}}]}]]
    alts = [{"st": st, "protos": [{"name": n, "pkg": g, "msgs": m, "svcs": s}]} for st in ("ok",) for n in ("a.proto", "b.proto") for g in ("", "p") for m in M for s in Sv]
    alts += [{"st": "missing", "protos": []}, {"st": "corrupt", "protos": []}, {"st": "ok", "protos": []}]
    out.append([])
    for a in alts:
        out.append([a])
        for b in alts:
            out.append([a, b])
    return out


def check(chk):
    r = chk.rng
    sets = small() + [fileset(r) for _ in range(20000 if chk.thorough else 2500)]
    r.shuffle(sets)
    progs = [["RESET"] + [json.dumps(x) for x in sets[i:i + 60]] for i in range(0, len(sets), 60)]
    exe = chk.builder.build("plugins", ["plugins_h.cpp"], ["udf/descriptor/descriptor_analyzer.cpp", "udf/descriptor/descriptor_reader.cpp", "udf/descriptor/validation/message_duplicate_validator.cpp",
                            "udf/descriptor/validation/rpc_duplicate_validator.cpp", "udf/error_info.cpp"], shim=False, libs=("-lglog", "-ltbb", "-lgrpc++", "-lprotobuf"))
    scratch = os.path.join(chk.workdir, "descs")
    check_seq(chk, exe, progs, "PluginsTrace", seqcfg("PInit", "PStep"), "plug-in description files", shards=NCPU, args=[scratch], heap="4g")
