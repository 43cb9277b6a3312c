from vlib import *
from hist import *

STREAM = ["1 : next 1 ; next 1 | push 1 1 ; end 1", "1 : next 1 | next 1 | push 1 1 ; push 1 2", "1 : next 1 | next 1 | push 1 1 ; end 1",
          "1 : next 1 | next 1 | end 1", "1 : next 1 | next 1 | close 1", "1 : nextt 1 ; next 1 | push 1 2 ; push 1 3 e | close 1",
          "1 : next 1 ; next 1 ; next 1 | push 1 1 ; push 1 2 ; end 1 ; push 1 3", "1 : push 1 1 ; push 1 2 | end 1 | next 1 ; next 1 ; next 1",
          "1 : push 1 1 | push 1 2 | next 1 ; try 1", "1 : next 1", "1 : nextt 1 | nextt 1 | push 1 5", "1 : next 1 | nextt 1 | push 1 5 ; push 1 6",
          "1 : push 1 1 ; push 1 3 ; push 1 4 e ; end 1 ; try 1 ; nextt 1 ; next 1 ; next 1 ; try 1 ; nextt 1", "1 : try 1 ; nextt 1 ; push 1 1 ; close 1 ; next 1 ; push 1 2 ; try 1 ; nextt 1 ; end 1 ; close 1 ; next 1",
          "2 : next 1 | push 1 1 ; move 2 1", "2 : next 1 | push 1 1 ; push 1 2 ; move 2 1 ; next 2 ; nextt 2 ; try 1", "2 : next 1 ; try 1 | mctor 2 1 ; push 2 7 ; next 2", "2 : next 1 | next 1 | move 2 1", "2 : next 1 | next 1 | mctor 2 1",
          "2 : push 1 1 ; end 1 ; mctor 2 1 ; next 2 ; next 2 ; next 1 ; push 1 3 ; try 1", "2 : push 1 1 ; move 2 1 ; push 2 2 ; next 2 ; next 2 ; end 2 ; next 2 ; next 1",
          "2 : push 1 1 ; close 1 ; push 2 3 ; move 2 1 ; try 2 ; nextt 2 ; push 2 4 ; next 2", "2 : push 1 1 ; push 2 3 ; move 1 1 ; try 1 ; move 2 1 ; try 2 ; try 2 ; try 1",
          "2 : move 1 2 | push 2 1 ; try 1 | nextt 2", "2 : push 1 1 ; move 2 1 | push 1 2 ; push 1 3 | next 1"]


def rnd(chk, n):
    r = chk.rng
    out = []
    for _ in range(n):
        ths, k = [], 1
        for t in range(r.choice([2, 3, 3])):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                o = r.choice(["push"] * 4 + ["next"] * 4 + ["nextt", "nextt", "try", "end", "close"])
                ops.append("push 1 %d%s" % (k, " e" if r.random() < .1 else "") if o == "push" else o + " 1")
                k += 1
            ths.append(" ; ".join(ops))
        out.append("1 : " + " | ".join(ths))
    return out


KINDS = "bool int4 int8 uint4 uint8 float double string bytes decimal date local_time local_datetime offset_datetime blob_reference clob_reference".split()


def add(r, i, k):
    x = r.choice([0, 1, -1, 7, 127, -128, 2**31 - 1, -2**31, r.randrange(-10**6, 10**6)])
    if k in ("int8", "local_time", "local_datetime", "offset_datetime"):
        x = r.choice([x, 2**63 - 1, -2**63, 2**40 + 1])
    y = r.choice([0, 1, 2, 2**32 - 1, 2**31, 999999999, r.randrange(1 << 30)])
    if k in ("uint8", "blob_reference", "clob_reference"):
        y = r.choice([y, 2**64 - 1, 2**63, 2**40])
    z = r.choice([0, 1, 540, 2**31 - 1, r.randrange(1 << 20)])
    b = bytes(r.choice([0, 65, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 3, 15, 16, 40])))
    return "add %d %s %d %d %d %s" % (i, k, x, y, z, b.hex() or "-")


def records(chk):
    r = chk.rng
    P = []
    # every kind of value against every kind of fetch; every null against every fetch
    for k in KINDS:
        L = ["RESET 1 2"]
        for f in KINDS:
            L += [add(r, 1, k), "null 1 " + k, add(r, 1, f)]
        L += ["open 1 1"]
        for f in KINDS:
            L += ["kind 1", "isnull 1", "fetch 1 " + f, "kind 1", "isnull 1", "fetch 1 " + f, "has 1", "kind 1", "fetch 1 " + f]
        L += ["has 1", "isnull 1", "kind 1", "fetch 1 " + k, "has 1", "open 2 1", "fetch 2 " + k, "has 2", "add 1 bool 1 0 0 -", "has 1", "fetch 1 bool", "has 1"]
        P.append(L)
    for _ in range(1500 if chk.thorough else 300):
        L = ["RESET 2 3"]
        opened = []
        for _ in range(r.randrange(5, 60)):
            w = r.random()
            i = r.choice([1, 2])
            if w < .35:
                L.append(add(r, i, r.choice(KINDS)))
            elif w < .45:
                L.append("null %d %s" % (i, r.choice(KINDS)))
            elif w < .48:
                L.append("reset %d" % i)
            elif w < .52:
                L.append("seterr %d %d %s" % (i, r.choice([0, 1, 13, 16]), r.choice(["-", "41", "6d7367"])))
            elif w < .57:
                L.append("err %d" % i)
            elif w < .60:
                L.append("assign %d %d" % (i, 3 - i)); L.append("err 1"); L.append("err 2")
            elif w < .67 or not opened:
                j = r.choice([1, 2, 3]); opened.append(j)
                L.append("open %d %d" % (j, i))
            else:
                j = r.choice(opened)
                o = r.choice(["fetch", "fetch", "has", "kind", "isnull"])
                L.append("%s %d%s" % (o, j, " " + r.choice(KINDS) if o == "fetch" else ""))
        P.append(L)
    return P


def check(chk):
    T = chk.thorough
    chk.add_model(model_check("StreamMC", "SPECIFICATION Spec\nCONSTANT NR = %d\nINVARIANTS InOrder EndLast Whole NothingAfterClose Waits\nPROPERTY EndStays\nCHECK_DEADLOCK FALSE\n" % (6 if T else 4), chk.workdir), "record stream: specification laws")
    src = ["udf/generic_record_impl.cpp", "udf/error_info.cpp"]
    lib = dict(shim=False, libs=("-lglog", "-ltbb", "-lgrpc++"))
    if not check_conc(chk, "stream", ["stream_h.cpp"], src, STREAM + rnd(chk, 200 if T else 40), "StreamTrace", lincfg("StInit", "StApply"), "record stream", quick=(2, 4000, 300, 5), **lib):
        return
    exe = chk.builder.build("record", ["record_h.cpp"], src, **lib)
    check_seq(chk, exe, records(chk), "RecordTrace", seqcfg("RecInit", "RecStep"), "records", shards=NCPU)
    chk.assumptions += ["sequentially consistent memory between instrumented operations", "a stream is not moved onto one whose consumer is waiting"]
