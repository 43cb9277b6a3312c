import struct
from vlib import *
from hist import *
import c24
SRC, KW = c24.SRC, c24.KW
I4, I8 = (1 << 31) - 1, (1 << 63) - 1
POL = ["ignore", "floor", "ceil", "unknown", "warn", "error", "error", "ignore", "unknown"]
LEN = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20, 40, 64]


def numtext(r):
    x = r.random()
    if x < .12:
        return r.choice(["NaN", "nan", "-NaN", "+nan", "Infinity", "-Infinity", "INF", "+inf", "-inf", "infinit", "NaN1", "sNaN", "nan0", "", " ", "-", "+", ".", "E5", "1E", "1E+", "1.2.3", "0x10", "1 2", "--1", "1e5x", "true", "1_0", "٣"])
    if x < .2:
        return r.choice(["0", "-0", "-0.0", "0E99999", "0E-99999", "+0", "1E24576", "1E24577", "9.9E24576", "1E-24575", "1E-24576", "-1E24576", "1E999999999", "1E-999999999", "123E24574", "123E24575", "1E38", "1E37", "-1E50", "1E-50", "1E39",
                         "3.4028235E38", "3.5E38", "1E39", "1.1E-38", "1.2E-38", "1E-45", "-1E-46", "1.8E308", "1.7E308", "-1.8E308", "2.2E-308", "2.3E-308", "1E-400", "-1E-400", "1E400", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                         "2147483647", "2147483648", "-2147483648", "-2147483649", "2147483647.5", "-2147483648.5", "9223372036854775807.1"])
    d = "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 5, 9, 10, 18, 19, 37, 38, 39, 40, 45])))
    if r.random() < .2:
        d = d[0] + "0" * (len(d) - 1)
    if r.random() < .2:
        d = "9" * len(d)
    if r.random() < .5:
        k = r.randrange(len(d) + 1)
        d = d[:k] + "." + d[k:]
    s = r.choice(["", "", "-", "+"]) + d
    if r.random() < .3:
        s += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.choice([0, 1, 2, 5, 10, 37, 38, 40, 300, 24570, r.randrange(60)]))
    return s


def datetext(r):
    y, m, d = r.choice([0, 1, 1600, 1900, 1969, 1970, 1999, 2000, 2004, 2023, 2024, 2100, 9999]), r.choice([1, 2, 2, 3, 4, 11, 12]), r.choice([1, 2, 27, 28, 28, 29, 30, 31])
    if r.random() < .08:
        m, d = r.choice([(0, 1), (13, 1), (2, 30), (4, 31), (1, 0), (1, 32)])
    date = "%04d-%02d-%02d" % (y, m, d)
    h, mi, s = r.choice([0, 1, 9, 12, 23]), r.choice([0, 1, 30, 59]), r.choice([0, 1, 30, 59])
    if r.random() < .05:
        h, mi, s = r.choice([(24, 0, 0), (0, 60, 0), (0, 0, 60)])
    tm = "%02d:%02d:%02d" % (h, mi, s) + r.choice(["", "", ".5", ".123456789", ".000000001", ".999", ".", ".1234567890"][:8 if r.random() < .2 else 6])
    x = r.random()
    if x < .3:
        return date
    if x < .5:
        return tm
    return date + r.choice(["T", " ", " ", " "] + ([""] if r.random() < .2 else [])) + tm + r.choice(["", "", "Z", "+09:00", "-05:30", "+00", "-11", "+18:59", "+9:00" if r.random() < .2 else "", "z" if r.random() < .2 else ""])


def text(r, tgt):
    if tgt[0] in "ilfdn" and r.random() < .9:
        s = numtext(r)
    elif tgt[0] in "DTP" and r.random() < .95:
        s = datetext(r)
    elif tgt[0] == "o" and r.random() < .9:
        s = "".join(r.choice("0123456789abcdefABCDEF" if r.random() < .95 else "gG -") for _ in range(r.choice([0, 1, 2, 2, 4, 6, 8, 16, 20])))
    elif r.random() < .3:
        s = "".join(r.choice("ab é日😀") for _ in range(r.randrange(9)))
    else:
        s = r.choice(c24.TEXTS + ["AB  ", "AB   C", "日本 ", "    "])
    if r.random() < .2:
        s = r.choice(["", " ", "  ", "\t"][:3 if r.random() < .9 else 4]) + s + r.choice(["", " ", "   "])
    h = s.encode().hex()
    if r.random() < .02:
        h = r.choice(c24.BAD)
    if r.random() < .25 and h:
        return "c:%d:%s" % (len(h) // 2, h)
    return "t:" + (h or "-")


def number(r, t):
    if t in "il" or r.random() < .3:
        return c24.num(r, t)
    if t == "n":
        n = r.choice([1, 2, 3, 4, 5, 10, 19, 37, 38])
        d = r.choice([str(r.randrange(10 ** n)), "9" * n, "1" + "0" * (n - 1), str(I4), str(I4 + 1), str(I8), str(I8 + 1)])
        return "n:%s%s:%d" % ("-" if r.random() < .5 and int(d) else "", d, r.choice([0, 0, -1, -2, -3, -n, 1 - n, -n - 1, 1, 2, 5, 20, -40, 300, -300, 24000, -24000, r.randrange(-38, 30)]))
    f = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 0.1, 99.5, 999999.0, 1000000.0, 123456.0, 1234567.0, 0.0001, 0.00001, 1e15, 1e16, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 9223372036854774784.0, 9.3e18, -9223372036854775808.0, 1e19, 1e37, 1e38, 3e38,
                  float("inf"), float("-inf"), float("nan"), r.uniform(-1000, 1000), r.uniform(-1, 1) * 10 ** r.randrange(-10, 30), float(r.randrange(-1000, 1000)) / 8])
    if t == "d" and r.random() < .2:
        f = r.choice([3.4028235e38, 3.41e38, -3.41e38, 1.17549e-38, 1.1755e-38, 1e-39, -1e-39, 1e-45, 1e300, -1e-300, 5e-324, 16777217.0, 2147483647.5, -2147483648.5])
    return "%s:%s" % (t, struct.pack(">d" if t == "d" else ">f", f).hex())


def octets(r):
    h = (bytes(r.choice([0, 0, 1, 10, 97, 255, 128, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 16]))) + bytes(r.choice([0, 0, 1, 2]))).hex()
    return "x:%d:%s" % (len(h) // 2, h) if r.random() < .4 and h else "o:" + (h or "-")


def target(r, t=None):
    t = t or r.choice("iilffddnnnnnttttooDTPPb")
    if t == "n":
        p = r.choice([1, 2, 3, 4, 5, 6, 10, 18, 37, 38])
        s = r.choice([0, 0, 1, 2, p, p - 1, r.randrange(p + 1)])
        return r.choice(["n", "n.%d" % min(s, p), "n.0"] + ["n%d.%d" % (p, min(max(s, 0), p))] * 6 + ["n%d.-" % p])
    if t == "t":
        return r.choice(["tv", "tv%d", "tv%d", "tf%d", "tf%d"]).replace("%d", str(r.choice(LEN[1:])))
    if t == "o":
        return r.choice(["ov", "ov%d", "of%d"]).replace("%d", str(r.choice(LEN[1:])))
    if t == "P":
        return r.choice(["P", "Pz"])
    return t


def operand(r, tgt):
    s = r.choice("iilllfffdddnnnnnttttttttoo" if tgt[0] in "tilfdn" else "ttttttttoooinfdlDTPb" if tgt[0] == "o" else "ttttttttttttiDTP")
    if tgt[0] in "DTP" and r.random() < .85:
        s = "t"
    if s in "DTPb":
        return c24.leaf(r, s).lstrip("$@^")
    if s == "t":
        return text(r, tgt)
    if s == "o":
        return octets(r)
    return number(r, s)


def programs(r, n, steps):
    out = []
    for _ in range(n):
        L = ["RESET"]
        if r.random() < .8:
            L.append("cfg %d N" % r.choice([0, 540, -300, 1, -1, 840, -720]))
        for _ in range(steps):
            x = r.random()
            tgt = target(r)
            if x < .2:
                L.append("asgn %s %s" % (operand(r, tgt), tgt))
            elif x < .25:
                L.append("papp %s %s" % (operand(r, tgt), tgt))
            elif x < .85:
                L.append("eval cast:%s:%s %s%s" % (tgt, r.choice(POL), r.choice(["", "", "$", "@", "^"]), operand(r, tgt)))
            elif x < .9:                                          # a conversion there and back
                mid = target(r, r.choice("tndfil"))
                L.append("eval cast:%s:%s cast:%s:%s %s" % (tgt, r.choice(POL), mid, r.choice(POL), operand(r, mid)))
            else:                                                 # of the value of an expression
                k = r.choice("ilfdnt")
                L.append("eval cast:%s:%s %s" % (tgt, r.choice(POL), c24.expr(r, k, 1)))
        out.append(L)
    return out


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("CastMC", "SPECIFICATION Spec\nCONSTANTS N = %d\nINVARIANTS Decimal Written Hexed Calendar Cut\nCHECK_DEADLOCK FALSE\n" % (300 if T else 60), chk.workdir), "conversions: specification laws")
    exe = chk.builder.build("expr", ["expr_h.cpp"], SRC, **KW)
    check_seq(chk, exe, programs(chk.rng, 3000 if T else 300, 40), "CastTrace", seqcfg("CInit", "CastStep"), "conversions", shards=NCPU)
