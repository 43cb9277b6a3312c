from vlib import *
from hist import *

M64 = (1 << 64) - 1


def b8(x):
    return (x & M64).to_bytes(8, "big")


def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"


def uenc(v):
    o = bytearray()
    for i in range(8):
        g = v & 127
        v >>= 7
        if v == 0:
            o.append(g)
            return bytes(o)
        o.append(128 | g)
    o.append(v)
    return bytes(o)


def senc(v):
    return uenc(((v << 1) ^ (v >> 63)) & M64)


def numbers(r, n=0):
    s = {0, 1, 15, 16, 17, 62, 63, 64, 65, 127, 128}
    for k in list(range(1, 10)):
        for d in (-2, -1, 0, 1):
            s.add((1 << (7 * k)) + d); s.add((1 << (7 * k - 1)) + d)
    for k in (7, 8, 15, 16, 31, 32, 47, 62, 63):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    s = {x for x in s if 0 <= x < 1 << 63}
    s |= {-x for x in s} | {-(1 << 63), (1 << 63) - 1}
    for _ in range(n):
        x = r.getrandbits(r.randrange(1, 64))
        s.add(x if r.random() < .5 else -x)
    return sorted(s)


def unsigned(r, n=0):
    s = {x & M64 for x in numbers(r, n)}
    return sorted(s)


def magnitudes(r, n):
    s = {0}
    for k in range(0, 129):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    for k in range(39):
        s |= {10 ** k, 10 ** k - 1}
    for _ in range(n):
        s.add(r.getrandbits(r.randrange(1, 129)))
    return sorted(x for x in s if 0 <= x < 1 << 128)


I32 = [0, 1, -1, 63, 64, -64, -65, 127, 128, 8191, 8192, 1 << 20, (1 << 31) - 1, -(1 << 31)]
NANO = [0, 1, 127, 128, 16383, 16384, 1000, 999999999, 500000000]
TOD = [0, 1, 127, 128, 16384, 86399999999999, 86399 * 10**9, 3600 * 10**9]


def values(r, T):
    V = []
    for k in ("end", "null"):
        V.append((k, b""))
    for x in numbers(r, 400 if T else 60):
        V.append(("int", b8(x))); V.append(("date", b8(x)))
    for _ in range(60):
        V.append(("f4", bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(4))))
        V.append(("f8", bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(8))))
    V = [v for v in V if not (v[0] == "f4" and (v[1][0] & 127) == 127 and v[1][1] >= 128 and v[1][1] < 192)
         and not (v[0] == "f8" and (v[1][0] & 127) == 127 and 240 <= v[1][1] < 248)]  # signalling NaN patterns
    for m in magnitudes(r, 300 if T else 30):
        for s in ((0, 2) if m else (1,)):
            for e in (r.sample(I32, 4) if T else [r.choice(I32), 0]):
                V.append(("dec", bytes([s]) + m.to_bytes(16, "big") + b8(e)))
    for n in list(range(0, 20)) + [31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 255, 256] + ([300, 1000, 1024, 1030] if T else [300]):
        V.append(("char", bytes(r.randrange(256) for _ in range(n))))
        V.append(("oct", bytes(r.randrange(256) for _ in range(n))))
        V.append(("bit", bytes(r.randrange(2) for _ in range(n))))
        V.append(("bit", bytes([1] * n)))
    for x in TOD:
        V.append(("tod", b8(x)))
        for z in I32:
            V.append(("todz", b8(x) + b8(z)))
    for x in r.sample(numbers(r), 60 if T else 25):
        for y in r.sample(NANO, 3):
            V.append(("tp", b8(x) + b8(y)))
            V.append(("tpz", b8(x) + b8(y) + b8(r.choice(I32))))
    for _ in range(200 if T else 60):
        V.append(("ival", b8(r.choice(I32)) + b8(r.choice(I32)) + b8(r.choice(I32)) + b8(r.choice(numbers(r)))))
    for n in list(range(0, 36)) + [63, 64, 127, 128, 16383, 16384, (1 << 31) - 1, (1 << 30)]:
        V.append(("row", b8(n))); V.append(("array", b8(n)))
    for _ in range(30):
        for k in ("clob", "blob"):
            V.append((k, b"".join(b8(r.choice([0, 1, M64, r.getrandbits(64)])) for _ in range(3))))
    return V


def entry(k, v):
    """encoding used only to generate inputs for the readers"""
    S = lambda i: int.from_bytes(v[8 * i:8 * i + 8], "big", signed=True)
    U = lambda i: int.from_bytes(v[8 * i:8 * i + 8], "big")
    sized = lambda base, mx, lg, n: bytes([base + n - 1]) if 1 <= n <= mx else bytes([lg]) + uenc(n)
    if k == "int":
        x = S(0)
        return bytes([x]) if 0 <= x < 64 else bytes([0xd0 + x]) if -16 <= x < 0 else b"\xe9" + senc(x)
    if k == "dec":
        m = int.from_bytes(v[1:17], "big") * (v[0] - 1)
        e = int.from_bytes(v[17:25], "big", signed=True)
        n = max(1, (m.bit_length() if m >= 0 else (-m - 1).bit_length()) // 8 + 1)
        if n <= 8:
            return entry("int", b8(m)) if e == 0 else b"\xec" + senc(e) + senc(m)
        return b"\xed" + senc(e) + uenc(n) + m.to_bytes(n, "big", signed=True)
    if k == "bit":
        bs = bytearray((len(v) + 7) // 8)
        for i, x in enumerate(v):
            bs[i // 8] |= x << (i % 8)
        return sized(0xe0, 8, 0xf2, len(v)) + bytes(bs)
    return {"end": lambda: b"\xfe", "null": lambda: b"\xe8", "f4": lambda: b"\xea" + v, "f8": lambda: b"\xeb" + v,
            "char": lambda: sized(0x40, 64, 0xf0, len(v)) + v, "oct": lambda: sized(0xd0, 16, 0xf1, len(v)) + v,
            "date": lambda: b"\xf3" + senc(S(0)), "tod": lambda: b"\xf4" + uenc(U(0)), "todz": lambda: b"\xee" + uenc(U(0)) + senc(S(1)),
            "tp": lambda: b"\xf5" + senc(S(0)) + uenc(U(1)), "tpz": lambda: b"\xef" + senc(S(0)) + uenc(U(1)) + senc(S(2)),
            "ival": lambda: b"\xf6" + senc(S(0)) + senc(S(1)) + senc(S(2)) + senc(S(3)),
            "row": lambda: sized(0x80, 32, 0xf8, U(0)), "array": lambda: sized(0xa0, 32, 0xf9, U(0)),
            "clob": lambda: b"\xfa" + v, "blob": lambda: b"\xfb" + v}[k]()


KINDS = ["end", "null", "int", "f4", "f8", "dec", "char", "oct", "bit", "date", "tod", "todz", "tp", "tpz", "ival", "row", "array", "clob", "blob"]
FREE = ["int", "dec", "char", "oct", "bit", "date", "row", "array"]  # kinds for which any bytes may be read


def inputs(chk):
    r, T = chk.rng, chk.thorough
    L = []
    for k, v in values(r, T):
        e = entry(k, v)
        L.append("w %s %s -1" % (k, hx(v)))
        rooms = {len(e) - 1, len(e), len(e) + 1, 0, 1, r.randrange(len(e) + 1)} | (set(range(26)) if k in ("clob", "blob") and r.random() < .2 else set())
        for c in sorted(x for x in rooms if x >= 0):
            L.append("w %s %s %d" % (k, hx(v), c))
        L.append("r %s %s" % (k, hx(e)))
        L.append("peek %s" % hx(e))
        L.append("r %s %s" % (k, hx(e + bytes([r.randrange(256)]))))
        L.append("r %s %s" % (k, hx(e[:r.randrange(len(e))])))
        L.append("r %s %s" % (k, hx(e[:-1])))
        L.append("r %s %s" % (r.choice(KINDS), hx(e)))
        if k in FREE and len(e) > 1:
            b = bytearray(e); b[r.randrange(min(len(b), 4))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])
            L.append("r %s %s" % (k, hx(b)))
    for h in range(256):
        for t in (b"", b"\0" * 40, bytes(r.randrange(256) for _ in range(70)), b"\x80" * 9 + b"\1" * 30):
            b = bytes([h]) + t
            L.append("peek " + hx(b))
            for k in FREE:
                L.append("r %s %s" % (k, hx(b)))
    # decimals: coefficient lengths and signs, including non-minimal and out-of-range ones
    for n in list(range(0, 20)) + [127, 128, 1 << 20]:
        for f in (0, 1, 0x7f, 0x80, 0xff):
            for rest in (0, 0xff, 1):
                b = bytes([0xed]) + senc(r.choice(I32)) + uenc(n) + (bytes([f]) + bytes([rest]) * (min(n, 30) - 1) if n else b"")
                L.append("r dec " + hx(b)); L.append("r dec " + hx(b[:-1]))
    # coefficients of fewer than 9 bytes must be non-negative: a negative one there is refused by an assertion of the reader
    L = [x for x in L if not neg_short(x)]
    # 32 bit fields out of range
    for x in ((1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 40):
        L.append("r dec " + hx(b"\xec" + senc(x) + senc(5)))
        L.append("r todz " + hx(b"\xee" + uenc(5) + senc(x)))
        L.append("r tpz " + hx(b"\xef" + senc(5) + uenc(5) + senc(x)))
        for p in range(3):
            L.append("r ival " + hx(b"\xf6" + b"".join(senc(x if i == p else 1) for i in range(3)) + senc(x)))
    for x in ((1 << 31) - 1, 1 << 31, 1 << 32, 1 << 63):
        for k, h in (("char", 0xf0), ("oct", 0xf1), ("bit", 0xf2), ("row", 0xf8), ("array", 0xf9)):
            L.append("r %s %s" % (k, hx(bytes([h]) + uenc(x) + b"abc")))
    # base-128 numbers
    for x in unsigned(r, 300 if T else 60):
        v = b8(x)
        for c in range(11):
            if c in (9, 10) or r.random() < .3:
                L.append("uw %s %d" % (hx(v), c)); L.append("sw %s %d" % (hx(v), c))
        L.append("usz " + hx(v)); L.append("ssz " + hx(v))
        e = uenc(x)
        for b in (e, e + b"\1", e[:-1], e[:-1] + bytes([e[-1] | 128, 0]), e[:-1] + bytes([e[-1] | 128]) + b"\0\1"):
            for m in (0, 1):
                L.append("ur %s %d" % (hx(b), m)); L.append("sr %s %d" % (hx(b), m))
    for _ in range(1500 if T else 400):
        b = bytes(r.choice([0, 0, 1, 0x7f, 0x80, 0x80, 0x81, 0xff, r.randrange(256)]) for _ in range(r.randrange(12)))
        L.append("ur %s %d" % (hx(b), r.randrange(2))); L.append("sr %s %d" % (hx(b), r.randrange(2)))
    return sorted(set(L))


def neg_short(x):
    w = x.split()
    if w[0] != "r" or w[1] != "dec" or not w[2].startswith("ed"):
        return False
    b = bytes.fromhex(w[2])
    p = 1
    for _ in range(2):
        q = p
        while q < len(b) and q < p + 8 and b[q] >= 128:
            q += 1
        n = b[p:q + 1]
        p = q + 1
    if not n or p >= len(b):
        return False
    return len(n) == 1 and n[0] < 8 and b[p] >= 128


def check(chk):
    cfg = "SPECIFICATION Spec\nCONSTANT Edge = {0, 127, 128, 255}\nINVARIANTS RoundTrip SelfDelimiting PrefixFree HeaderTells Compact\nCHECK_DEADLOCK FALSE\n"
    chk.add_model(model_check("WireMC", cfg, chk.workdir), "wire format: specification laws")
    exe = chk.builder.build("wire", ["wire_h.cpp"], ["serializer/base128v.cpp", "serializer/value_input.cpp", "serializer/value_output.cpp", "serializer/value_input_exception.cpp"])
    lines = inputs(chk)
    chk.rng.shuffle(lines)
    n = 150
    progs = [["RESET"] + lines[i:i + n] for i in range(0, len(lines), n)]
    check_seq(chk, exe, progs, "WireTrace", seqcfg("WInit", "WStep"), "wire format", shards=NCPU)
    chk.assumptions += ["reading is checked with sub-second parts below one second (the reader builds the date and time types from them)"]
