from vlib import *
from hist import *

SRC = """kvs/coder.cpp kvs/readable_stream.cpp kvs/writable_stream.cpp utils/coder.cpp utils/decimal.cpp data/any.cpp data/aligned_buffer.cpp
memory/page_pool.cpp memory/details/page_allocation_info.cpp memory/lifo_paged_memory_resource.cpp
meta/record_meta.cpp meta/impl/record_layout_creator.cpp meta/character_field_option.cpp meta/octet_field_option.cpp meta/decimal_field_option.cpp meta/time_of_day_field_option.cpp meta/time_point_field_option.cpp
accessor/record_ref.cpp accessor/const_record_ref.cpp accessor/text.cpp  """.split()
KW = dict(protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))
KEYS = "b48gfnsodyp"
INT = {"b": 8, "1": 8, "2": 16, "4": 32, "8": 64}


def field(r, key):
    t = r.choice(KEYS + ("nsno" if key else "BCso"))
    f = t + (r.choice("ad") if key else "v") + r.choice("?!")
    if t == "n":
        p = r.choice([1, 2, 3, 4, 5, 9, 10, 17, 18, 19, 20, 21, 31, 36, 37, 38, r.randrange(1, 39)])
        f += "%d.%d" % (p, r.choice([0, 1, 2, p, r.randrange(p + 1)]) if p else 0)
    elif t == "s":
        f += r.choice(["v-", "v1", "v5", "v10", "v40", "f1", "f3", "f20", "f-"])
    elif t == "o":
        f += r.choice(["f1", "f3", "f20"] if key else ["f3", "f20", "v-", "v5", "v40"])
    return f


def text(r, f):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 14, 15, 16, 20, 39, 40, 41]) if r.random() < .97 else r.choice([300, 5000])
    lim = f[4:]
    if lim not in ("", "-") and r.random() < .85:
        n = min(n, int(lim))
    if lim == "-" and f[3] == "f" and r.random() < .8:
        n = min(n, 1)
    pool = r.choice([b"a", b"ab", b"ab \xff", b"\x01\x02\x7f\x80\xfe\xff", bytes(range(1, 256))])
    if r.random() < .04 or (f[0] == "o" and r.random() < .5):
        pool += b"\0\0"
    return "x" + (bytes(r.choice(pool) for _ in range(n)).hex() or "-")


def value(r, f):
    if f[2] == "?" and r.random() < .2:
        return "N"
    t = f[0]
    if t == "b":
        return str(r.randrange(2))
    if t in INT:
        w = INT[t]
        v = r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 65535, 1 << 31, (1 << (w - 1)) - 1, -(1 << (w - 1)), r.randrange(-(1 << (w - 1)), 1 << (w - 1))])
        return str(max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, v)))
    if t in "BC":
        return str(r.choice([0, 1, 255, 256, (1 << 64) - 1, 1 << 63, r.getrandbits(64)]))
    if t == "d":
        return str(r.choice([0, 1, -1, 255, 256, -719528, 2932896, r.randrange(-10**6, 10**6), r.randrange(-10**12, 10**12)]))
    if t == "y":
        return str(r.choice([0, 1, 255, 86399999999999, r.randrange(86400 * 10**9)]))
    if t == "p":
        return "%d:%d" % (r.choice([0, 1, -1, 255, -256, r.randrange(-10**11, 10**11)]), r.choice([0, 1, 255, 256, 999999999, r.randrange(10**9)]))
    if t in "fg":
        n = 8 if t == "f" else 4
        e = 11 if t == "f" else 8
        m = n * 8 - 1 - e
        exp = r.choice([0, 0, 1, (1 << e) // 2 - 1, (1 << e) - 2, (1 << e) - 1, (1 << e) - 1, r.randrange(1 << e)])
        man = r.choice([0, 0, 1, (1 << m) - 1, 1 << (m - 1), r.getrandbits(m)])
        if exp == (1 << e) - 1 and man:
            man |= 1 << (m - 1)        # quiet NaNs
        return "x" + ((r.getrandbits(1) << (n * 8 - 1)) | (exp << m) | man).to_bytes(n, "big").hex()
    if t == "n":
        p, s = map(int, f[3:].split("."))
        n = r.choice([1, 1, 2, p, p, max(1, p - 1), r.randrange(1, p + 1), min(38, p + 1)])
        d = r.choice(["0", "9" * n, "1" + "0" * (n - 1), "".join(r.choice("0123456789") for _ in range(n)).lstrip("0") or "0", str(min(10**n - 1, r.choice([127, 128, 255, 256, 32767, 32768, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 95) - 1, 1 << 95])))])
        e = r.choice([-s, -s, -s, -s + 1, -s - 1, 0, r.randrange(-40, 40)])
        if e == -s - 1 and r.random() < .6:
            d = d[:37] + "0"
        return "%s%s:%d" % ("-" if r.random() < .5 and d.strip("0") else "", d, e)
    return text(r, f)


def programs(r, n):
    out = []
    for i in range(n):
        L = ["RESET"]
        for _ in range(8):
            key = r.random() < .65
            fs = [field(r, key) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]
            F = ",".join(fs)
            write = int(r.random() < .8 or any(f[0] == "o" and f[3] == "f" for f in fs))
            for _ in range(4):
                if r.random() < .05:
                    L.append("dirty")
                cap = r.choice([100000] * 8 + [0, 1, 3, 8, 20, 40])
                L.append("enc %s %d %d %d %s %s" % (r.choice("ra"), write, cap, r.randrange(2), F, ",".join(value(r, f) for f in fs)))
                for _ in range(r.choice([1, 2, 3])):
                    cut = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 8, 12, 100]) if r.random() < .5 else 0
                    pos = -1
                    if r.random() < .15:
                        pos = r.randrange(8)
                    # bytes a decimal column cannot hold are out of scope
                    if any(f[0] == "n" for f in fs):
                        pos = -1
                    m = "%d %d %d" % (cut, pos, r.choice([0, 1, 127, 128, 129, 126, 255, r.randrange(256)]))
                    L.append(r.choice(["dec r %s %s" % (F, m), "dec a %s %s" % (F, m), "con %s %s" % (F, m)]))
        for _ in range(6):
            f = field(r, r.random() < .7)
            L.append("ea %d %d %s %s" % (r.choice([0, 1, 4, 10, 20, 64, 1000]), r.randrange(2) if not (f[0] == "o" and f[3] == "f") else 1, f, ",".join(value(r, f) for _ in range(r.choice([1, 2, 3])))))
        out.append(L)
    return out


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("CoderMC", "SPECIFICATION Spec\nCONSTANTS Two = %s\nINVARIANTS Ordered PrefixFree Back Short Equal\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if T else "FALSE"), chk.workdir), "encoding of keys: specification laws")
    exe = chk.builder.build("coder", ["coder_h.cpp"], SRC, **KW)
    check_seq(chk, exe, programs(chk.rng, 4000 if T else 400), "CoderTrace", seqcfg("CInit", "CStep"), "encoding of keys and values", shards=NCPU)
