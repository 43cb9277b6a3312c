from vlib import *
from hist import *
SRC = """executor/expr/evaluator.cpp executor/expr/evaluator_context.cpp executor/expr/error.cpp executor/expr/lob_processing.cpp executor/expr/details/cast_evaluation.cpp executor/expr/details/cast_evaluation_temporal.cpp
executor/expr/details/decimal_context.cpp executor/expr/details/decimal_context_guard.cpp executor/conv/unify.cpp executor/conv/parameter_apply.cpp executor/conv/assignment.cpp
executor/function/builtin_scalar_functions.cpp executor/function/scalar_function_repository.cpp executor/function/scalar_function_info.cpp
executor/process/impl/variable_table.cpp executor/process/impl/variable_table_info.cpp
utils/as_any.cpp utils/field_types.cpp utils/base64_utils.cpp utils/string_utils.cpp utils/utf8_utils.cpp utils/string_manipulation.cpp utils/hex_to_octet.cpp
data/any.cpp data/aligned_buffer.cpp data/small_record_store.cpp transaction_context.cpp transaction_state.cpp
memory/page_pool.cpp memory/details/page_allocation_info.cpp memory/lifo_paged_memory_resource.cpp
meta/record_meta.cpp meta/impl/record_layout_creator.cpp meta/character_field_option.cpp meta/octet_field_option.cpp meta/decimal_field_option.cpp meta/time_of_day_field_option.cpp meta/time_point_field_option.cpp
accessor/record_ref.cpp accessor/const_record_ref.cpp accessor/record_copier.cpp accessor/text.cpp
storage/storage_manager.cpp storage/reference_scope.cpp storage/maintenance_storage.cpp storage/shared_lock.cpp storage/unique_lock.cpp error/error_info.cpp error/error_info_factory.cpp kvs/transaction.cpp kvs/error.cpp utils/convert_control_characters.cpp""".split()
KW = dict(protos="headers", libs=("-lglog", "-ltbb", "-lprotobuf", "-lnuma"), ldflags=("-no-pie", "-Wl,--unresolved-symbols=ignore-all"))
import struct
I4, I8 = (1 << 31) - 1, (1 << 63) - 1
TEXTS = ["", "a", "ab", "abc", " a ", "  ", "aXb", "ab%", "a_b", "é", "aé", "éé", "日本語", "日", "😀a", "a😀é", "%", "_", "\\", "a\\%b", "aab", "abab", "aaab", "Zz09", "A" * 15, "x" * 16, "日本" * 9, "ab" * 30, "base64", "Base64"]
BAD = ["ff", "61ff62", "c3", "e697", "80", "f0909d"]


def num(r, k, hot=None):
    if k == "i":
        return "i:%d" % r.choice([0, 1, -1, 2, 3, 5, 7, 10, -10, I4, -I4 - 1, I4 - 1, -I4, r.randrange(-50, 50), r.randrange(-I4 - 1, I4 + 1), r.randrange(-10**6, 10**6)])
    if k == "l":
        return "l:%d" % r.choice([0, 1, -1, 2, 3, 10, -7, I8, -I8 - 1, I8 - 1, I4, I4 + 1, -I4 - 1, 1 << 53, (1 << 53) + 1, 10**18, r.randrange(-50, 50), r.randrange(-I8 - 1, I8 + 1)])
    if k == "n":
        d = r.choice(["0", "1", "5", "10", "15", "25", "49", "50", "51", "999", "12345", "9" * 18, "9" * 37, "9" * 38, "1" + "0" * 37, str(I8), str(1 << 64), str(r.randrange(10 ** r.randrange(1, 38)))])
        return "n:%s%s:%d" % ("-" if r.random() < .5 and d != "0" else "", d, r.choice([0, 0, 0, -1, -1, -2, -3, 1, 2, -18, -37, -38, 5, 20, r.randrange(-38, 30)]))
    e, m = (11, 52) if k == "d" else (8, 23)
    n = 1 + e + m
    if r.random() < .6:
        x = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 0.1, 3.25, 1e3, 12345.678, -0.75, 1e10, 7.0, r.uniform(-1000, 1000), float(r.randrange(-100, 100)) / 4])
        return "%s:%s" % (k, struct.pack(">d" if k == "d" else ">f", x).hex())
    ex = r.choice([0, 1, (1 << (e - 1)) - 1, (1 << e) - 2, (1 << e) - 1, (1 << e) - 1, (1 << (e - 1)) + r.randrange(-40, 70), (1 << (e - 1)) + r.randrange(-40, 70)])
    man = r.choice([0, 1, (1 << m) - 1, 1 << (m - 1), r.getrandbits(m)])
    if ex == (1 << e) - 1 and man:
        man |= 1 << (m - 1)
    return "%s:%s" % (k, ((r.getrandbits(1) << (n - 1)) | (ex << m) | man).to_bytes(n // 8, "big").hex())


def txt(r):
    if r.random() < .08:
        return r.choice(BAD)
    s = r.choice(TEXTS) if r.random() < .5 else "".join(r.choice("ab%_é日😀\\ A0") for _ in range(r.randrange(6)))
    return s.encode().hex() or "-"


def leaf(r, t):
    pre = r.choice(["", "", "", "$", "@", "^"])
    if r.random() < .1:
        return pre + "N" + {"t": "tv", "o": "ov", "n": "n"}.get(t, t)
    if t in "ilfdn":
        return pre + num(r, t)
    if t == "b":
        return pre + "b:%d" % r.randrange(2)
    if t == "t":
        if r.random() < .05:
            h = txt(r)
            return pre + "c:%d:%s" % (r.choice([1, 5, 20, 40]), h if h != "-" else "61")
        return pre + "t:" + txt(r)
    if t == "o":
        return pre + "o:" + (bytes(r.choice([0, 1, 97, 255, 128, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 16]))).hex() or "-")
    if t == "D":
        return pre + "D:%d" % r.choice([0, 1, -1, 18000, -719528, r.randrange(-10**5, 10**5)])
    if t == "T":
        return pre + "T:%d" % r.choice([0, 1, 86399999999999, r.randrange(86400 * 10**9)])
    return pre + "P:%d:%d" % (r.choice([0, 1, -1, r.randrange(-10**10, 10**10)]), r.choice([0, 1, 999999999, r.randrange(10**9)]))


def small(r, t):
    return leaf(r, t) if r.random() < .2 else t + ":%d" % r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 40, -1, -2, -9, -10, 7, 15, 16, -18, -19, 38, 39, -38, -39])


def pair(r, t):
    """operand types whose arithmetic gives type t"""
    if t == "l":
        return r.choice(["il", "li", "ll", "ll"])
    if t == "n":
        return r.choice(["nn", "nn", "in", "ni", "ln", "nl"])
    if t == "d":
        return r.choice(["dd", "dd", "df", "fd", "id", "dl", "nd", "dn", "nf", "fl", "if"])
    return t + t


def like(r, d):
    s = "".join(r.choice("abé日") for _ in range(r.randrange(7)))
    p = ""
    i = 0
    while i <= len(s):
        x = r.random()
        if x < .18:
            p += "%"
            i += r.randrange(4)
        elif i == len(s):
            break
        elif x < .35:
            p += "_"
            i += 1
        elif x < .42:
            p += r.choice("ab%_é\\")
            i += 1
        else:
            p += s[i]
            i += 1
    e = r.choice(["-", "5c", "5c", "21", "25", "c3a9"])
    a = lambda h: r.choice(["", "", "@", "$"]) + "t:" + (h or "-")
    x = [a(s.encode().hex()), a(p.encode().hex()), a(e)]
    k = r.randrange(3)
    if r.random() < .12:
        x[k] = leaf(r, "t")
    return "like " + " ".join(x)


def expr(r, t, d):
    if d <= 0 or r.random() < .12:
        return leaf(r, t)
    g = lambda u: expr(r, u, d - 1)
    if r.random() < .12:                                       # CASE and COALESCE of any type
        mix = {"l": "il", "n": "iln", "d": "ilnfd"}.get(t, t)
        if r.random() < .4:
            k = r.randrange(1, 4)
            ts = [r.choice(mix) for _ in range(k)]
            ts[r.randrange(k)] = t
            return "coal:%d " % k + " ".join(g(u) for u in ts)
        k, dflt = r.randrange(1, 4), r.randrange(2)
        ts = [r.choice(mix) for _ in range(k + dflt)]
        ts[r.randrange(k + dflt)] = t
        return "case:%d:%d " % (k, dflt) + " ".join(g("b") + " " + g(u) for u in ts[:k]) + (" " + g(ts[k]) if dflt else "")
    if t in "ilfdn":
        x = r.random()
        if t == "l" and x < .35:
            o = r.choice(["len", "oct", "pos", "char"])
            if o == "pos":
                return "fn:11019:2 %s %s" % (g("t"), g("t")) if r.random() < .5 else "fn:11019:2 t:%s t:%s" % tuple(("".join(r.choice("abé") for _ in range(n)).encode().hex() or "-") for n in (r.randrange(3), r.randrange(8)))
            return {"len": "fn:11000:1 ", "oct": "fn:11001:1 ", "char": "fn:%d:1 " % r.choice([11012, 11013])}[o] + g("o" if o == "oct" else "t")
        if x < .5:
            op = r.choice(["add", "sub", "mul", "div", "div", "rem"])
            p = pair(r, t)
            return "%s %s %s" % (op, g(p[0]), g(p[1]))
        if x < .56:
            return "%s %s" % (r.choice(["neg", "neg", "pos"]), g(t))
        k = "ilfdn".index(t)
        if x < .62:
            return "fn:%d:1 %s" % (11014 + k, g(t))
        if x < .7 and t in "iln":
            c = {"i": [(20, "ii")], "l": [(21, "il"), (22, "li"), (23, "ll")], "n": [(24, "in"), (25, "ni"), (26, "nl"), (27, "ln"), (28, "nn")]}[t]
            n, p = r.choice(c)
            return "fn:%d:2 %s %s" % (11000 + n, g(p[0]), g(p[1]))
        if x < .8:
            return "fn:%d:1 %s" % (11000 + r.choice([33, 38, 43]) + k, g(t))
        b = r.choice([48, 53])
        return "fn:%d:2 %s %s" % (11000 + b + k, g(t), small(r, "i" if b == 48 else "l"))
    if t == "b":
        x = r.random()
        if x < .25:
            return "%s %s %s" % (r.choice(["and", "or"]), g("b"), g("b"))
        if x < .32:
            return "not " + g("b")
        if x < .42:
            o = r.choice(["isnull", "istrue", "isfalse", "isunk"])
            return o + " " + g("b" if o != "isnull" else r.choice("ilfdnbto"))
        if x < .62:
            return like(r, d)
        u = r.choice(["ii", "il", "li", "ll", "nn", "in", "nl", "ff", "dd", "fd", "df", "nd", "dl", "if", "tt", "tt", "oo", "DD", "TT", "PP"])
        o = r.choice(["eq", "ne", "lt", "le", "gt", "ge", "nd", "ds"])
        a = g(u[0])
        return "%s %s %s" % (o, a, a if u[0] == u[1] and r.random() < .15 else g(u[1]))
    if t in "to":
        x = r.random()
        if t == "t" and x < .3:
            return "cat %s %s" % (g("t"), g("t"))
        if t == "t" and x < .55:
            return "fn:%d:1 %s" % (r.choice([11010, 11011, 11060, 11061]), g("t"))
        if x < .8:
            b = r.choice([6, 29]) + (0 if t == "t" else 2)
            n = r.randrange(2)
            return "fn:%d:%d %s %s%s" % (11000 + b + n, 3 - n, g(t), small(r, "l"), "" if n else " " + small(r, "l"))
        name = r.choice(["t:626173653634"] * 6 + ["t:426153653634", "t:6865786f", "Ntv", "t:-"])
        if t == "t":
            return "fn:11058:2 %s %s" % (g("o"), name)
        if r.random() < .6:
            import base64
            s = base64.b64encode(bytes(r.randrange(256) for _ in range(r.randrange(8)))).decode()
            if r.random() < .4 and s:
                i = r.randrange(len(s))
                s = s[:i] + r.choice(["", "=", "A", "-", "\n", "+", "/", " "]) + s[i + r.randrange(2):]
            return "fn:11059:2 t:%s %s" % (s.encode().hex() or "-", name)
        return "fn:11059:2 fn:11058:2 %s t:626173653634 %s" % (g("o"), name)
    if t == "D":
        return "fn:11002:0"
    if t == "T":
        return "fn:11003:0"
    return "fn:11005:0"


def programs(r, n):
    out = []
    for i in range(n):
        L = ["RESET"]
        if r.random() < .9:
            L.append("cfg %d %s" % (r.choice([0, 540, -300, 1, -1, 840, -720]), r.choice(["N"] + [str(r.choice([0, 1, -1, 86400 * 10**9, 1700000000123456789, -1, r.randrange(-10**18, 2 * 10**18)])) for _ in range(6)])))
        for _ in range(25):
            t = r.choice("iiillfdddnnnnbbbbbbttttooDTP")
            L.append("eval " + ("fn:11004:0" if r.random() < .02 else expr(r, t, r.choice([1, 1, 1, 2, 2, 3]))))
        out.append(L)
    return out


def check(chk):
    T = chk.thorough
    chk.model(lambda: model_check("ExprMC", "SPECIFICATION Spec\nCONSTANTS Wide = %s\nINVARIANTS Native Fields LikeDef Coding Logic\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if T else "FALSE"), chk.workdir), "expressions: specification laws")
    exe = chk.builder.build("expr", ["expr_h.cpp"], SRC, **KW)
    check_seq(chk, exe, programs(chk.rng, 3000 if T else 300), "ExprTrace", seqcfg("CInit", "CStep"), "scalar expressions", shards=NCPU)
