from vlib import *
from hist import *

REP = [0x00, 0x1f, 0x20, 0x41, 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff]
HX = b"0129afAFgG`@/: "
B6 = b"AZaz09+/=-_B"


def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"


def b64_ok(b):
    al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    return len(b) > 0 and len(b) % 4 == 0 and all(c in al or (c == 61 and i >= len(b) - 2 and b[-1] == 61) for i, c in enumerate(b))


def inputs(chk):
    r = chk.rng
    L = []
    add = L.append
    allb = [bytes([i]) for i in range(256)]
    for b in [b""] + allb:
        for op in ("san", "utf8", "ctl", "ltrim", "rtrim", "hex", "b64e", "isb64", "lit", "be", "sid"):
            add("%s %s" % (op, hx(b)))
        for o in range(3):
            add("enc %s %d" % (hx(b), o))
    # two bytes: representatives x all
    for x in REP:
        for y in range(256):
            add("san %s" % hx([x, y]))
            add("enc %s 0" % hx([x, y]))
    k = len(REP)
    three = [(a, b, c) for a in REP for b in REP for c in REP]
    if not chk.thorough:
        # every lead byte with every pair of representatives, a sample of the rest
        three = [t for t in three if t[0] >= 0xc0 or t[1] >= 0xe0] if False else r.sample(three, 9000)
    for t in three:
        add("san %s" % hx(t))
        add("enc %s 0" % hx(t))
    # lead bytes of 3 and 4 byte characters: all second bytes, boundary continuation bytes
    edge = [0x00, 0x7f, 0x80, 0xbf, 0xc0, 0xff]
    for a in (0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7):
        for b in range(0x70, 0xd0):
            for c in (0x80, 0xbf):
                add("san %s" % hx([a, b, c]))
                add("san %s" % hx([a, b, c, 0x80]))
                add("enc %s 0" % hx([a, b, c, 0xbf]))
            for c in edge:
                for d in edge:
                    if r.random() < (1 if chk.thorough else 0.15):
                        add("san %s" % hx([a, b, c, d]))
                        add("utf8 %s" % hx([a, b, c, d]))
    # truncated characters at every offset, behind a prefix
    for pre in (b"", b"a", b"ab", b"abc", "é".encode(), "漢".encode(), b"    "):
        for ch in ("é", "漢", "😀"):
            e = ch.encode()
            for n in range(len(e) + 1):
                for suf in (b"", b"a", b"\x80", b"\xff"):
                    t = pre + e[:n] + suf
                    add("utf8 " + hx(t)); add("san " + hx(t))
                    for o in range(len(t) + 2):
                        add("enc %s %d" % (hx(t), o))
    # hexadecimal and base64
    for n in range(5):
        tot = len(HX) ** n
        for j in (range(tot) if tot < 4000 else (r.randrange(tot) for _ in range(4000))):
            b = []
            for _ in range(n):
                b.append(HX[j % len(HX)]); j //= len(HX)
            add("hex " + hx(b))
    for x in range(256):
        add("hex " + hx([x, 0x30])); add("hex " + hx([0x30, x])); add("hex " + hx([0x30, 0x41, x, 0x46]))
        for p in range(4):
            b = bytearray(b"AAAA"); b[p] = x
            add("isb64 " + hx(b)); add("isb64 " + hx(b"Zm9v" + b)); add("isb64 " + hx(b + b"Zm9v"))
            for t in (bytes(b), b"Zm9v" + bytes(b)):
                if b64_ok(t):
                    add("b64d " + hx(t))
    for n in (4, 8):
        for _ in range(6000 if chk.thorough else 1500):
            b = bytes(r.choice(B6) for _ in range(n - 2)) + bytes(r.choice(b"AQg=w") for _ in range(2))
            add("isb64 " + hx(b))
            if b64_ok(b):
                add("b64d " + hx(b))
    for n in (1, 2, 3, 5, 6, 7, 9):
        add("isb64 " + hx(b"A" * n))
    for x in range(256):
        for p in range(3):
            b = bytearray([0x5a, 0xa5, 0x3c]); b[p] = x
            add("b64e " + hx(b)); add("b64e " + hx(b[:p + 1]))
    # trimming, prefixes, control characters, identifiers
    for _ in range(3000 if chk.thorough else 700):
        b = bytes(r.choice(b"    ab\t\x00\xff\x1f!") for _ in range(r.randrange(9)))
        for op in ("ltrim", "rtrim", "ctl", "lit"):
            add("%s %s" % (op, hx(b)))
        p = r.choice([b[:r.randrange(len(b) + 1)], b + b"a", bytes(r.choice(b" ab") for _ in range(r.randrange(4)))])
        add("pre %s - %s" % (hx(b), hx(p)) if False else "pre %s %s" % (hx(b), hx(p)))
        add("bin %s %d" % (hx(b), r.randrange(2)))
    for _ in range(300):
        n = r.choice([8, 8, 8, 7, 9, 0])
        b = bytes(r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)]) for _ in range(n))
        add("be " + hx(b)); add("sid " + hx(b))
    # long random texts
    pool = ["a", " ", "é", "ß", "漢", "字", "😀", "\x00", "\x7f", "\x85", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "~", "\x1f"]
    for _ in range(2500 if chk.thorough else 500):
        b = bytearray()
        for _ in range(r.randrange(1, 14)):
            b += r.choice(pool).encode() if r.random() < 0.75 else bytes([r.choice(REP)])
        if r.random() < 0.4:
            del b[r.randrange(len(b))]
        for op in ("san", "utf8", "b64e", "ctl", "lit"):
            add("%s %s" % (op, hx(b)))
        add("enc %s %d" % (hx(b), r.randrange(len(b) + 2)))
        e = base64_of(b)
        add("isb64 " + hx(e))
        if e:
            add("b64d " + hx(e))
        add("hex " + hx(bytes(b).hex().encode() if r.random() < .5 else bytes(b).hex().upper().encode()))
    return L


def base64_of(b):
    import base64
    return base64.b64encode(bytes(b))


def check(chk):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Bytes = {%s}\n MaxLen = %d\nINVARIANTS Clean Keeps Idem WidthIn WFValid RoundTrip HexRound TrimOnce\nCHECK_DEADLOCK FALSE\n")
    by = [0x1f, 0x20, 0x41, 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff]
    chk.add_model(model_check("TextMC", cfg % (", ".join(map(str, by)), 4 if chk.thorough else 3), chk.workdir), "text conversions: specification laws")
    exe = chk.builder.build("text", ["text_h.cpp"], ["utils/%s.cpp" % x for x in ("sanitize_utf8", "utf8_utils", "hex_to_octet", "base64_utils", "convert_control_characters", "string_manipulation", "string_utils", "surrogate_id_utils")])
    lines = sorted(set(inputs(chk)))
    chk.rng.shuffle(lines)
    n = 200
    progs = [["RESET"] + lines[i:i + n] for i in range(0, len(lines), n)]
    check_seq(chk, exe, progs, "TextTrace", seqcfg("TInit", "TStep"), "text conversions", shards=NCPU)
    chk.assumptions += ["the specification answers each call by itself (the functions have no state)", "decode_base64 is called on text that is_base64 accepts"]
