-------------------------------- MODULE Wire --------------------------------
(* The wire format of result sets and parameters: every entry is a header byte, possibly followed by
   numbers in base-128 variant form, fixed-width big-endian numbers and raw bytes.
   Values are held as big-endian byte sequences because TLC integers have 32 bits:
     int, date, time of day, size   8 bytes (two's complement)
     decimal                        <<sign+1>>, 16 bytes of magnitude, 8 bytes of exponent
     bit string                     sequence of 0/1
   Enc(kind, v) is the only encoding of v; Dec(kind, b) answers [n |-> consumed bytes, v |-> value], or NoV when
   the bytes do not start with a valid entry of that kind. *)
EXTENDS Integers, Sequences, FiniteSets

NoV == [n |-> 0, v |-> <<999>>]
Pow2 == [i \in 0..8 |-> 2 ^ i]
\* least significant bit first
Bits(b) == [i \in 1..8 * Len(b) |-> (b[Len(b) - ((i - 1) \div 8)] \div Pow2[(i - 1) % 8]) % 2]
ByteOf(f, i, k) == LET B(j) == IF j <= k THEN f[i + j - 1] * Pow2[j - 1] ELSE 0 IN B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7) + B(8)
Bytes(f) == LET n == Len(f) \div 8 IN [i \in 1..n |-> ByteOf(f, 8 * (n - i) + 1, 8)]
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]
U64(x) == Zeros(4) \o <<(x \div 16777216) % 256, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>   \* small naturals
Ext(b) == IF b[1] >= 128 THEN Ones(8 - Len(b)) \o b ELSE Zeros(8 - Len(b)) \o b
Neg(b) == b[1] >= 128
Top(f) == LET RECURSIVE t(_)
              t(i) == IF i = 0 THEN 0 ELSE IF f[i] = 1 THEN i ELSE t(i - 1)
          IN t(Len(f))
Rep(n, s) == [i \in 1..n |-> s]
Min2(a, b) == IF a < b THEN a ELSE b

\* ---- base-128 variant: groups of seven bits, lowest first, top bit = more follow; the ninth group has eight bits
GroupCount(t) == IF t > 56 THEN 9 ELSE IF t = 0 THEN 1 ELSE ((t - 1) \div 7) + 1
UEnc(b) == LET f == Bits(b)
               k == GroupCount(Top(f))
           IN [i \in 1..k |-> IF i = 9 THEN ByteOf(f, 57, 8) ELSE ByteOf(f, 7 * (i - 1) + 1, 7) + (IF i < k THEN 128 ELSE 0)]
\* a number is in shortest form: no trailing zero group
UDec(b, p) ==
  LET RECURSIVE fin(_)
      fin(i) == IF p + i - 1 > Len(b) THEN 0 ELSE IF i = 9 \/ b[p + i - 1] < 128 THEN i ELSE fin(i + 1)
      k == fin(1)
      G(i) == b[p + i - 1]
      bit(j) == LET g == IF j > 56 THEN 9 ELSE ((j - 1) \div 7) + 1
                    o == IF j > 56 THEN j - 57 ELSE (j - 1) % 7
                IN IF g > k THEN 0 ELSE (G(g) \div Pow2[o]) % 2
  IN IF k = 0 \/ (k > 1 /\ G(k) = 0) THEN NoV ELSE [n |-> k, v |-> Bytes([j \in 1..64 |-> bit(j)])]
\* signed numbers: sign in the lowest bit, magnitude (or its complement) above
Zig(b) == LET f == Bits(b)
              s == f[64]
          IN Bytes([i \in 1..64 |-> IF i = 1 THEN s ELSE IF s = 1 THEN 1 - f[i - 1] ELSE f[i - 1]])
Zag(b) == LET f == Bits(b)
              s == f[1]
          IN Bytes([i \in 1..64 |-> IF i = 64 THEN s ELSE IF s = 1 THEN 1 - f[i + 1] ELSE f[i + 1]])
SEnc(b) == UEnc(Zig(b))
SDec(b, p) == LET r == UDec(b, p) IN IF r.n = 0 THEN NoV ELSE [r EXCEPT !.v = Zag(r.v)]
IsI32(b) == \/ SubSeq(b, 1, 4) = Zeros(4) /\ b[5] < 128
            \/ SubSeq(b, 1, 4) = Ones(4) /\ b[5] >= 128
S32Dec(b, p) == LET r == SDec(b, p) IN IF r.n = 0 \/ ~IsI32(r.v) THEN NoV ELSE r
\* sizes are below 2^31 (limit 2^31 exclusive)
IsSize(b) == SubSeq(b, 1, 4) = Zeros(4) /\ b[5] < 128
SizeVal(b) == b[5] * 16777216 + b[6] * 65536 + b[7] * 256 + b[8]
SizeDec(b, p) == LET r == UDec(b, p) IN IF r.n = 0 \/ ~IsSize(r.v) THEN NoV ELSE r
Fixed(b, p, n) == IF p + n - 1 > Len(b) THEN NoV ELSE [n |-> n, v |-> SubSeq(b, p, p + n - 1)]

\* ---- entries
IntSmall(v) == SubSeq(v, 1, 7) = Zeros(7) /\ v[8] < 64
IntNegSmall(v) == SubSeq(v, 1, 7) = Ones(7) /\ v[8] >= 240
EncInt(v) == IF IntSmall(v) THEN <<v[8]>> ELSE IF IntNegSmall(v) THEN <<192 + v[8] - 240>> ELSE <<233>> \o SEnc(v)
Inc(b) == LET RECURSIVE f(_, _)
              f(x, i) == IF i = 0 THEN x ELSE IF x[i] = 255 THEN f([x EXCEPT ![i] = 0], i - 1) ELSE [x EXCEPT ![i] = @ + 1]
          IN f(b, Len(b))
Negate(b) == Inc([i \in 1..Len(b) |-> 255 - b[i]])
\* two's complement of sign * magnitude in 17 bytes, and in the fewest bytes
TwosC(s, m) == IF s = 0 THEN Negate(<<0>> \o m) ELSE <<0>> \o m
RECURSIVE Shorten(_)
Shorten(b) == IF Len(b) > 1 /\ ((b[1] = 0 /\ b[2] < 128) \/ (b[1] = 255 /\ b[2] >= 128)) THEN Shorten(Tail(b)) ELSE b
EncDec(v) ==
  LET s == v[1]
      m == SubSeq(v, 2, 17)
      e == SubSeq(v, 18, 25)
      c == Shorten(TwosC(s, m))
  IN IF Len(c) <= 8
     THEN IF e = Zeros(8) THEN EncInt(Ext(c)) ELSE <<236>> \o SEnc(e) \o SEnc(Ext(c))
     ELSE <<237>> \o SEnc(e) \o UEnc(U64(Len(c))) \o c
DecOf(e, c) == \* exponent, two's complement coefficient
  LET x == IF Neg(c) THEN Ones(17 - Len(c)) \o c ELSE Zeros(17 - Len(c)) \o c
      a == IF Neg(c) THEN Negate(x) ELSE x
      m == SubSeq(a, 2, 17)
  IN <<IF m = Zeros(16) THEN 1 ELSE IF Neg(c) THEN 0 ELSE 2>> \o m \o e
Sized(base, maxn, long, n) == IF n >= 1 /\ n <= maxn THEN <<base + n - 1>> ELSE <<long>> \o UEnc(U64(n))
PackBits(v) == [i \in 1..((Len(v) + 7) \div 8) |-> ByteOf(v, 8 * (i - 1) + 1, Min2(8, Len(v) - 8 * (i - 1)))]
SubV(v, i) == SubSeq(v, 8 * i - 7, 8 * i)

Enc(k, v) ==
  CASE k = "end" -> <<254>>
    [] k = "null" -> <<232>>
    [] k = "int" -> EncInt(v)
    [] k = "f4" -> <<234>> \o v
    [] k = "f8" -> <<235>> \o v
    [] k = "dec" -> EncDec(v)
    [] k = "char" -> Sized(64, 64, 240, Len(v)) \o v
    [] k = "oct" -> Sized(208, 16, 241, Len(v)) \o v
    [] k = "bit" -> Sized(224, 8, 242, Len(v)) \o PackBits(v)
    [] k = "date" -> <<243>> \o SEnc(v)
    [] k = "tod" -> <<244>> \o UEnc(v)
    [] k = "todz" -> <<238>> \o UEnc(SubV(v, 1)) \o SEnc(SubV(v, 2))
    [] k = "tp" -> <<245>> \o SEnc(SubV(v, 1)) \o UEnc(SubV(v, 2))
    [] k = "tpz" -> <<239>> \o SEnc(SubV(v, 1)) \o UEnc(SubV(v, 2)) \o SEnc(SubV(v, 3))
    [] k = "ival" -> <<246>> \o SEnc(SubV(v, 1)) \o SEnc(SubV(v, 2)) \o SEnc(SubV(v, 3)) \o SEnc(SubV(v, 4))
    [] k = "row" -> Sized(128, 32, 248, SizeVal(v))
    [] k = "array" -> Sized(160, 32, 249, SizeVal(v))
    [] k = "clob" -> <<250>> \o v
    [] k = "blob" -> <<251>> \o v

\* what kind of entry starts with byte h
KindOf(h) ==
  CASE h < 64 -> "int" [] h < 128 -> "char" [] h < 160 -> "row" [] h < 192 -> "array" [] h < 208 -> "int" [] h < 224 -> "oct" [] h < 232 -> "bit"
    [] h = 232 -> "null" [] h = 233 -> "int" [] h = 234 -> "f4" [] h = 235 -> "f8" [] h = 236 -> "dec" [] h = 237 -> "dec"
    [] h = 238 -> "todz" [] h = 239 -> "tpz" [] h = 240 -> "char" [] h = 241 -> "oct" [] h = 242 -> "bit" [] h = 243 -> "date"
    [] h = 244 -> "tod" [] h = 245 -> "tp" [] h = 246 -> "ival" [] h = 248 -> "row" [] h = 249 -> "array" [] h = 250 -> "clob" [] h = 251 -> "blob"
    [] h = 254 -> "end" [] OTHER -> "bad"
Peek(b) == IF b = <<>> THEN "bad" ELSE KindOf(b[1])

\* consecutive fields: ds is a sequence of decoders "s" signed, "u" unsigned, "i" signed 32 bit
RECURSIVE Fields(_, _, _)
Fields(b, p, ds) ==
  IF ds = <<>> THEN [n |-> p - 1, v |-> <<>>]
  ELSE LET r == CASE ds[1] = "s" -> SDec(b, p) [] ds[1] = "u" -> UDec(b, p) [] ds[1] = "i" -> S32Dec(b, p)
       IN IF r.n = 0 THEN NoV
          ELSE LET q == Fields(b, p + r.n, Tail(ds)) IN IF q.n = 0 THEN NoV ELSE [q EXCEPT !.v = r.v \o q.v]
DecSized(b, base, maxn, unit(_)) ==
  LET sh == b[1] >= base /\ b[1] < base + maxn
      r == IF sh THEN [n |-> 1, v |-> U64(b[1] - base + 1)] ELSE LET q == SizeDec(b, 2) IN IF q.n = 0 THEN NoV ELSE [q EXCEPT !.n = @ + 1]
  IN IF r.n = 0 THEN NoV ELSE LET n == SizeVal(r.v) IN
     IF unit(n) > Len(b) - r.n THEN NoV ELSE [n |-> r.n + unit(n), v |-> SubSeq(b, r.n + 1, r.n + unit(n)), k |-> n]
SizeOnly(b, base) ==
  IF b[1] >= base /\ b[1] < base + 32 THEN [n |-> 1, v |-> U64(b[1] - base + 1)]
  ELSE LET q == SizeDec(b, 2) IN IF q.n = 0 THEN NoV ELSE [q EXCEPT !.n = @ + 1]
DecInt(b) == IF b[1] < 64 THEN [n |-> 1, v |-> U64(b[1])]
             ELSE IF b[1] < 208 THEN [n |-> 1, v |-> Ones(7) \o <<240 + b[1] - 192>>]
             ELSE Fields(b, 2, <<"s">>)
DecDec(b) ==
  IF KindOf(b[1]) = "int" THEN LET r == DecInt(b) IN IF r.n = 0 THEN NoV ELSE [n |-> r.n, v |-> DecOf(Zeros(8), r.v)]
  ELSE IF b[1] = 236 THEN LET r == Fields(b, 2, <<"i", "s">>) IN IF r.n = 0 THEN NoV ELSE [n |-> r.n, v |-> DecOf(SubV(r.v, 1), SubV(r.v, 2))]
  ELSE LET r == Fields(b, 2, <<"i", "u">>) IN
       IF r.n = 0 THEN NoV
       ELSE LET n == SizeVal(SubV(r.v, 2))
                ok == IsSize(SubV(r.v, 2)) /\ n >= 1 /\ n <= 17 /\ n <= Len(b) - r.n
                c == SubSeq(b, r.n + 1, r.n + n)
            IN IF ~ok \/ (n = 17 /\ c[1] # 0 /\ ~(c[1] = 255 /\ \E i \in 2..17 : c[i] # 0)) THEN NoV
               ELSE [n |-> r.n + n, v |-> DecOf(SubV(r.v, 1), c)]
One(n) == n
Oct8(n) == (n \div 8) + (IF n % 8 = 0 THEN 0 ELSE 1)
Dec(k, b) ==
  IF b = <<>> \/ ~(KindOf(b[1]) = k \/ (k = "dec" /\ KindOf(b[1]) = "int")) THEN NoV
  ELSE CASE k = "end" -> [n |-> 1, v |-> <<>>]
    [] k = "null" -> [n |-> 1, v |-> <<>>]
    [] k = "int" -> DecInt(b)
    [] k = "f4" -> LET r == Fixed(b, 2, 4) IN IF r.n = 0 THEN NoV ELSE [r EXCEPT !.n = 5]
    [] k = "f8" -> LET r == Fixed(b, 2, 8) IN IF r.n = 0 THEN NoV ELSE [r EXCEPT !.n = 9]
    [] k = "dec" -> DecDec(b)
    [] k = "char" -> LET r == DecSized(b, 64, 64, One) IN [n |-> r.n, v |-> r.v]
    [] k = "oct" -> LET r == DecSized(b, 208, 16, One) IN [n |-> r.n, v |-> r.v]
    [] k = "bit" -> LET r == DecSized(b, 224, 8, Oct8) IN
                    IF r.n = 0 THEN NoV ELSE [n |-> r.n, v |-> [i \in 1..r.k |-> (r.v[((i - 1) \div 8) + 1] \div Pow2[(i - 1) % 8]) % 2]]
    [] k = "date" -> Fields(b, 2, <<"s">>)
    [] k = "tod" -> Fields(b, 2, <<"u">>)
    [] k = "todz" -> Fields(b, 2, <<"u", "i">>)
    [] k = "tp" -> Fields(b, 2, <<"s", "u">>)
    [] k = "tpz" -> Fields(b, 2, <<"s", "u", "i">>)
    [] k = "ival" -> Fields(b, 2, <<"i", "i", "i", "s">>)
    [] k = "row" -> SizeOnly(b, 128)
    [] k = "array" -> SizeOnly(b, 160)
    [] k = "clob" -> LET r == Fixed(b, 2, 24) IN IF r.n = 0 THEN NoV ELSE [r EXCEPT !.n = 25]
    [] k = "blob" -> LET r == Fixed(b, 2, 24) IN IF r.n = 0 THEN NoV ELSE [r EXCEPT !.n = 25]

\* ---- the operations of the implementation
\* w kind value room -> bytes written, or <<999>> when the room does not suffice (and nothing was changed)
\* a writer into a stream (room -1) always succeeds
WInit(a) == 0
WStep(st, o, v) ==
  LET ok == CASE o.op = "w" -> LET e == Enc(o.a[1], o.a[2]) IN v = IF o.a[3] >= 0 /\ Len(e) > o.a[3] THEN <<999>> ELSE e
              [] o.op = "r" -> LET d == Dec(o.a[1], o.a[2]) IN v = <<d.n>> \o d.v
              [] o.op = "peek" -> v = Peek(o.a[1])
              [] o.op = "uw" -> LET e == UEnc(o.a[1]) IN v = IF Len(e) > o.a[2] THEN <<999>> ELSE e
              [] o.op = "sw" -> LET e == SEnc(o.a[1]) IN v = IF Len(e) > o.a[2] THEN <<999>> ELSE e
              [] o.op = "usz" -> v = Len(UEnc(o.a[1]))
              [] o.op = "ssz" -> v = Len(SEnc(o.a[1]))
              [] o.op = "ur" -> LET d == UDec(o.a[1], 1) IN v = <<d.n>> \o d.v
              [] o.op = "sr" -> LET d == SDec(o.a[1], 1) IN v = <<d.n>> \o d.v
  IN IF ok THEN {0} ELSE {}
=============================================================================
