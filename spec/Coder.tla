-------------------------------- MODULE Coder --------------------------------
(* The bytes of keys and values in the key-value store.

   A field is [t, o, n, p, s, var]: type letter, order ("a" ascending key, "d" descending key, "v" value), nullable,
   precision or length (-1: none), scale, varying.  Values are sequences of integers: <<>> is NULL; an integer is
   <<1, sign>> and the bytes of its magnitude (sign 1: negative); a floating point number <<1>> and the bytes of its IEEE
   form; a string <<1>> and its bytes; a decimal <<1, sign, exponent>> and its decimal digits; a time point
   <<1, sign>>, the four bytes of the nanoseconds and the magnitude of the seconds.  Bytes come highest first. *)
EXTENDS Integers, Sequences, FiniteSets
KeyMax == 30716
ValueMax == 2097132
Max2(a, b) == IF a > b THEN a ELSE b
Comp(b) == [i \in 1..Len(b) |-> 255 - b[i]]
Rep(x, n) == [i \in 1..n |-> x]
Cut(s, i) == SubSeq(s, i, Len(s))
PadLeft(b, w) == Rep(0, w - Len(b)) \o b
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 0 THEN Strip(Tail(s)) ELSE s

\* ---- arithmetic on bytes
RECURSIVE Sub(_, _)              \* a - b, of the same length, a >= b
Sub(a, b) == IF a = <<>> THEN <<>>
  ELSE LET n == Len(a)
           RECURSIVE S(_, _, _)
           S(i, borrow, acc) == IF i = 0 THEN acc
             ELSE LET d == a[i] - b[i] - borrow IN S(i - 1, IF d < 0 THEN 1 ELSE 0, <<IF d < 0 THEN d + 256 ELSE d>> \o acc)
       IN S(n, 0, <<>>)
Half(w) == <<128>> \o Rep(0, w - 1)
\* v + 2^(8w-1) as w bytes
Offset(sign, mag, w) == LET m == PadLeft(mag, w) IN IF sign = 0 THEN [m EXCEPT ![1] = @ + 128] ELSE Sub(Half(w), m)
\* its inverse: <<sign, magnitude>>
Unoffset(b) == IF b[1] >= 128 THEN <<0>> \o Strip([b EXCEPT ![1] = @ - 128]) ELSE <<1>> \o Strip(Sub(Half(Len(b)), b))
\* decimal digits to bytes and back
RECURSIVE MulAdd(_, _, _, _)     \* bytes * m + c, i: position, lowest first
MulAdd(b, i, m, c) == IF i = 0 THEN b ELSE LET x == b[i] * m + c IN MulAdd([b EXCEPT ![i] = x % 256], i - 1, m, x \div 256)
RECURSIVE Bytes(_, _, _)
Bytes(d, i, acc) == IF i > Len(d) THEN acc ELSE Bytes(d, i + 1, MulAdd(acc, Len(acc), 10, d[i]))
RECURSIVE DivMod(_, _, _, _)     \* bytes / 10: <<quotient, remainder>>
DivMod(b, i, r, q) == IF i > Len(b) THEN <<q, r>> ELSE LET x == r * 256 + b[i] IN DivMod(b, i + 1, x % 10, Append(q, x \div 10))
RECURSIVE Digits(_, _)
Digits(b, acc) == LET s == Strip(b) IN IF s = <<>> THEN acc ELSE LET qr == DivMod(s, 1, 0, <<>>) IN Digits(qr[1], <<qr[2]>> \o acc)

\* ---- decimals: the value times 10^scale must be an integer of at most `precision` digits
Width(p) == CHOOSE w \in 1..17 : ((8 * w - 1) * 30103) \div 100000 >= p /\ \A u \in 1..(w - 1) : ((8 * u - 1) * 30103) \div 100000 < p
DZero(v) == Len(v) = 3
Unscaled(v, s) ==                \* digits of |v| * 10^s
  LET d == Cut(v, 4)  k == v[3] + s
  IN IF k >= 0 THEN d \o Rep(0, IF d = <<>> THEN 0 ELSE k) ELSE SubSeq(d, 1, Max2(0, Len(d) + k))
Exact(v, s) == LET d == Cut(v, 4)  k == v[3] + s IN k >= 0 \/ \A i \in Max2(1, Len(d) + k + 1)..Len(d) : d[i] = 0

\* ---- fields
IntW(t) == CASE t = "b" -> 1 [] t = "1" -> 1 [] t = "2" -> 2 [] t = "4" -> 4 [] t \in {"8", "d", "y"} -> 8 [] OTHER -> 0
Limit(f) == IF f.p >= 0 THEN f.p ELSE IF ~f.var THEN 1 ELSE IF f.o = "v" THEN ValueMax ELSE KeyMax
FloatW(t) == IF t = "g" THEN 4 ELSE 8
\* NaNs are one value, the two zeros as well
FNaN(b) == IF Len(b) = 4 THEN b[1] % 128 = 127 /\ b[2] >= 128 /\ (b[2] > 128 \/ b[3] > 0 \/ b[4] > 0)
           ELSE b[1] % 128 = 127 /\ b[2] >= 240 /\ (b[2] > 240 \/ \E i \in 3..8 : b[i] > 0)
Normal(b) == IF FNaN(b) THEN (IF Len(b) = 4 THEN <<127, 192, 0, 0>> ELSE <<127, 248, 0, 0, 0, 0, 0, 0>>)
             ELSE IF b = <<128>> \o Rep(0, Len(b) - 1) THEN Rep(0, Len(b)) ELSE b
FEnc(b) == LET x == Normal(b) IN IF x[1] < 128 THEN [x EXCEPT ![1] = @ + 128] ELSE Comp(x)
FDec(b) == IF b[1] >= 128 THEN [b EXCEPT ![1] = @ - 128] ELSE Comp(b)
Pad(f, s, w) == IF w /\ ~f.var /\ Len(s) < Limit(f) THEN s \o Rep(IF f.t = "s" THEN 32 ELSE 0, Limit(f) - Len(s)) ELSE s
LenBytes(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Ok(b) == [r |-> "ok", b |-> b]
No(r) == [r |-> r, b |-> <<>>]
Turn(f, b) == IF f.o = "a" THEN b ELSE Comp(b)
Flip(b) == [b EXCEPT ![1] = (@ + 128) % 256]
\* encoding of a non-null value, ascending; w: for writing
Body(f, v, w) ==
  CASE f.t \in {"b", "1", "2", "4", "8", "d", "y"} -> Ok(Offset(v[2], Cut(v, 3), IntW(f.t)))
    [] f.t \in {"f", "g"} -> Ok(FEnc(Tail(v)))
    [] f.t = "p" -> Ok(Offset(v[2], Cut(v, 7), 8) \o Flip(SubSeq(v, 3, 6)))
    [] f.t \in {"B", "C"} -> Ok(PadLeft(Cut(v, 3), 8))
    [] f.t = "n" -> IF ~Exact(v, f.s) \/ Len(Strip(Unscaled(v, f.s))) > f.p THEN No("expr")
                    ELSE Ok(Offset(v[2], Strip(Bytes(Unscaled(v, f.s), 1, Rep(0, 17))), Width(f.p)))
    [] f.t = "s" -> IF w /\ Len(v) - 1 > Limit(f) THEN No("storage")
                    ELSE IF \E i \in 2..Len(v) : v[i] = 0 THEN No("invalid")
                    ELSE Ok(Pad(f, Tail(v), w) \o <<0, 0, 0, 0>>)
    [] f.t = "o" -> IF w /\ Len(v) - 1 > Limit(f) THEN No("storage")
                    ELSE Ok((IF f.var THEN LenBytes(Len(v) - 1) ELSE <<>>) \o Pad(f, Tail(v), w))
Enc1(f, v, w) ==
  IF v = <<>> THEN Ok(Turn(f, <<128>>))        \* NULL comes before every value
  ELSE LET e == Body(f, v, w) IN IF e.r # "ok" THEN e ELSE Ok((IF f.n THEN Turn(f, <<129>>) ELSE <<>>) \o Turn(f, e.b))
RECURSIVE Enc(_, _, _)
Enc(fs, vs, w) == IF fs = <<>> THEN Ok(<<>>)
  ELSE LET e == Enc1(Head(fs), Head(vs), w) IN
       IF e.r # "ok" THEN e
       ELSE LET r == Enc(Tail(fs), Tail(vs), w) IN IF r.r # "ok" THEN r ELSE Ok(e.b \o r.b)

\* ---- decoding: [r, v, n]; n bytes were used
Got(v, n) == [r |-> "ok", v |-> v, n |-> n]
Bad == [r |-> "corrupt", v |-> <<>>, n |-> 0]
RECURSIVE FindTerm(_, _)         \* where the terminator starts, or 0
FindTerm(b, i) == IF i + 3 > Len(b) THEN 0 ELSE IF b[i] = 0 /\ b[i + 1] = 0 /\ b[i + 2] = 0 /\ b[i + 3] = 0 THEN i ELSE FindTerm(b, i + 1)
Number(b) == LET u == Unoffset(b) IN <<1, IF Len(u) = 1 THEN 0 ELSE u[1]>> \o Tail(u)
DecBody(f, b) ==                 \* b: already turned to ascending
  CASE f.t \in {"b", "1", "2", "4", "8", "d", "y"} -> LET w == IntW(f.t) IN IF Len(b) < w THEN Bad ELSE Got(Number(SubSeq(b, 1, w)), w)
    [] f.t \in {"f", "g"} -> LET w == FloatW(f.t) IN IF Len(b) < w THEN Bad ELSE Got(<<1>> \o FDec(SubSeq(b, 1, w)), w)
    [] f.t = "p" -> IF Len(b) < 12 THEN Bad
                    ELSE LET s == Number(SubSeq(b, 1, 8)) IN Got(<<1, s[2]>> \o Flip(SubSeq(b, 9, 12)) \o Cut(s, 3), 12)
    [] f.t \in {"B", "C"} -> IF Len(b) < 8 THEN Bad ELSE Got(<<1, 0>> \o Strip(SubSeq(b, 1, 8)), 8)
    [] f.t = "n" -> LET w == Width(f.p) IN IF Len(b) < w THEN Bad
                    ELSE LET u == Unoffset(SubSeq(b, 1, w)) IN Got(<<1, IF Len(u) = 1 THEN 0 ELSE u[1], -f.s>> \o Digits(Tail(u), <<>>), w)
    [] f.t = "s" -> LET i == FindTerm(b, 1) IN IF i = 0 THEN Bad ELSE Got(<<1>> \o SubSeq(b, 1, i - 1), i + 3)
    [] f.t = "o" -> IF ~f.var THEN (IF Len(b) < f.p THEN Bad ELSE Got(<<1>> \o SubSeq(b, 1, f.p), f.p))
                    ELSE IF Len(b) < 4 \/ b[1] > 0 THEN Bad
                    ELSE LET n == b[2] * 65536 + b[3] * 256 + b[4] IN IF Len(b) < n + 4 THEN Bad ELSE Got(<<1>> \o SubSeq(b, 5, n + 4), n + 4)
Dec1(f, b) ==
  IF ~f.n THEN DecBody(f, Turn(f, b))
  ELSE IF b = <<>> THEN Bad
  ELSE LET g == Turn(f, b)[1] IN
       IF g \notin {128, 129} THEN Bad
       ELSE IF g = 128 THEN Got(<<>>, 1)
       ELSE LET d == DecBody(f, Turn(f, Tail(b))) IN IF d.r # "ok" THEN d ELSE Got(d.v, d.n + 1)
RECURSIVE Dec(_, _)
Dec(fs, b) == IF fs = <<>> THEN Got(<<>>, 0)
  ELSE LET d == Dec1(Head(fs), b) IN
       IF d.r # "ok" THEN d
       ELSE LET r == Dec(Tail(fs), Cut(b, d.n + 1)) IN IF r.r # "ok" THEN r ELSE Got(<<d.v>> \o r.v, d.n + r.n)

\* ---- the order of SQL values
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = b THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
  ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Lex(Tail(a), Tail(b))
CmpMag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE Lex(a, b)
CmpSigned(sa, a, sb, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF sa # sb THEN (IF sa = 1 THEN -1 ELSE 1) ELSE IF sa = 1 THEN CmpMag(b, a) ELSE CmpMag(a, b)
Value(f, v) == IF f.t \in {"s", "o"} THEN Pad(f, Tail(v), TRUE) ELSE v
Cmp1(f, a, b) ==
  CASE f.t \in {"b", "1", "2", "4", "8", "d", "y", "B", "C"} -> CmpSigned(a[2], Cut(a, 3), b[2], Cut(b, 3))
    [] f.t = "p" -> LET c == CmpSigned(a[2], Cut(a, 7), b[2], Cut(b, 7)) IN IF c # 0 THEN c ELSE Lex(SubSeq(a, 3, 6), SubSeq(b, 3, 6))
    [] f.t \in {"f", "g"} -> LET x == Normal(Tail(a))  y == Normal(Tail(b))
                                 sx == IF x[1] >= 128 THEN 1 ELSE 0  sy == IF y[1] >= 128 THEN 1 ELSE 0
                             IN IF sx # sy THEN (IF sx = 1 THEN -1 ELSE 1) ELSE IF sx = 1 THEN Lex(y, x) ELSE Lex(x, y)
    [] f.t = "n" -> LET m == Max2(Max2(-a[3], -b[3]), 0) IN CmpSigned(a[2], Strip(Unscaled(a, m)), b[2], Strip(Unscaled(b, m)))
    [] f.t \in {"s", "o"} -> Lex(Value(f, a), Value(f, b))
CmpF(f, a, b) == LET c == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1 ELSE Cmp1(f, a, b) IN IF f.o = "a" THEN c ELSE -c
RECURSIVE Cmp(_, _, _)
Cmp(fs, a, b) == IF fs = <<>> THEN 0 ELSE LET c == CmpF(Head(fs), Head(a), Head(b)) IN IF c # 0 THEN c ELSE Cmp(Tail(fs), Tail(a), Tail(b))
\* what is read back: padded, normalised, rescaled
Stored(f, v) == IF v = <<>> THEN v
  ELSE CASE f.t \in {"s", "o"} -> <<1>> \o Value(f, v)
         [] f.t \in {"f", "g"} -> <<1>> \o Normal(Tail(v))
         [] f.t = "n" -> LET d == Strip(Unscaled(v, f.s)) IN <<1, IF d = <<>> THEN 0 ELSE v[2], -f.s>> \o d
         [] OTHER -> v

\* ---- recorded histories
CInit(a) == {}
\* bytes that are no time of a day may be read as any value
NoTime(f, v) == f.t = "y" /\ v # <<>> /\ (v[2] = 1 \/ CmpMag(Cut(v, 3), <<78, 148, 145, 79, 0, 0>>) >= 0)
SameV(fs, v, d) == Len(v) = Len(d) /\ \A i \in 1..Len(d) : v[i] = d[i] \/ (v[i] # <<>> /\ NoTime(fs[i], d[i]))
Fits(e, cap) == Len(e.b) <= cap
CStep(st, o, v) ==
  CASE o.op = "dirty" -> {st}
    [] o.op = "enc" ->             \* route, write, capacity, ignore overflow, fields, values
         LET e == Enc(o.a[5], o.a[6], o.a[2] = 1) IN
         IF e.r = "ok" /\ Fits(e, o.a[3]) THEN {x \in {st} : v.r = "ok" /\ v.n = Len(e.b) /\ v.b = e.b}
         ELSE IF e.r = "ok" /\ o.a[4] = 1 THEN {x \in {st} : v.r = "ok" /\ v.n = Len(e.b)}
         ELSE IF e.r = "ok" THEN {x \in {st} : v.r = "overflow"}
         ELSE {x \in {st} : v.r = e.r \/ (o.a[4] = 0 /\ v.r = "overflow")}
    [] o.op = "ea" ->              \* capacity, write, field, values
         LET e == Enc([i \in 1..Len(o.a[4]) |-> o.a[3][1]], o.a[4], o.a[2] = 1) IN
         IF ~o.a[3][1].n /\ \E i \in 1..Len(o.a[4]) : o.a[4][i] = <<>> THEN {x \in {st} : v.r # "ok"}
         ELSE {x \in {st} : v.r = e.r /\ (e.r = "ok" => v.b = e.b)}
    [] o.op = "dec" ->             \* route, fields, bytes
         LET d == Dec(o.a[2], o.a[3]) IN {x \in {st} : v.r = d.r /\ (d.r = "ok" => v.n = d.n /\ SameV(o.a[2], v.v, d.v) /\ v.b = Cut(o.a[3], d.n + 1))}
    [] o.op = "con" ->
         LET d == Dec(o.a[2], o.a[3]) IN {x \in {st} : v.r = d.r /\ (d.r = "ok" => v.n = d.n /\ v.b = Cut(o.a[3], d.n + 1))}
=============================================================================
