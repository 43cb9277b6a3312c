-------------------------------- MODULE Cast --------------------------------
(* CAST and the two conversions built on it: of a value assigned to a column (asgn) and of a parameter (papp).
   a[1] = <<target, length or precision, scale, varying, policy, with time zone, source, source varying>>, -1 where
   not given; policy 0 ignore, 1 floor, 2 ceil, 3 unknown, 4 warn, 5 error, 6 implicit (assignment); a[2] the operand.
   A conversion that changes the number or cuts text is *lossy* and its policy says what becomes of it.          *)
EXTENDS Expr

(* ------------------------------------------------------------- text of numbers *)
Dig(b) == b \in 48..57
Clip(i) == IF i > 1000000 THEN 1000000 ELSE i
ToLower(s) == [i \in 1..Len(s) |-> Low(s[i])]
Nums(s) == FoldLeft(LAMBDA x, b : Clip(x * 10 + (b - 48)), 0, s)
RECURSIVE Span(_, _)                                                \* index after the digits that start at i
Span(s, i) == IF i <= Len(s) /\ Dig(s[i]) THEN Span(s, i + 1) ELSE i
Pad3(d) == CASE Len(d) % 3 = 0 -> d [] Len(d) % 3 = 1 -> <<48, 48>> \o d [] OTHER -> <<48>> \o d
Limbs(d) == LET p == Pad3(d) k == Len(p) \div 3
            IN  [i \in 1..k |-> 100 * (p[3 * (k - i) + 1] - 48) + 10 * (p[3 * (k - i) + 2] - 48) + (p[3 * (k - i) + 3] - 48)]
Inff == <<105, 110, 102>>
Infinity == <<105, 110, 102, 105, 110, 105, 116, 121>>
NotANum == <<110, 97, 110>>
Bad == [c |-> 9, neg |-> FALSE, x |-> Zero]
(* sign, digits with at most one point, exponent; or Inf, Infinity, NaN *)
Parse(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      b   == IF s # <<>> /\ s[1] \in {43, 45} THEN 2 ELSE 1
      r   == ToLower(SubSeq(s, b, Len(s)))
      i1  == Span(s, b)
      dot == i1 <= Len(s) /\ s[i1] = 46
      i2  == IF dot THEN Span(s, i1 + 1) ELSE i1
      int == SubSeq(s, b, i1 - 1)
      frc == IF dot THEN SubSeq(s, i1 + 1, i2 - 1) ELSE <<>>
      hasE == i2 <= Len(s) /\ s[i2] \in {69, 101}
      es  == hasE /\ i2 < Len(s) /\ s[i2 + 1] \in {43, 45}
      j   == IF es THEN i2 + 2 ELSE i2 + 1
      ex  == SubSeq(s, j, Len(s))
      e   == IF ~hasE THEN 0 ELSE (IF es /\ s[i2 + 1] = 45 THEN -1 ELSE 1) * Nums(ex)
      ok  == int \o frc # <<>> /\ IF hasE THEN ex # <<>> /\ Span(s, j) = Len(s) + 1 ELSE i2 = Len(s) + 1
  IN  IF r \in {Inff, Infinity} THEN [c |-> 1, neg |-> neg, x |-> Zero]
      ELSE IF r = NotANum THEN [c |-> 2, neg |-> neg, x |-> Zero]
      ELSE IF ~ok THEN Bad
      ELSE LET m == Mk(1, 0, Limbs(int \o frc))
               p == e - Len(frc)                                   \* times ten to the p
           IN  [c |-> 0, neg |-> neg, x |-> IF m.s = 0 THEN Zero
                                            ELSE LET f == ((p % 3) + 3) % 3 y == Mul(m, Pow10(f)) IN [y EXCEPT !.s = IF neg THEN -1 ELSE 1, !.e = y.e + ((p - f) \div 3)]]
Trim(s) == LTrim(RTrim(s))
Shl(x, p) == IF x.s = 0 THEN Zero ELSE LET f == ((p % 3) + 3) % 3 y == Mul(x, Pow10(f)) IN [y EXCEPT !.e = y.e + ((p - f) \div 3)]   \* x * 10^p
TruncSig(x, n) == IF Sig(x) <= n THEN x ELSE LET k == Adj(x) - (n - 1) IN Shl(Trunc(Shl(x, -k)), k)
ThreeDigits(l) == <<48 + (l \div 100), 48 + ((l \div 10) % 10), 48 + (l % 10)>>
RECURSIVE Unlead(_)
Unlead(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Unlead(Tail(d)) ELSE d
IntText(x) == IF x.s = 0 THEN <<48>>
              ELSE (IF x.s < 0 THEN <<45>> ELSE <<>>) \o Unlead(FoldLeft(LAMBDA t, k : ThreeDigits(At(x, k)) \o t, <<>>, [k \in 1..Top(x) |-> k - 1]))

(* ------------------------------------------------------------- results *)
Unsupported == <<0, 9>>
(* the loss policy: kind is the error it is reported as *)
Lossy(pol, v, kind, P(_)) == CASE pol \in {0, 4} -> P(v)
                             [] pol \in {1, 2} -> v = Unsupported
                             [] pol = 3 -> v = Null
                             [] OTHER -> v = <<0, kind>>
Res(pol, v, lossy, kind, P(_)) == IF lossy THEN Lossy(pol, v, kind, P) ELSE P(v)

MaxInt(k) == Sub(IF k = 4 THEN P31 ELSE P63, One)
MinInt(k) == Neg(IF k = 4 THEN P31 ELSE P63)
ToIntNum(p, x, v) ==         \* a number to an integer: clamped, truncated
  LET k == p[1]
  IN  IF Cmp(x, MaxInt(k)) > 0 /\ Cmp(Trunc(x), MaxInt(k)) > 0 THEN Lossy(p[5], v, 3, LAMBDA r : Of(r, k, MaxInt(k)))
      ELSE IF Cmp(x, MinInt(k)) < 0 /\ Cmp(Trunc(x), MinInt(k)) < 0 THEN Lossy(p[5], v, 3, LAMBDA r : Of(r, k, MinInt(k)))
      ELSE Res(p[5], v, ~IsInt(x), 3, LAMBDA r : Of(r, k, Trunc(x)))
Nines(n, s) == Shl(Sub(Shl(One, n), One), -s)
ToDecNum(p, x, v) ==         \* a number to a decimal
  LET prec == IF p[2] < 0 THEN 38 ELSE p[2] IN
  IF p[2] >= 0 /\ p[3] < 0 THEN v = Unsupported
  ELSE IF p[3] < 0 THEN Of(v, 10, x)
  ELSE IF CmpMag(x, Shl(One, prec - p[3])) >= 0 THEN Lossy(p[5], v, 3, LAMBDA r : Of(r, 10, IF x.s < 0 THEN Neg(Nines(prec, p[3])) ELSE Nines(prec, p[3])))
  ELSE LET y == Shl(Trunc(Shl(x, p[3])), -p[3]) IN Res(p[5], v, Cmp(x, y) # 0, 3, LAMBDA r : Of(r, 10, y))
(* to floating point nothing counts as lost; below the smallest normal number is zero of the same sign, above the largest is infinity *)
MinNormal(k) == IF k = 14 THEN Shl(Small(117549436), -46) ELSE Shl(Small(222507386), -316)     \* a little above
LowNormal(k) == IF k = 14 THEN Shl(Small(117549434), -46) ELSE Shl(Small(222507385), -316)     \* a little below
MaxFin(k) == IF k = 14 THEN Shl(Small(340282357), 30) ELSE Shl(Small(179769314), 300)          \* a little above
MinInf(k) == IF k = 14 THEN Shl(Small(340282346), 30) ELSE Shl(Small(179769313), 300)          \* a little below
ToFloatNum(k, x, neg, v) ==
  /\ IsF(v) /\ Kind(v) = k /\ ~Nan(v) /\ (Signed(v) = 1) = neg
  /\ LET m == Abs(x)
         inf == Inf(v)
         zero == Fin(v) /\ Num(v).s = 0
     IN  IF m.s = 0 THEN zero
         ELSE /\ Cmp(m, MaxFin(k)) > 0 => inf
              /\ inf => Cmp(m, MinInf(k)) > 0
              /\ Cmp(m, LowNormal(k)) < 0 => zero
              /\ zero => Cmp(m, MinNormal(k)) < 0
              /\ (~inf /\ ~zero) => Close(Num(v), x, Prec(k))
ToFloat(k, o, v) ==          \* of the operand, a number of any kind
  IF Nan(o) THEN IsNan(v, k)
  ELSE IF Inf(o) THEN IsInf(v, k, Signed(o) = 1)
  ELSE IF Kind(o) = k THEN v = o
  ELSE ToFloatNum(k, Num(o), IF IsF(o) THEN Signed(o) = 1 ELSE Num(o).s < 0, v)

(* text and octets of a given length: padded, cut at a character; what is cut off counts as lost unless it is only padding *)
Starts(c) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + Len(x)), <<0>>, c)         \* byte offsets of the characters
CutAt(s, n, txt) == IF ~txt \/ ~Valid(Cp(s)) THEN {n}
                    ELSE LET st == Starts(Cp(s)) IN {CHOOSE k \in 0..n : k \in {st[i] : i \in 1..Len(st)} /\ \A j \in 1..Len(st) : st[j] <= n => st[j] <= k}
Fixed(tag, s, n, pad, lenient, pol, v) ==
  LET fill == IF tag = 4 THEN 32 ELSE 0
      all(t) == \A i \in 1..Len(t) : t[i] = fill
  IN  IF n < 0 \/ Len(s) = n THEN v = <<tag>> \o s
      ELSE IF Len(s) < n THEN v = <<tag>> \o s \o (IF pad THEN [i \in 1..(n - Len(s)) |-> fill] ELSE <<>>)
      ELSE IF tag = 4 /\ ~Valid(Cp(s)) THEN TRUE                     \* not text: anything goes
      ELSE \E k \in CutAt(s, n, tag = 4) :
             Res(pol, v, ~(lenient /\ all(SubSeq(s, k + 1, Len(s)))), 4,
                 LAMBDA r : r = <<tag>> \o SubSeq(s, 1, k) \/ (pad /\ r = <<tag>> \o SubSeq(s, 1, k) \o [i \in 1..(n - k) |-> fill]))
(* a number as text: any that reads as the number; when it is too long for the type, some beginning of it *)
NumChars == (48..57) \cup {43, 45, 46, 69}
Texted(p, v, P(_)) ==
  IF p[2] < 0 THEN IsTxt(v) /\ P(Bytes(v))
  ELSE \/ IsTxt(v) /\ Len(v) - 1 <= p[2] /\ (p[4] = 0 => Len(v) - 1 = p[2]) /\ P(RTrim(Bytes(v)))
       \/ /\ \A i \in 1..(IF IsTxt(v) THEN Len(v) - 1 ELSE 0) : Bytes(v)[i] \in NumChars
          /\ p[2] < 45
          /\ Lossy(p[5], v, 4, LAMBDA r : IsTxt(r) /\ Len(r) - 1 = p[2])
DecText(s, x) == LET q == Parse(s) IN q.c = 0 /\ Cmp(q.x, x) = 0 /\ (\A i \in 1..Len(s) : s[i] \in NumChars)
FloatText(s, o) == IF Nan(o) THEN s = <<78, 97, 78>>
                   ELSE IF Inf(o) THEN s = (IF Signed(o) = 1 THEN <<45>> ELSE <<>>) \o <<73, 110, 102, 105, 110, 105, 116, 121>>
                   ELSE IF Num(o).s = 0 THEN s = (IF Signed(o) = 1 THEN <<45>> ELSE <<>>) \o <<48>>
                   ELSE LET q == Parse(s) IN q.c = 0 /\ Within(q.x, Num(o), Mul(Abs(Num(o)), Shl(Small(51), -7))) /\ (\A i \in 1..Len(s) : s[i] \in NumChars)

(* hexadecimal *)
HexD(b) == IF Dig(b) THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1
HexOk(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexD(s[i]) >= 0
UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexD(s[2 * i - 1]) + HexD(s[2 * i])]
HexC(d) == IF d < 10 THEN 48 + d ELSE 87 + d
ToHex(s) == [i \in 1..(2 * Len(s)) |-> HexC(IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16)]

(* ------------------------------------------------------------- dates and times as text: YYYY-MM-DD, hh:mm:ss[.f], date (blank or T) time [Z, +hh, -hh:mm] *)
AllDig(s, i, n) == i + n - 1 <= Len(s) /\ \A k \in i..(i + n - 1) : Dig(s[k])
NumAt(s, i, n) == Nums(SubSeq(s, i, i + n - 1))
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DateAt(s) == Len(s) >= 10 /\ AllDig(s, 1, 4) /\ s[5] = 45 /\ AllDig(s, 6, 2) /\ s[8] = 45 /\ AllDig(s, 9, 2)
             /\ NumAt(s, 6, 2) \in 1..12 /\ NumAt(s, 9, 2) \in 1..MonthLen(NumAt(s, 1, 4), NumAt(s, 6, 2))
DayOf(s) == LET y == NumAt(s, 1, 4) m == NumAt(s, 6, 2) d == NumAt(s, 9, 2)
                y0 == y - 1
                leaps == (y0 \div 4) - (y0 \div 100) + (y0 \div 400)
                before == FoldLeft(LAMBDA t, k : t + MonthLen(y, k), 0, [k \in 1..(m - 1) |-> k])
            IN  365 * y0 + leaps + before + (d - 1) - 719162
(* at i: the end of the time, or 0 *)
TimeEnd(s, i) == IF ~(AllDig(s, i, 2) /\ i + 7 <= Len(s) /\ s[i + 2] = 58 /\ AllDig(s, i + 3, 2) /\ s[i + 5] = 58 /\ AllDig(s, i + 6, 2)
                      /\ NumAt(s, i, 2) < 24 /\ NumAt(s, i + 3, 2) < 60 /\ NumAt(s, i + 6, 2) < 60) THEN 0
                 ELSE IF i + 8 <= Len(s) /\ s[i + 8] = 46 THEN LET j == Span(s, i + 9) IN IF j - (i + 9) \in 1..9 THEN j ELSE 0
                 ELSE i + 8
NsAt(s, i) == LET sec == Small(3600 * NumAt(s, i, 2) + 60 * NumAt(s, i + 3, 2) + NumAt(s, i + 6, 2))
                  e == TimeEnd(s, i)
                  f == IF e > i + 8 THEN SubSeq(s, i + 9, e - 1) ELSE <<>>
              IN  Add([sec EXCEPT !.e = IF sec.s = 0 THEN 0 ELSE @ + 3], IF f = <<>> THEN Zero ELSE Shl(Mk(1, 0, Limbs(f)), 9 - Len(f)))
ZoneOk(s, i) == \/ i = Len(s) + 1
                \/ i = Len(s) /\ s[i] = 90
                \/ s[i] \in {43, 45} /\ AllDig(s, i + 1, 2) /\ NumAt(s, i + 1, 2) <= 18
                   /\ (i + 2 = Len(s) \/ (i + 5 = Len(s) /\ s[i + 3] = 58 /\ AllDig(s, i + 4, 2) /\ NumAt(s, i + 4, 2) < 60))
ZoneMin(s, i) == IF s[i] = 90 THEN 0 ELSE (IF s[i] = 45 THEN -1 ELSE 1) * (60 * NumAt(s, i + 1, 2) + (IF i + 5 = Len(s) THEN NumAt(s, i + 4, 2) ELSE 0))
Temporal(v, k, x) == Len(v) > 2 /\ v[1] = 6 /\ v[2] = k /\ Cmp(Num(v), x) = 0
Format == <<0, 5>>
ToDate(s, v) == IF DateAt(s) /\ Len(s) = 10 THEN Temporal(v, 31, Small(DayOf(s))) ELSE v = Format
ToTime(s, v) == IF s # <<>> /\ TimeEnd(s, 1) = Len(s) + 1 THEN Temporal(v, 32, NsAt(s, 1)) ELSE v = Format
Minutes(m) == Mul(Small(m), [s |-> 1, e |-> 3, n |-> <<60>>])
ToStamp(st, s, tz, v) ==
  LET e == IF DateAt(s) /\ Len(s) > 11 /\ s[11] \in {32, 84} THEN TimeEnd(s, 12) ELSE 0
      good == e > 0 /\ ZoneOk(s, e)
      zone == e <= Len(s)
      local == Add(Mul(Small(DayOf(s)), DayNs), NsAt(s, 12))
  IN  IF ~good \/ (zone /\ ~tz) THEN v = Format
      ELSE Temporal(v, 33, IF tz THEN Sub(local, Minutes(IF zone THEN ZoneMin(s, e) ELSE st.zone)) ELSE local)

(* ------------------------------------------------------------- from text to numbers *)
FromText(p, s, v, P(_, _)) ==       \* P(class and number read, answer)
  LET q == Parse(Trim(s)) x == TruncSig(q.x, 38) lost == q.c = 0 /\ Sig(q.x) > 38
      range == q.c = 0 /\ q.x.s # 0 /\ (Adj(q.x) > 24576 \/ Adj(q.x) < -24575)
      use(r) == IF range THEN r = Format ELSE P([q EXCEPT !.x = x], r)
  IN  IF q.c = 9 THEN v = Format
      ELSE IF lost THEN Lossy(p[5], v, 3, use) \/ (range /\ v = Format)
      ELSE use(v)
TextTo(st, p, s, v) ==
  CASE p[1] \in {4, 8} -> FromText(p, s, v, LAMBDA q, r : IF q.c # 0 THEN r = Format ELSE ToIntNum(p, q.x, r))
    [] p[1] = 10 -> FromText(p, s, v, LAMBDA q, r : IF q.c # 0 THEN r = Format ELSE ToDecNum(p, q.x, r))
    [] p[1] \in {14, 18} -> FromText(p, s, v, LAMBDA q, r : IF q.c = 1 THEN IsInf(r, p[1], q.neg) ELSE IF q.c = 2 THEN IsNan(r, p[1]) ELSE ToFloatNum(p[1], q.x, q.neg, r))
    [] p[1] = 20 -> Fixed(4, s, p[2], p[4] = 0, p[8] = 0, p[5], v)
    [] p[1] = 21 -> LET t == Trim(s) IN IF ~HexOk(t) THEN v = Format ELSE Fixed(5, UnHex(t), p[2], p[4] = 0, p[8] = 0, p[5], v)
    [] p[1] = 31 -> ToDate(Trim(s), v)
    [] p[1] = 32 -> ToTime(Trim(s), v)
    [] p[1] = 33 -> ToStamp(st, Trim(s), p[6] = 1, v)
    [] OTHER -> Err(v)

(* floating point to decimal goes through six digits *)
ApproxDec(p, o, v) ==
  LET x == Num(o) prec == IF p[2] < 0 THEN 38 ELSE p[2]
      t == Mul(Abs(x), Shl(Small(51), -7)) unit == Shl(One, -p[3]) lim == Shl(One, prec - p[3])
      near == Len(v) > 3 /\ Kind(v) = 10 /\ IsNum(v) /\ Within(Num(v), x, Add(t, IF p[3] < 0 THEN Zero ELSE unit)) /\ (p[3] >= 0 => CmpMag(Num(v), lim) < 0 /\ IsInt(Shl(Num(v), p[3])))
      big == x.s # 0 /\ p[3] >= 0 /\ Cmp(Add(Abs(x), t), lim) >= 0
      small == x.s # 0 /\ p[3] >= 0 /\ Cmp(Sub(Abs(x), t), lim) < 0
      nines(r) == Of(r, 10, IF x.s < 0 THEN Neg(Nines(prec, p[3])) ELSE Nines(prec, p[3]))
      exact == Cmp(Shl(Trunc(Shl(x, p[3])), -p[3]), x) = 0 /\ Sig(x) <= 6
  IN  IF p[2] >= 0 /\ p[3] < 0 THEN v = Unsupported
      ELSE IF p[3] < 0 THEN near
      ELSE \/ big /\ Lossy(p[5], v, 3, nines)
           \/ small /\ (x.s = 0 \/ exact) /\ near
           \/ (small \/ x.s = 0) /\ ~exact /\ ((near /\ (p[5] \in {0, 4} \/ Within(Num(v), x, t))) \/ (p[5] \notin {0, 4} /\ Lossy(p[5], v, 3, LAMBDA r : TRUE)))
           \/ x.s = 0 /\ near
MaxTriple(p) == Nines(38, 0)
NumTo(p, o, v) ==
  CASE p[1] \in {4, 8} ->
         IF Kind(o) = p[1] \/ (Kind(o) = 4 /\ p[1] = 8) THEN Of(v, p[1], Num(o))
         ELSE IF Nan(o) THEN v = <<0, 1>>
         ELSE IF Inf(o) THEN Lossy(p[5], v, 3, LAMBDA r : Of(r, p[1], IF Signed(o) = 1 THEN MinInt(p[1]) ELSE MaxInt(p[1])))
         ELSE ToIntNum(p, Num(o), v)
    [] p[1] = 10 ->
         IF Nan(o) THEN v = <<0, 1>>
         ELSE IF Inf(o) THEN Lossy(p[5], v, 3, LAMBDA r : Kind(r) = 10 /\ IsNum(r) /\ (Num(r).s < 0) = (Signed(o) = 1) /\ Sig(Num(r)) >= 38)
         ELSE IF IsF(o) THEN ApproxDec(p, o, v) ELSE ToDecNum(p, Num(o), v)
    [] p[1] \in {14, 18} -> ToFloat(p[1], o, v)
    [] p[1] = 20 -> IF IsF(o) THEN (IF Nan(o) \/ Inf(o) \/ Num(o).s = 0
                                    THEN LET s == IF Nan(o) THEN <<78, 97, 78>> ELSE (IF Signed(o) = 1 THEN <<45>> ELSE <<>>) \o (IF Inf(o) THEN <<73, 110, 102, 105, 110, 105, 116, 121>> ELSE <<48>>)
                                         IN  Fixed(4, s, p[2], p[4] = 0, FALSE, p[5], v)
                                    ELSE Texted(p, v, LAMBDA s : FloatText(s, o)))
                    ELSE IF Kind(o) = 10 THEN Texted(p, v, LAMBDA s : DecText(s, Num(o)))
                    ELSE Fixed(4, IntText(Num(o)), p[2], p[4] = 0, FALSE, p[5], v)
    [] OTHER -> Err(v)

Pair(p) == IF p[1] = 1 \/ p[7] = 1 THEN FALSE                       \* booleans are switched off
           ELSE IF p[5] = 6 /\ p[7] \in {14, 18} /\ p[1] \in {4, 8, 10} THEN FALSE
           ELSE CASE p[7] \in {4, 8, 10, 14, 18} -> p[1] \in {4, 8, 10, 14, 18, 20}
                  [] p[7] = 20 -> p[1] \in {4, 8, 10, 14, 18, 20, 21, 31, 32, 33}
                  [] p[7] = 21 -> p[1] \in {20, 21}
                  [] OTHER -> FALSE
Same(p, o, v) == p[1] = p[7] /\ p[7] \in {1, 31, 32, 33} /\ v = o   \* a value that has the type already
Casted(st, p, o, v) ==
  IF IsErr(o) THEN Err(v)
  ELSE IF o = Null THEN v = Null \/ (~Pair(p) /\ Err(v))
  ELSE IF ~Pair(p) THEN v = Unsupported \/ Same(p, o, v)
  ELSE IF IsTxt(o) THEN TextTo(st, p, Bytes(o), v)
  ELSE IF IsOct(o) THEN (IF p[1] = 20 THEN Fixed(4, ToHex(Bytes(o)), p[2], p[4] = 0, p[8] = 0, p[5], v) ELSE Fixed(5, Bytes(o), p[2], p[4] = 0, p[8] = 0, p[5], v))
  ELSE NumTo(p, o, v)
(* an assignment tells unsupported, too long and all other errors apart, each with its status *)
Assign(st, p, o, v) == IF IsErr(v) THEN \E k \in 1..12 : Casted(st, p, o, <<0, k>>) /\ v = <<0, IF k \in {4, 9} THEN k ELSE 97>>
                       ELSE Casted(st, p, o, v)
CastOk(st, op, a, v) == IF op = "asgn" THEN Assign(st, a[1], a[2], v) ELSE Casted(st, a[1], a[2], v)
CastStep(st, o, v) == IF o.op \in {"cast", "asgn", "papp"} THEN (IF CastOk(st, o.op, o.a, v) THEN {st} ELSE {}) ELSE CStep(st, o, v)
=============================================================================
