-------------------------------- MODULE Expr --------------------------------
(* The value of SQL's scalar expressions: operators, comparisons, LIKE, CASE and COALESCE, and the built-in
   functions.  Numbers are exact: <<sign, exponent, limbs>> in base 1000, so 64 bit integers, 38 digit decimals
   and binary floating point numbers (every one of which is a decimal) are the same kind of thing and the
   specification of an operation is the operation on real numbers, together with how far from it each type may be.

   Values: <<>> NULL; <<0,kind>> an error; <<1,b>> boolean; <<2,kind,neg,E,limbs..>> integer (kind 4 or 8) or decimal
   (10); <<3,kind,class,neg,E,limbs..>> floating point, class 0 finite, 1 infinite, 2 NaN (kind 14 or 18);
   <<4,bytes..>> text; <<5,bytes..>> octets; <<6,kind,neg,E,limbs..>> date (31, days), time of day (32, ns) and
   time point (33, ns).                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* ---------------------------------------------------------------- numbers *)
Zero == [s |-> 0, e |-> 0, n |-> <<>>]
RECURSIVE Lo(_), Hi(_)
Lo(n) == IF n # <<>> /\ n[1] = 0 THEN 1 + Lo(Tail(n)) ELSE 0        \* zero limbs at the low end
Hi(n) == IF n # <<>> /\ n[Len(n)] = 0 THEN Hi(SubSeq(n, 1, Len(n) - 1)) ELSE n
Mk(s, e, n) == LET h == Hi(n) IN IF h = <<>> \/ s = 0 THEN Zero
               ELSE LET k == Lo(h) IN [s |-> s, e |-> e + k, n |-> SubSeq(h, k + 1, Len(h))]
At(x, k) == IF k >= x.e /\ k < x.e + Len(x.n) THEN x.n[k - x.e + 1] ELSE 0   \* limb with weight 1000^k
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Top(x) == x.e + Len(x.n)
Neg(x) == [x EXCEPT !.s = -x.s]
Abs(x) == [x EXCEPT !.s = IF x.s = 0 THEN 0 ELSE 1]
CmpMag(x, y) ==
  IF x.s = 0 \/ y.s = 0 THEN (IF x.s = 0 THEN 0 ELSE 1) - (IF y.s = 0 THEN 0 ELSE 1)
  ELSE IF Top(x) # Top(y) THEN (IF Top(x) < Top(y) THEN -1 ELSE 1)
  ELSE LET lo == Min2(x.e, y.e)
           d  == {k \in lo..(Top(x) - 1) : At(x, k) # At(y, k)}
       IN  IF d = {} THEN 0 ELSE LET m == CHOOSE k \in d : \A j \in d : j <= k IN IF At(x, m) < At(y, m) THEN -1 ELSE 1
Cmp(x, y) == IF x.s # y.s THEN (IF x.s < y.s THEN -1 ELSE 1) ELSE IF x.s = 0 THEN 0 ELSE x.s * CmpMag(x, y)
Carry(c) == LET r == FoldLeft(LAMBDA a, v : [c |-> (a.c + v) \div 1000, r |-> Append(a.r, (a.c + v) % 1000)], [c |-> 0, r |-> <<>>], c)
            IN  r.r \o <<r.c % 1000, (r.c \div 1000) % 1000, r.c \div 1000000>>
AddMag(x, y) == LET lo == Min2(x.e, y.e) hi == Max2(Top(x), Top(y))
                IN  [e |-> lo, n |-> Carry([k \in 1..(hi - lo) |-> At(x, lo + k - 1) + At(y, lo + k - 1)])]
SubMag(x, y) == LET lo == Min2(x.e, y.e) hi == Max2(Top(x), Top(y))   \* |x| >= |y|
                IN  [e |-> lo, n |-> Carry([k \in 1..(hi - lo) |-> At(x, lo + k - 1) - At(y, lo + k - 1)])]
Add(x, y) == IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
             ELSE IF x.s = y.s THEN LET r == AddMag(x, y) IN Mk(x.s, r.e, r.n)
             ELSE IF CmpMag(x, y) >= 0 THEN LET r == SubMag(x, y) IN Mk(x.s, r.e, r.n)
             ELSE LET r == SubMag(y, x) IN Mk(y.s, r.e, r.n)
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x.s = 0 \/ y.s = 0 THEN Zero
             ELSE LET a == Len(x.n) b == Len(y.n)
                      col(k) == FoldLeft(LAMBDA t, i : t + x.n[i] * y.n[k + 1 - i], 0, [i \in 1..(Min2(a, k) - Max2(1, k + 1 - b) + 1) |-> Max2(1, k + 1 - b) + i - 1])
                  IN  Mk(x.s * y.s, x.e + y.e, Carry([k \in 1..(a + b - 1) |-> col(k)]))
Small(i) == IF i = 0 THEN Zero ELSE LET m == IF i < 0 THEN -i ELSE i IN Mk(IF i < 0 THEN -1 ELSE 1, 0, <<m % 1000, (m \div 1000) % 1000, (m \div 1000000) % 1000, m \div 1000000000>>)
One == Small(1)
Pow10(p) == [s |-> 1, e |-> p \div 3, n |-> <<IF p % 3 = 0 THEN 1 ELSE IF p % 3 = 1 THEN 10 ELSE 100>>]
Shift(x, p) == Mul(x, Pow10(p))
(* quotient toward zero and remainder of the magnitudes *)
RECURSIVE Find(_, _, _, _)
Find(r, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF CmpMag(Mul(b, Small(m)), r) <= 0 THEN Find(r, b, m, hi) ELSE Find(r, b, lo, m - 1)
DivMod(x, y) ==
  LET lo == Min2(x.e, y.e)
      b  == [s |-> 1, e |-> y.e - lo, n |-> y.n]
      st(a, k) == LET r == Add(Mk(a.r.s, a.r.e + 1, a.r.n), Small(At(x, lo + k)))
                      q == IF CmpMag(r, b) < 0 THEN 0 ELSE Find(r, b, 0, 999)
                  IN  [r |-> IF q = 0 THEN r ELSE Sub(r, Mul(b, Small(q))), q |-> <<q>> \o a.q]
      f  == FoldLeft(st, [r |-> Zero, q |-> <<>>], [i \in 1..Max2(0, Top(x) - lo) |-> Top(x) - lo - i])
  IN  IF x.s = 0 THEN [q |-> Zero, r |-> Zero]
      ELSE [q |-> Mk(x.s * y.s, 0, f.q), r |-> IF f.r.s = 0 THEN Zero ELSE [s |-> x.s, e |-> f.r.e + lo, n |-> f.r.n]]
Trunc(x) == IF x.e >= 0 THEN x ELSE IF Top(x) <= 0 THEN Zero ELSE Mk(x.s, 0, SubSeq(x.n, 1 - x.e, Len(x.n)))
IsInt(x) == x.e >= 0
Floor(x) == IF IsInt(x) THEN x ELSE IF x.s < 0 THEN Sub(Trunc(x), One) ELSE Trunc(x)
Ceil(x) == Neg(Floor(Neg(x)))
Half == Mk(1, -1, <<500>>)
RoundInt(x) == LET t == Trunc(x) f == Abs(Sub(x, t)) IN IF Cmp(f, Half) >= 0 THEN (IF x.s < 0 THEN Sub(t, One) ELSE Add(t, One)) ELSE t
Round(x, p) == Shift(RoundInt(Shift(x, p)), -p)        \* half away from zero, at the p-th decimal
Digs(l) == IF l >= 100 THEN 3 ELSE IF l >= 10 THEN 2 ELSE 1
Tz(l) == IF l % 100 = 0 THEN 2 ELSE IF l % 10 = 0 THEN 1 ELSE 0
Sig(x) == IF x.s = 0 THEN 0 ELSE 3 * (Len(x.n) - 1) + Digs(x.n[Len(x.n)]) - Tz(x.n[1])   \* significant digits
Adj(x) == 3 * (Top(x) - 1) + Digs(x.n[Len(x.n)]) - 1                                   \* exponent of the first digit (x # 0)
Within(x, y, t) == Cmp(Abs(Sub(x, y)), t) <= 0
Rel(x, k) == IF x.s = 0 THEN Zero ELSE [s |-> 1, e |-> x.e - k, n |-> x.n]             \* |x| * 1000^-k
Close(x, y, k) == Within(x, y, Rel(y, k))
(* 2^31, 2^63 *)
P31 == [s |-> 1, e |-> 0, n |-> <<648, 483, 147, 2>>]
P63 == [s |-> 1, e |-> 0, n |-> <<808, 775, 854, 36, 372, 223, 9>>]
InRange(x, k) == LET p == IF k = 4 THEN P31 ELSE P63 IN Cmp(x, p) < 0 /\ Cmp(x, Neg(p)) >= 0

(* ----------------------------------------------------------------- values *)
Null == <<>>
IsErr(v) == Len(v) = 2 /\ v[1] = 0
Err(v) == IsErr(v) /\ v[2] # 0
Bool(b) == <<1, IF b THEN 1 ELSE 0>>
True == <<1, 1>>
False == <<1, 0>>
Tag(v) == v[1]
Kind(v) == v[2]
IsNum(v) == Len(v) > 3 /\ v[1] \in {2, 3}
IsF(v) == Len(v) > 3 /\ v[1] = 3
Cls(v) == IF IsF(v) THEN v[3] ELSE 0
Nan(v) == Cls(v) = 2
Inf(v) == Cls(v) = 1
Fin(v) == IsNum(v) /\ Cls(v) = 0
Signed(v) == IF v[1] = 3 THEN v[4] ELSE v[3]                       \* 1: minus (of an infinity or a zero too)
Num(v) == LET q == IF v[1] = 3 THEN 4 ELSE 3
          IN  IF Len(v) < q + 2 THEN Zero ELSE [s |-> IF v[q] = 1 THEN -1 ELSE 1, e |-> v[q + 1], n |-> SubSeq(v, q + 2, Len(v))]
Bytes(v) == SubSeq(v, 2, Len(v))
IsTxt(v) == Len(v) > 0 /\ v[1] = 4
IsOct(v) == Len(v) > 0 /\ v[1] = 5
Of(v, k, x) == IsNum(v) /\ Kind(v) = k /\ Fin(v) /\ Cmp(Num(v), x) = 0
LenIs(v, n) == Of(v, 8, Small(n))
KindOf(v) == IF v[1] = 1 THEN 1 ELSE IF v[1] = 4 THEN 20 ELSE IF v[1] = 5 THEN 21 ELSE v[2]

(* NULL if an operand is NULL, an error if an operand is one, otherwise P *)
Strict(a, v, P(_)) == IF \E i \in 1..Len(a) : IsErr(a[i]) THEN Err(v) \/ (v = Null /\ \E i \in 1..Len(a) : a[i] = Null)
                      ELSE IF \E i \in 1..Len(a) : a[i] = Null THEN v = Null ELSE P(v)

(* ------------------------------------------------------------- arithmetic *)
ResKind(a, b) == IF Kind(a) = Kind(b) THEN Kind(a) ELSE IF IsF(a) \/ IsF(b) THEN 18 ELSE IF Kind(a) = 10 \/ Kind(b) = 10 THEN 10 ELSE 8
Prec(k) == IF k = 14 THEN 2 ELSE 5                                 \* limbs of a floating point result that are right
Tiny(k) == IF k = 14 THEN Pow10(-44) ELSE Pow10(-322)              \* below this a result may be rounded to zero
Huge(k) == Shift(Small(IF k = 14 THEN 34028 ELSE 17976), IF k = 14 THEN 34 ELSE 304)   \* above this a result may be infinite
FloatIs(v, k, x, t) ==   \* v is x within t, or infinite because x is too large
  Kind(v) = k /\ IsF(v) /\ ~Nan(v)
  /\ IF Inf(v) THEN Cmp(Abs(x), Huge(k)) >= 0 /\ (Signed(v) = 1) = (x.s < 0)
     ELSE Within(Num(v), x, Add(t, Tiny(k)))
DecIs(v, x) == Kind(v) = 10 /\ IsNum(v) /\ (IF Sig(x) <= 38 THEN Cmp(Num(v), x) = 0 ELSE Close(Num(v), x, 12))
IntIs(v, k, x) == IsNum(v) /\ Kind(v) = k /\ v[1] = 2 /\ (InRange(x, k) => Cmp(Num(v), x) = 0)
Exact(v, k, x, t) == IF k \in {14, 18} THEN IsNum(v) /\ FloatIs(v, k, x, Add(Rel(x, Prec(k)), t)) ELSE IF k = 10 THEN DecIs(v, x) ELSE IntIs(v, k, x)
IsNan(v, k) == IsNum(v) /\ Kind(v) = k /\ Nan(v)
IsInf(v, k, neg) == IsNum(v) /\ Kind(v) = k /\ Inf(v) /\ (Signed(v) = 1) = neg
Arith(op, a, b, v) ==
  LET k == ResKind(a, b)
      x == Num(a) y == Num(b)
      isf == k \in {14, 18}
      conv == isf /\ Kind(a) # Kind(b) /\ ~(IsF(a) /\ IsF(b))      \* an operand is converted to floating point, not exactly
      slack == IF conv THEN Rel(IF CmpMag(x, y) >= 0 THEN x ELSE y, 5) ELSE Zero
      neg == (Signed(a) = 1) # (Signed(b) = 1)
  IN
  CASE op \in {"add", "sub"} ->
         IF Nan(a) \/ Nan(b) THEN IsNan(v, k)
         ELSE IF Inf(a) /\ Inf(b) THEN (IF (Signed(a) = Signed(b)) = (op = "add") THEN IsInf(v, k, Signed(a) = 1) ELSE IsNan(v, k))
         ELSE IF Inf(a) THEN IsInf(v, k, Signed(a) = 1)
         ELSE IF Inf(b) THEN IsInf(v, k, (Signed(b) = 1) = (op = "add"))
         ELSE Exact(v, k, IF op = "add" THEN Add(x, y) ELSE Sub(x, y), slack)
    [] op = "mul" ->
         IF Nan(a) \/ Nan(b) THEN IsNan(v, k)
         ELSE IF Inf(a) \/ Inf(b) THEN (IF (Fin(a) /\ x.s = 0) \/ (Fin(b) /\ y.s = 0) THEN IsNan(v, k) ELSE IsInf(v, k, neg))
         ELSE Exact(v, k, Mul(x, y), IF conv THEN Rel(Mul(x, y), 5) ELSE Zero)
    [] op = "div" ->
         IF Fin(b) /\ y.s = 0 THEN v = <<0, 1>>
         ELSE IF Nan(a) \/ Nan(b) THEN IsNan(v, k)
         ELSE IF Inf(a) THEN (IF Inf(b) THEN IsNan(v, k) ELSE IsInf(v, k, neg))
         ELSE IF Inf(b) THEN IsNum(v) /\ Kind(v) = k /\ Fin(v) /\ Num(v).s = 0
         ELSE IF isf THEN
                IsNum(v) /\ Kind(v) = k /\ ~Nan(v)
                /\ IF Inf(v) THEN Cmp(Abs(x), Mul(Abs(y), Huge(k))) >= 0 /\ (Signed(v) = 1) = neg
                   ELSE LET t == Rel(x, Prec(k)) IN Within(Mul(Num(v), y), x, Add(IF conv THEN Add(t, t) ELSE t, Mul(Abs(y), Tiny(k))))
         ELSE IF k = 10 THEN IsNum(v) /\ Kind(v) = 10 /\ Within(Mul(Num(v), y), x, Rel(x, 12))
         ELSE LET q == DivMod(x, y).q IN IF InRange(q, k) THEN Of(v, k, q) ELSE Err(v)
    [] op = "rem" ->
         IF isf THEN Err(v)
         ELSE IF y.s = 0 THEN v = <<0, 1>>
         ELSE IF k = 10 /\ x.s # 0 /\ Adj(x) - Adj(y) > 45 THEN v = <<0, 1>>
         ELSE LET d == DivMod(x, y)
              IN  IF k = 10 /\ d.q.s # 0 /\ Adj(d.q) >= 38 THEN v = <<0, 1>>
                  ELSE IF k = 10 THEN DecIs(v, d.r) ELSE Of(v, k, d.r)

(* ------------------------------------------------------------ comparisons *)
RECURSIVE CmpBytes(_, _, _)
CmpBytes(x, y, i) == IF i > Len(x) /\ i > Len(y) THEN 0 ELSE IF i > Len(x) THEN -1 ELSE IF i > Len(y) THEN 1
                     ELSE IF x[i] # y[i] THEN (IF x[i] < y[i] THEN -1 ELSE 1) ELSE CmpBytes(x, y, i + 1)
(* the orders of a and b the comparison may be based on: one, except where conversion to floating point may hide a difference *)
Orders(a, b) ==
  IF a[1] \in {4, 5} THEN {CmpBytes(Bytes(a), Bytes(b), 1)}
  ELSE IF a[1] = 6 THEN {Cmp(Num(a), Num(b))}
  ELSE IF Nan(a) \/ Nan(b) THEN {(IF Nan(a) THEN 1 ELSE 0) - (IF Nan(b) THEN 1 ELSE 0)}      \* NaN is greater than everything else
  ELSE IF Inf(a) \/ Inf(b) THEN LET w(z) == IF Inf(z) THEN (IF Signed(z) = 1 THEN -1 ELSE 1) ELSE 0 IN {IF w(a) < w(b) THEN -1 ELSE IF w(a) > w(b) THEN 1 ELSE 0}
  ELSE LET c == Cmp(Num(a), Num(b))
       IN  IF IsF(a) = IsF(b) \/ ~Close(Num(a), Num(b), 5) THEN {c} ELSE {c, 0}
Holds(op, c) == CASE op \in {"eq", "nd"} -> c = 0 [] op \in {"ne", "ds"} -> c # 0 [] op = "lt" -> c < 0 [] op = "le" -> c <= 0 [] op = "gt" -> c > 0 [] op = "ge" -> c >= 0
Comparable(a, b) == (IsNum(a) /\ IsNum(b)) \/ (Len(a) > 0 /\ Len(b) > 0 /\ a[1] = b[1] /\ a[1] \in {4, 5}) \/ (Len(a) > 1 /\ Len(b) > 1 /\ a[1] = 6 /\ b[1] = 6 /\ a[2] = b[2])
Compare(op, a, b, v) == IF Comparable(a, b) THEN \E c \in Orders(a, b) : v = Bool(Holds(op, c)) ELSE Err(v)
Distinct(op, a, v) ==
  IF IsErr(a[1]) \/ IsErr(a[2]) THEN Err(v)
  ELSE IF a[1] = Null \/ a[2] = Null THEN v = Bool((a[1] = a[2]) = (op = "nd")) ELSE Compare(op, a[1], a[2], v)

(* ------------------------------------------------------------------- UTF-8 *)
Sz(b) == IF b <= 127 THEN 1 ELSE IF b >= 194 /\ b <= 223 THEN 2 ELSE IF b >= 224 /\ b <= 239 THEN 3 ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0
RECURSIVE Chars(_, _)   \* the characters of s from byte i on, <<0>> at the end if s is not UTF-8
Chars(s, i) == IF i > Len(s) THEN <<>>
               ELSE LET n == Sz(s[i]) IN
                    IF n = 0 \/ i + n - 1 > Len(s) \/ \E j \in (i + 1)..(i + n - 1) : s[j] \notin 128..191 THEN <<<<-1>>>>
                    ELSE <<SubSeq(s, i, i + n - 1)>> \o Chars(s, i + n)
Cp(s) == Chars(s, 1)
Valid(c) == c = <<>> \/ c[Len(c)] # <<-1>>
Flat(c) == FoldLeft(LAMBDA x, y : x \o y, <<>>, c)

(* -------------------------------------------------------------------- LIKE *)
RECURSIVE Toks(_, _, _)   \* the pattern: <<0, char>> itself, <<1>> one character, <<2>> any number, <<3>> escape with nothing behind
Toks(p, i, esc) == IF i > Len(p) THEN <<>>
                   ELSE IF esc # <<>> /\ p[i] = esc THEN (IF i = Len(p) THEN <<<<3>>>> ELSE <<<<0, p[i + 1]>>>> \o Toks(p, i + 2, esc))
                   ELSE IF p[i] = <<37>> THEN <<<<2>>>> \o Toks(p, i + 1, esc)
                   ELSE IF p[i] = <<95>> THEN <<<<1>>>> \o Toks(p, i + 1, esc)
                   ELSE <<<<0, p[i]>>>> \o Toks(p, i + 1, esc)
Match(s, t) == LET st(P, k) == IF k[1] = 2 THEN {j \in 0..Len(s) : \E i \in P : i <= j}
                               ELSE {i + 1 : i \in {i \in P : i < Len(s) /\ (k[1] = 1 \/ s[i + 1] = k[2])}}
               IN  Len(s) \in FoldLeft(st, {0}, t)
Like(a, v) ==
  LET s == Cp(Bytes(a[1])) p == Cp(Bytes(a[2])) e == Cp(Bytes(a[3]))
      bad == ~Valid(e)
      long == Valid(e) /\ Len(e) > 1
      esc == IF Valid(e) /\ Len(e) = 1 THEN e[1] ELSE <<>>
      t == Toks(p, 1, esc)
      trail == t # <<>> /\ t[Len(t)] = <<3>>
      inv == ~Valid(s) \/ ~Valid(p)
  IN  IF ~IsTxt(a[1]) \/ ~IsTxt(a[2]) \/ ~IsTxt(a[3]) THEN Err(v)
      ELSE IF bad \/ long THEN Err(v) \/ (v = Null /\ (bad \/ inv))
      ELSE IF ~Valid(p) THEN v = Null \/ Err(v)
      ELSE IF trail THEN Err(v) \/ (v = Null /\ inv)
      ELSE IF ~Valid(s) THEN v = Null \/ (p = <<>> /\ v = False)
      ELSE v = Bool(Match(s, t))

(* -------------------------------------------------------- CASE and COALESCE *)
(* b converted to the type with this code *)
Conv(b, code, v) ==
  IF IsErr(b) THEN Err(v) ELSE IF b = Null THEN v = Null
  ELSE IF KindOf(b) = code \/ ~IsNum(b) THEN v = b
  ELSE IF code \in {14, 18} THEN
         IF Nan(b) THEN IsNan(v, code) ELSE IF Inf(b) THEN IsInf(v, code, Signed(b) = 1)
         ELSE IsNum(v) /\ FloatIs(v, code, Num(b), IF IsF(b) /\ code = 18 THEN Zero ELSE Rel(Num(b), Prec(code)))
  ELSE IF code = 10 /\ ~IsF(b) THEN Of(v, 10, Num(b))
  ELSE IF code = 8 /\ Kind(b) = 4 THEN Of(v, 8, Num(b))
  ELSE FALSE
RECURSIVE Case(_, _, _, _), Coalesce(_, _, _, _)
Case(c, i, code, v) ==   \* c: condition, body, condition, body ... [default]
  IF i > Len(c) THEN v = Null
  ELSE IF i = Len(c) THEN Conv(c[i], code, v)
  ELSE IF IsErr(c[i]) THEN Err(v)
  ELSE IF c[i] = True THEN Conv(c[i + 1], code, v) ELSE Case(c, i + 2, code, v)
Coalesce(c, i, code, v) == IF i > Len(c) THEN v = Null ELSE IF IsErr(c[i]) THEN Err(v) ELSE IF c[i] = Null THEN Coalesce(c, i + 1, code, v) ELSE Conv(c[i], code, v)

(* ------------------------------------------------------- AND, OR, NOT, IS .. *)
And(a, v) == IF IsErr(a[1]) \/ IsErr(a[2]) THEN Err(v) \/ (v = False /\ False \in {a[1], a[2]})
             ELSE v = (IF False \in {a[1], a[2]} THEN False ELSE IF Null \in {a[1], a[2]} THEN Null ELSE True)
Or(a, v) == IF IsErr(a[1]) \/ IsErr(a[2]) THEN Err(v) \/ (v = True /\ True \in {a[1], a[2]})
            ELSE v = (IF True \in {a[1], a[2]} THEN True ELSE IF Null \in {a[1], a[2]} THEN Null ELSE False)
Is(op, x, v) == IF IsErr(x) THEN Err(v)
                ELSE v = Bool(CASE op \in {"isnull", "isunk"} -> x = Null [] op = "istrue" -> x = True [] op = "isfalse" -> x = False)
Minus(x, v) ==
  IF ~IsNum(x) THEN Err(v)
  ELSE IF IsF(x) THEN IsF(v) /\ Kind(v) = Kind(x) /\ Cls(v) = Cls(x) /\ (Nan(x) \/ (Signed(v) = 1 - Signed(x) /\ SubSeq(v, 5, Len(v)) = SubSeq(x, 5, Len(x))))
  ELSE IF Kind(x) = 10 THEN Of(v, 10, Neg(Num(x))) ELSE IntIs(v, Kind(x), Neg(Num(x)))

(* --------------------------------------------------------------- functions *)
I32(x) == IF Len(x.n) + x.e > 3 THEN x.s * 1000000000 ELSE x.s * (At(x, 0) + 1000 * At(x, 1) + 1000000 * At(x, 2))   \* an integer, clipped to +-10^9
Substring(a, v) ==
  LET txt == IsTxt(a[1])
      c  == IF txt THEN Cp(Bytes(a[1])) ELSE [i \in 1..(Len(a[1]) - 1) |-> <<a[1][i + 1]>>]
      s  == I32(Num(a[2]))
      n  == IF Len(a) = 3 THEN I32(Num(a[3])) ELSE 1000000000
  IN  IF (txt /\ ~Valid(c)) \/ s < 1 \/ s > Len(c) \/ n < 0 THEN v = Null
      ELSE v = <<a[1][1]>> \o Flat(SubSeq(c, s, IF n > Len(c) - s THEN Len(c) ELSE s + n - 1))
Position(a, v) ==
  LET p == Cp(Bytes(a[1])) s == Cp(Bytes(a[2]))
      at == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
  IN  IF p = <<>> THEN LenIs(v, 1) \/ (~Valid(s) /\ v = Null)
      ELSE IF ~Valid(s) THEN v = Null
      ELSE IF ~Valid(p) THEN v = Null \/ IsNum(v)
      ELSE LenIs(v, IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j)
Map(a, F(_)) == <<a[1][1]>> \o [i \in 1..(Len(a[1]) - 1) |-> F(a[1][i + 1])]
Up(b) == IF b \in 97..122 THEN b - 32 ELSE b
Low(b) == IF b \in 65..90 THEN b + 32 ELSE b
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] = 32 THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
AbsV(x, v) == IF IsF(x) THEN IsF(v) /\ Kind(v) = Kind(x) /\ Cls(v) = Cls(x) /\ (Nan(x) \/ (Signed(v) = 0 /\ SubSeq(v, 5, Len(v)) = SubSeq(x, 5, Len(x))))
              ELSE IF Kind(x) # 10 /\ ~InRange(Abs(Num(x)), Kind(x)) THEN v = <<0, 2>> ELSE Of(v, Kind(x), Abs(Num(x)))
ToInt(x, v, F(_)) == IF ~Fin(x) THEN v = x ELSE Of(v, Kind(x), F(Num(x)))
RoundV(a, v) ==
  LET x == a[1] k == Kind(a[1])
      p == IF Len(a) = 2 THEN I32(Num(a[2])) ELSE 0
      lo == CASE k = 4 -> -9 [] k = 8 -> -18 [] k = 14 -> -7 [] k = 18 -> -15 [] k = 10 -> -38
      hi == CASE k \in {4, 8} -> 0 [] k = 14 -> 7 [] k = 18 -> 15 [] k = 10 -> 38
  IN  IF p < lo \/ p > hi THEN v = <<0, 9>>
      ELSE IF ~Fin(x) THEN v = x
      ELSE IF k = 10 THEN DecIs(v, Round(Num(x), p))
      ELSE IF k \in {4, 8} THEN LET r == Round(Num(x), p) IN IF InRange(r, k) THEN Of(v, k, r) ELSE Err(v)
      ELSE LET t == Rel(Num(x), IF k = 14 THEN 2 ELSE 4)      \* within half a unit, at a multiple of the unit, as floating point goes
           IN  IsNum(v) /\ Kind(v) = k /\ Fin(v)
               /\ Within(Num(v), Num(x), Add(Shift(Half, -p), t))
               /\ Within(Num(v), Round(Num(v), p), Rel(Num(v), IF k = 14 THEN 2 ELSE 4))
Name64 == <<98, 97, 115, 101, 54, 52>>
B64(i) == IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47
RECURSIVE Enc(_)
Enc(s) == IF s = <<>> THEN <<>>
          ELSE IF Len(s) = 1 THEN <<B64(s[1] \div 4), B64((s[1] % 4) * 16), 61, 61>>
          ELSE IF Len(s) = 2 THEN <<B64(s[1] \div 4), B64((s[1] % 4) * 16 + (s[2] \div 16)), B64((s[2] % 16) * 4), 61>>
          ELSE <<B64(s[1] \div 4), B64((s[1] % 4) * 16 + (s[2] \div 16)), B64((s[2] % 16) * 4 + (s[3] \div 64)), B64(s[3] % 64)>> \o Enc(SubSeq(s, 4, Len(s)))
U64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN <<>>
          ELSE LET q(i) == U64(s[i]) IN
               <<q(1) * 4 + (q(2) \div 16)>> \o (IF s[3] = 61 THEN <<>> ELSE <<(q(2) % 16) * 16 + (q(3) \div 4)>>)
               \o (IF s[4] = 61 THEN <<>> ELSE <<(q(3) % 4) * 64 + q(4)>>) \o Dec(SubSeq(s, 5, Len(s)))
Good64(s) == Len(s) % 4 = 0 /\ \E pad \in 0..2 : (pad = 0 \/ Len(s) >= 4) /\ (\A i \in 1..(Len(s) - pad) : U64(s[i]) >= 0) /\ (\A i \in (Len(s) - pad + 1)..Len(s) : s[i] = 61)
Canon(s) == Enc(Dec(s)) = s
Coded(a, v, P(_)) ==
  IF \E i \in 1..2 : IsErr(a[i]) THEN Err(v) \/ (v = Null /\ Null \in {a[1], a[2]})
  ELSE IF a[1] = Null THEN v = Null
  ELSE IF a[2] = Null \/ ~IsTxt(a[2]) THEN v = <<0, 9>>
  ELSE IF [i \in 1..(Len(a[2]) - 1) |-> Low(a[2][i + 1])] # Name64 THEN v = <<0, 9>> ELSE P(v)

DayNs == [s |-> 1, e |-> 3, n |-> <<400, 86>>]          \* 86 400 x 10^9
Time(op, st, v) ==
  LET t == Num(st.start)
      l == Add(t, Mul(Small(st.zone), [s |-> 1, e |-> 3, n |-> <<60>>]))
      d == DivMod(l, DayNs)
      day == IF d.r.s < 0 THEN Sub(d.q, One) ELSE d.q
      tod == IF d.r.s < 0 THEN Add(d.r, DayNs) ELSE d.r
      is(k, x) == Len(v) > 2 /\ v[1] = 6 /\ v[2] = k /\ Cmp(Num(v), x) = 0
  IN  IF st.start = Null THEN v = <<0, 12>>
      ELSE CASE op = "current_date" -> is(31, day) [] op = "localtime" -> is(32, tod) [] op = "current_timestamp" -> is(33, t) [] op = "localtimestamp" -> is(33, l)

(* ------------------------------------------------------------- an operation *)
Ok(st, op, a, v) ==
  CASE op = "var" -> v = a[1]
    [] op \in {"add", "sub", "mul", "div", "rem"} -> Strict(a, v, LAMBDA r : IF IsNum(a[1]) /\ IsNum(a[2]) THEN Arith(op, a[1], a[2], r) ELSE Err(r))
    [] op = "mod" -> Strict(a, v, LAMBDA r : Arith("rem", a[1], a[2], r))
    [] op = "cat" -> Strict(a, v, LAMBDA r : IF IsTxt(a[1]) /\ IsTxt(a[2]) THEN r = a[1] \o Bytes(a[2]) ELSE Err(r))
    [] op = "and" -> And(a, v)
    [] op = "or" -> Or(a, v)
    [] op = "not" -> Strict(a, v, LAMBDA r : IF a[1] \in {True, False} THEN r = Bool(a[1] = False) ELSE Err(r))
    [] op = "neg" -> Strict(a, v, LAMBDA r : Minus(a[1], r))
    [] op = "pos" -> v = a[1]
    [] op \in {"isnull", "istrue", "isfalse", "isunk"} -> Is(op, a[1], v)
    [] op \in {"eq", "ne", "lt", "le", "gt", "ge"} -> Strict(a, v, LAMBDA r : Compare(op, a[1], a[2], r))
    [] op \in {"nd", "ds"} -> Distinct(op, a, v)
    [] op = "like" -> Strict(a, v, LAMBDA r : Like(a, r))
    [] op = "case" -> Case(Tail(a), 1, a[1], v)
    [] op = "coal" -> Coalesce(Tail(a), 1, a[1], v)
    [] op = "octet_length" -> Strict(a, v, LAMBDA r : LenIs(r, Len(a[1]) - 1))
    [] op \in {"character_length", "char_length"} -> Strict(a, v, LAMBDA r : LET c == Cp(Bytes(a[1])) IN IF Valid(c) THEN LenIs(r, Len(c)) ELSE r = Null)
    [] op \in {"substring", "substr"} -> Strict(a, v, LAMBDA r : Substring(a, r))
    [] op = "position" -> Strict(a, v, LAMBDA r : Position(a, r))
    [] op = "upper" -> Strict(a, v, LAMBDA r : r = Map(a, Up))
    [] op = "lower" -> Strict(a, v, LAMBDA r : r = Map(a, Low))
    [] op = "ltrim" -> Strict(a, v, LAMBDA r : r = <<4>> \o LTrim(Bytes(a[1])))
    [] op = "rtrim" -> Strict(a, v, LAMBDA r : r = <<4>> \o RTrim(Bytes(a[1])))
    [] op = "abs" -> Strict(a, v, LAMBDA r : AbsV(a[1], r))
    [] op = "ceil" -> Strict(a, v, LAMBDA r : ToInt(a[1], r, Ceil))
    [] op = "floor" -> Strict(a, v, LAMBDA r : ToInt(a[1], r, Floor))
    [] op = "round" -> Strict(a, v, LAMBDA r : RoundV(a, r))
    [] op = "encode" -> Coded(a, v, LAMBDA r : r = <<4>> \o Enc(Bytes(a[1])))
    [] op = "decode" -> Coded(a, v, LAMBDA r : LET s == Bytes(a[1]) IN IF Good64(s) /\ (Canon(s) \/ ~IsErr(r)) THEN r = <<5>> \o Dec(s) ELSE r = <<0, 10>>)
    [] op \in {"current_date", "localtime", "current_timestamp", "localtimestamp"} -> Time(op, st, v)
CInit(a) == [zone |-> 0, start |-> Null]
CStep(st, o, v) == IF o.op = "cfg" THEN {[zone |-> o.a[1], start |-> o.a[2]]} ELSE IF Ok(st, o.op, o.a, v) THEN {st} ELSE {}
=============================================================================
