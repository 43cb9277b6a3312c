------------------------------- MODULE ExprMC -------------------------------
(* Laws of the specification of expressions: the exact arithmetic against TLC's own integers and against the field
   and order laws on numbers of several limbs, LIKE against its defining recursion, base64 and trimming against
   their inverses, and the laws of three valued logic and of comparison. *)
EXTENDS Expr, TLC
CONSTANTS Wide
Ints == (-12..12) \cup {999, 1000, 1001, -999, -1000, -1001, 12345, -12345, 30000, -29999, 123, 500, -500, 46000} \cup (IF Wide THEN (13..60) \cup {4999, 5000, 5001, -4999, -5001, 32767, -40000} ELSE {})
Bigs == {P63, Neg(P63), P31, Add(P63, One), Sub(P63, One), Mk(1, -13, <<999,999,999,999,999,999,999,999,999,999,999,999,99>>), Mk(-1, -2, <<1, 500>>), Pow10(37), Pow10(-20), Mk(1, 3, <<7, 0, 0, 9>>), Mk(-1, -1, <<500, 2>>)} \cup {Shift(Small(i), -2) : i \in {1, 49, 50, 51, 99, 150, -250, -149}}
Ab == {<<97>>, <<98>>, <<195, 169>>}
Strs(n) == UNION {[1..k -> Ab] : k \in 0..n}
Pats(n) == UNION {[1..k -> Ab \cup {<<37>>, <<95>>, <<92>>}] : k \in 0..n}
Octs == UNION {[1..k -> {0, 3, 32, 97, 255}] : k \in 0..4}
Bs == {True, False, Null, <<0, 1>>}
VARIABLES k, x, y
vars == <<k, x, y>>
Init == k \in {"int", "big", "like", "oct", "log"} /\ x = <<>> /\ y = <<>>
Next == /\ x = <<>> /\ k' = k
        /\ CASE k = "int" -> x' \in {<<i>> : i \in Ints} /\ y' \in Ints
             [] k = "big" -> x' \in {<<b>> : b \in Bigs} /\ y' \in Bigs
             [] k = "like" -> x' \in {<<s>> : s \in Strs(IF Wide THEN 4 ELSE 3)} /\ y' \in Pats(IF Wide THEN 4 ELSE 3)
             [] k = "oct" -> x' \in {<<o>> : o \in Octs} /\ y' = 0
             [] k = "log" -> x' \in {<<b>> : b \in Bs} /\ y' \in Bs
Spec == Init /\ [][Next]_vars
On(t) == k = t /\ x # <<>>
X == x[1]
Tr(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Native == On("int") =>
  /\ I32(Small(X)) = X
  /\ Add(Small(X), Small(y)) = Small(X + y) /\ Sub(Small(X), Small(y)) = Small(X - y) /\ Mul(Small(X), Small(y)) = Small(X * y)
  /\ Cmp(Small(X), Small(y)) = (IF X < y THEN -1 ELSE IF X > y THEN 1 ELSE 0)
  /\ y # 0 => DivMod(Small(X), Small(y)) = [q |-> Small(Tr(X, y)), r |-> Small(X - Tr(X, y) * y)]
  /\ Floor(Shift(Small(X), -1)) = Small(X \div 10) /\ Ceil(Shift(Small(X), -1)) = Small(-((-X) \div 10))
  /\ Round(Small(X), -1) = Small(10 * (IF X >= 0 THEN (X + 5) \div 10 ELSE -((5 - X) \div 10)))
  /\ Trunc(Shift(Small(X), -2)) = Small(Tr(X, 100))
Fields == On("big") =>
  /\ Add(X, y) = Add(y, X) /\ Mul(X, y) = Mul(y, X) /\ Sub(Add(X, y), y) = X /\ Sub(X, y) = Neg(Sub(y, X))
  /\ Cmp(X, y) = -Cmp(y, X) /\ (Cmp(X, y) = 0) = (X = y) /\ Cmp(X, y) = Sub(X, y).s
  /\ \A z \in {One, P31, Pow10(-20)} : Mul(Add(X, y), z) = Add(Mul(X, z), Mul(y, z)) /\ Mul(Mul(X, y), z) = Mul(X, Mul(y, z)) /\ Add(Add(X, y), z) = Add(X, Add(y, z))
  /\ LET d == DivMod(X, y) IN Add(Mul(d.q, y), d.r) = X /\ CmpMag(d.r, y) < 0 /\ IsInt(d.q) /\ (d.r.s = 0 \/ d.r.s = X.s)
  /\ Cmp(Floor(X), X) <= 0 /\ Cmp(Ceil(X), X) >= 0 /\ IsInt(Floor(X)) /\ Cmp(Sub(X, Floor(X)), One) < 0
  /\ \A p \in {-3, -1, 0, 1, 2, 5} : Within(Round(X, p), X, Shift(Half, -p)) /\ IsInt(Shift(Round(X, p), p)) /\ Round(Neg(X), p) = Neg(Round(X, p))
RECURSIVE M(_, _)
M(s, t) == IF t = <<>> THEN s = <<>>
           ELSE IF t[1][1] = 2 THEN \E i \in 0..Len(s) : M(SubSeq(s, i + 1, Len(s)), Tail(t))
           ELSE s # <<>> /\ (t[1][1] = 1 \/ t[1][2] = s[1]) /\ M(Tail(s), Tail(t))
LikeDef == On("like") => LET t == Toks(y, 1, <<92>>) IN
  /\ (\A i \in 1..Len(t) : t[i][1] # 3) => Match(X, t) = M(X, t)
  /\ Cp(Flat(X)) = X /\ Flat(Cp(Flat(y))) = Flat(y)
Coding == On("oct") => Dec(Enc(X)) = X /\ Good64(Enc(X)) /\ LTrim(RTrim(X)) = RTrim(LTrim(X)) /\ (X # <<>> => LTrim(<<32>> \o X) = LTrim(X))
No(a) == IF a = True THEN False ELSE IF a = False THEN True ELSE a
Val(F(_)) == {v \in Bs : F(v)}
Logic == On("log") =>
  /\ Val(LAMBDA v : And(<<X, y>>, v)) = Val(LAMBDA v : And(<<y, X>>, v))
  /\ Val(LAMBDA v : And(<<X, y>>, v)) = {No(w) : w \in Val(LAMBDA v : Or(<<No(X), No(y)>>, v))}
  /\ Val(LAMBDA v : Ok(0, "coal", <<1, X, y>>, v)) = (IF X = Null THEN {y} ELSE {X})
  /\ Val(LAMBDA v : Ok(0, "case", <<1, X, y, True, True>>, v)) = (IF IsErr(X) THEN {X} ELSE IF X = True THEN {y} ELSE {True})
=============================================================================
