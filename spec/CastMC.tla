------------------------------- MODULE CastMC -------------------------------
(* laws of the specification of conversions, over small numbers, lengths and policies *)
EXTENDS Cast
CONSTANT N
VARIABLES m, sc, p, s, pol
vars == <<m, sc, p, s, pol>>
X == Shl(Small(m), sc)
Init == m \in -N..N /\ sc \in -3..1 /\ p = 1 /\ s = 0 /\ pol = 0
Next == \E a \in 1..4, b \in 0..3, c \in 0..6 : b <= a /\ p = 1 /\ s = 0 /\ pol = 0 /\ p' = a /\ s' = b /\ pol' = c /\ UNCHANGED <<m, sc>>
Spec == Init /\ [][Next]_vars
Par == <<10, p, s, 0, pol, 0, 10, 1>>
V(k, x) == <<2, k, IF x.s < 0 THEN 1 ELSE 0, x.e>> \o x.n
Grid == {V(10, Shl(Small(i), -s)) : i \in -9999..9999}
Fits == CmpMag(X, Shl(One, p - s)) < 0
Exactly == Cmp(X, Shl(Trunc(Shl(X, s)), -s)) = 0
(* a decimal either fits, or the policy decides *)
Decimal ==
  /\ Fits /\ Exactly => ToDecNum(Par, X, V(10, X)) /\ ~ToDecNum(Par, X, Null) /\ ~ToDecNum(Par, X, <<0, 3>>)
  /\ ~(Fits /\ Exactly) => /\ ToDecNum(Par, X, Null) = (pol = 3)
                           /\ ToDecNum(Par, X, <<0, 3>>) = (pol \in {5, 6})
                           /\ ToDecNum(Par, X, Unsupported) = (pol \in {1, 2})
                           /\ (~Fits => ToDecNum(Par, X, V(10, Shl(Mul(Small(X.s), Sub(Shl(One, p), One)), -s))) = (pol \in {0, 4}))
(* reading what is written gives the number back *)
Written == m # 0 /\ sc = 0 => LET q == Parse(IntText(X)) IN q.c = 0 /\ Cmp(q.x, X) = 0
Hexed == LET b == <<(m + 400) % 256, (m * m) % 256>> IN HexOk(ToHex(b)) /\ UnHex(ToHex(b)) = b
D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Day(y, mo, d) == DayOf(<<48 + (y \div 1000), 48 + ((y \div 100) % 10)>> \o D2(y % 100) \o <<45>> \o D2(mo) \o <<45>> \o D2(d))
Calendar == LET y == 1970 + (m * 7) mo == 1 + ((m + 400) % 12)
            IN  y > 0 /\ y < 9999 =>
                /\ Day(1970, 1, 1) = 0 /\ Day(2000, 3, 1) = 11017
                /\ (mo < 12 => Day(y, mo + 1, 1) = Day(y, mo, MonthLen(y, mo)) + 1)
                /\ Day(y, 12, 31) + 1 = Day(y + 1, 1, 1)
Cut == LET t == <<97, 230, 151, 165, 98, 32, 32>> n == p + s
       IN  \A k \in CutAt(t, n, TRUE) : Valid(Cp(SubSeq(t, 1, k))) /\ k <= n /\ (k < n => n \in {2, 3})
=============================================================================
