------------------------------- MODULE AggMC --------------------------------
(* Laws of aggregation as specified: aggregating parts and combining them agrees with aggregating the whole (so that
   partial aggregation may happen anywhere), every answer is determined, NULLs do not count. *)
EXTENDS Xchg, TLC
CONSTANTS MaxRows
Vals == {-1, 1, 2, 4, 7}
VARIABLES x, y          \* two multisets of one-column records
vars == <<x, y>>
Init == x = <<>> /\ y = <<>>
Next == Total(x) + Total(y) < MaxRows /\ \E v \in Vals : (x' = AddTo(x, <<v>>, 1) /\ y' = y) \/ (y' = AddTo(y, <<v>>, 1) /\ x' = x)
Spec == Init /\ [][Next]_vars
Both == LET D == DOMAIN x \cup DOMAIN y IN [r \in D |-> (IF r \in DOMAIN x THEN x[r] ELSE 0) + (IF r \in DOMAIN y THEN y[r] ELSE 0)]
Fns == {"sum", "count", "count_rows", "max", "min"}
Range == -20..20
Cand(fn) == {NULLV, NANV} \cup (IF fn = "sum" THEN {1000 * i : i \in Range} ELSE Range)
Ans(fn, t, b) == {v \in Cand(fn) : AggOk(fn, t, b, 1, v)}
The(fn, t, b) == CHOOSE v \in Ans(fn, t, b) : TRUE
Combine(fn, p, q) == IF p = NULLV THEN q ELSE IF q = NULLV THEN p ELSE
  CASE fn \in {"sum", "count", "count_rows"} -> IF p = NANV \/ q = NANV THEN NANV ELSE p + q
    [] fn = "max" -> IF p > q THEN p ELSE q
    [] fn = "min" -> IF p < q THEN p ELSE q
Determined == \A fn \in Fns, t \in {"i", "f"} : Cardinality(Ans(fn, t, Both)) = 1
Splits == \A fn \in Fns, t \in {"i", "f"} : The(fn, t, Both) = Combine(fn, The(fn, t, x), The(fn, t, y))
Numbers == {v \in {r[1] : r \in DOMAIN Both} : v >= 0}
Bounds == \A a \in {1000 * i : i \in -5..5} : AggOk("avg", "i", Both, 1, a) => \E v \in Numbers : TRUE /\ 1000 * (Min(Numbers) - 3) <= a /\ a <= 1000 * (Max(Numbers) - 3)
NullOnly == (Numbers = {}) <=> (\A fn \in {"sum", "avg", "max", "min"} : AggOk(fn, "i", Both, 1, NULLV))
=============================================================================
