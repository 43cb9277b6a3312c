------------------------------- MODULE XchgMC -------------------------------
(* Laws of the exchange specification: for every small multiset of records <<key, sort, value>>, sort direction and
   limit, the obvious delivery is accepted, and an output that loses, repeats, reorders or moves anything is not. *)
EXTENDS Xchg, TLC
CONSTANTS MaxRows
Rows == {-1, 0} \X {-1, 1} \X {0, 1}
VARIABLES bag, desc, limit
vars == <<bag, desc, limit>>
Init == bag = <<>> /\ desc \in {0, 1} /\ limit \in {-1, 0, 1, 2}
Next == Total(bag) < MaxRows /\ \E r \in Rows : bag' = AddTo(bag, r, 1) /\ UNCHANGED <<desc, limit>>
Spec == Init /\ [][Next]_vars

F == [agg |-> FALSE, keys |-> <<1>>, sort |-> <<<<2, desc>>>>, limit |-> limit, parts |-> 1, empty |-> FALSE, types |-> "i", nsrc |-> 1, bag |-> bag, read |-> {}, done |-> {}]
St == [f |-> <<F>>, s |-> <<>>, home |-> <<>>]
\* records of a key in delivery order, one run per record
Flat(b) == LET RECURSIVE go(_)
               go(x) == IF DOMAIN x = {} THEN <<>> ELSE
                 LET m == CHOOSE r \in DOMAIN x : \A q \in DOMAIN x : Lex(SortOf(F, r), SortOf(F, q)) <= 0
                 IN [i \in 1..x[m] |-> <<1, m>>] \o go([q \in DOMAIN x \ {m} |-> x[q]])
           IN go(b)
Cut(s) == IF limit < 0 \/ Len(s) <= limit THEN s ELSE SubSeq(s, 1, limit)
SortedKeys == LET K == Expected(F) IN IF Cardinality(K) = 2 THEN <<<<-1>>, <<0>>>> ELSE IF K = {} THEN <<>> ELSE <<CHOOSE k \in K : TRUE>>
Canon == [i \in 1..Len(SortedKeys) |-> <<SortedKeys[i], Cut(Flat(OfKey(F, SortedKeys[i])))>>]
Read(v) == XStep(St, [op |-> "rd", a |-> <<1, 0>>], v)
Accepted(v) == \E s \in Read(v) : XStep(s, [op |-> "end", a |-> <<1>>], 0) # {}
Accepts == Accepted(Canon)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Complete == \A i \in 1..Len(Canon) :
   /\ ~Accepted(Without(Canon, i))
   /\ \A j \in 1..Len(Canon[i][2]) : ~Accepted([Canon EXCEPT ![i] = <<@[1], Without(@[2], j)>>]) /\ ~Accepted([Canon EXCEPT ![i] = <<@[1], Append(@[2], @[2][j])>>])
Ordered == \A i \in 1..Len(Canon) :
   /\ i < Len(Canon) => ~Accepted([Canon EXCEPT ![i] = Canon[i + 1], ![i + 1] = Canon[i]])
   /\ \A j \in 1..Len(Canon[i][2]) - 1 : LET m == Canon[i][2] IN
        Lex(SortOf(F, m[j][2]), SortOf(F, m[j + 1][2])) # 0 => ~Accepted([Canon EXCEPT ![i] = <<@[1], [m EXCEPT ![j] = m[j + 1], ![j + 1] = m[j]]>>])
Limited == \A i \in 1..Len(Canon) : limit >= 0 => Len(Canon[i][2]) <= limit
=============================================================================
