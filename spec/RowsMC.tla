------------------------------- MODULE RowsMC -------------------------------
(* records written to and read from the forward exchange and the stores in every order *)
EXTENDS Rows
CONSTANTS Limit, Sinks, MaxOps, Unlimited
VARIABLES st, in, out, n, seen
vars == <<st, in, out, n, seen>>
Lim == IF Unlimited THEN -1 ELSE Limit
Op(op, a) == [op |-> op, a |-> a, done |-> FALSE]
\* the k-th operation writes copies of the record <<k>>
Init == st = RowsInit(<<Lim, Sinks, 2, Sinks, Sinks>>) /\ in = [i \in 1..Sinks |-> <<>>] /\ out = [i \in 1..Sinks |-> <<>>] /\ n = 0 /\ seen = <<>>
Write == \E i \in 1..Sinks, k \in 1..3 : \E r \in Do(st, Op("w", <<i - 1, k, <<n>>>>)) : st' = r.st /\ in' = [in EXCEPT ![i] = Push(@, k, <<n>>)] /\ UNCHANGED <<out, seen>>
Read == \E i \in 1..Sinks, k \in 1..3 : \E r \in Do(st, Op("rd", <<i - 1, k>>)) : st' = r.st /\ out' = [out EXCEPT ![i] = Cat(@, r.v[1])] /\ UNCHANGED <<in, seen>>
Fifo == \E k \in 1..3 : \/ \E r \in Do(st, Op("push", <<k, <<n>>>>)) : st' = r.st /\ seen' = seen /\ UNCHANGED <<in, out>>
                        \/ \E r \in Do(st, Op("pop", <<k>>)) : st' = r.st /\ seen' = Cat(seen, r.v[1]) /\ UNCHANGED <<in, out>>
Next == n < MaxOps /\ n' = n + 1 /\ (Write \/ Read \/ Fifo)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE Size(f[k]) + Sum(f, k - 1)
Total == Sum(out, Sinks) + Sum(st.p, Sinks)
\* what went through a sink comes from what was written there, in the same order, and nothing disappears below the limit
RECURSIVE Within(_, _)
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF a[1][2] = b[1][2] THEN a[1][1] <= b[1][1] /\ Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
InOrder == \A i \in 1..Sinks : Within(Cat(out[i], st.p[i]), in[i])
Exactly == Total = IF Unlimited \/ Sum(in, Sinks) < Limit THEN Sum(in, Sinks) ELSE Limit
Counted == st.n = Total
FifoOrder == \A k \in 1..(Len(Cat(seen, st.f)) - 1) : Cat(seen, st.f)[k][2][1] < Cat(seen, st.f)[k + 1][2][1]
=============================================================================
