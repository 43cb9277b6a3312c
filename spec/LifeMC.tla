------------------------------ MODULE LifeMC ------------------------------
(* any two threads setting the status and recording errors, step by step *)
EXTENDS Life
CONSTANTS NT, MaxOps
VARIABLES st, pend, ops
vars == <<st, pend, ops>>
Op(t, op, a) == [op |-> op, a |-> a, t |-> t]
Menu(t) == {Op(t, "tset", <<k>>) : k \in Kinds} \cup {Op(t, "terr", <<c>>) : c \in {0, 1}} \cup {Op(t, "rerr", <<c>>) : c \in {1, 2}}
           \cup {Op(t, "serr", <<c, s>>) : c \in {3, InactiveCode}, s \in {-1, 1}} \cup {Op(t, "rst", <<s>>) : s \in {-1, -2}}
Init == st = Start /\ pend = NoFun /\ ops = 0
Call == /\ ops < MaxOps /\ \E t \in 1..NT : t \notin DOMAIN pend /\ \E o \in Menu(t) : pend' = Put(pend, t, o)
        /\ ops' = ops + 1 /\ st' = st
Step == \E t \in DOMAIN pend : st' \in Micro(st, pend[t]) /\ UNCHANGED <<pend, ops>>
Done == \E t \in DOMAIN pend : \E r \in Do(st, pend[t]) : st' = r.st /\ pend' = Drop(pend, t) /\ ops' = ops
Next == Call \/ Step \/ Done
Spec == Init /\ [][Next]_vars
EdgesOnly == [][st'.ts = st.ts \/ Allowed(st.ts, st'.ts)]_vars
TerminalStays == [][st.ts \in Terminal => (st'.ts = st.ts \/ st'.ts = Unknown)]_vars
NoWayBack == [][(st.ts = Aborted => st'.ts \notin Committed) /\ (st.ts \in Committed => st'.ts \notin {Aborted, GoingToAbort, Active})]_vars
FirstErrorSticks == [][(st.te > 0 => st'.te = st.te) /\ (st.re > 0 => st'.re = st.re) /\ (st.rs # 0 => st'.rs = st.rs)]_vars
NothingLost == \A t \in DOMAIN pend : Do(st, pend[t]) # {} \/ Micro(st, pend[t]) # {}
============================================================================
