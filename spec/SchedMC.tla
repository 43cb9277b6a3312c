------------------------------ MODULE SchedMC ------------------------------
(* two threads issuing requests on one transaction, everything the workers may do in between *)
EXTENDS Sched
CONSTANTS Set
VARIABLES st, pend, todo
vars == <<st, pend, todo>>

X(J, steps, cap, kind, prep) == [op |-> "exec", a |-> <<1, J, steps, cap, kind, prep, 0>>]
C(J, k) == [op |-> "commit", a |-> <<1, J, k>>]
A == [op |-> "abort", a |-> <<1>>]
One == << <<1, <<>>, <<>> >> >>
Two == << <<2, <<>>, <<>> >> >>
Chain == << <<1, <<>>, <<>> >>, <<1, <<0>>, <<>> >> >>
Sub == << <<1, <<>>, <<>> >>, <<1, <<>>, <<0>> >> >>
Programs ==
  CASE Set = "term" -> {<< <<x>>, <<y>> >> : x \in {X(1, Two, 1, "dag", 0), X(1, One, 2, "write", 0), X(1, One, 2, "write", 1), X(1, One, 0, "custom", 0)}, y \in {A, C(8, "a"), C(8, "s")}}
                       \cup {<< <<X(1, One, 1, "custom", 0)>>, <<A>>, <<C(8, "a")>> >>, << <<C(8, "s")>>, <<A>>, <<C(9, "a")>> >>}
    [] Set = "steps" -> {<< <<X(1, s, 1, "dag", 0)>> >> : s \in {Two, Chain, Sub}} \cup {<< <<X(1, Chain, 1, "dag", 0)>>, <<y>> >> : y \in {A, C(8, "s")}}
    [] Set = "ddl" -> {<< <<X(1, One, 2, "write", 0)>>, <<[op |-> "xlock", a |-> <<>>], [op |-> "xunlock", a |-> <<>>]>> >>, << <<X(1, One, 1, "dag", 1), A>>, <<[op |-> "xlock", a |-> <<>>]>> >>}
Init == /\ todo \in Programs /\ pend = NoFun
        /\ st = Start(<<1>>, 2)
Call == \E t \in DOMAIN todo : /\ t \notin DOMAIN pend /\ todo[t] # <<>>
                               /\ pend' = Put(pend, t, Head(todo[t]) @@ [t |-> t, done |-> FALSE])
                               /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ st' = st
Ret == \E t \in DOMAIN pend : \E r \in Do(st, pend[t]) : st' = r.st /\ pend' = Drop(pend, t) /\ todo' = todo
Tau == st' \in Silent(st, pend) /\ UNCHANGED <<pend, todo>>
O(op, a) == [op |-> op, a |-> a, t |-> 0]
JEvents(J) == LET j == st.job[J] IN
  {O("act", <<J, s>>) : s \in Steps(j)} \cup {O("ct", <<J, s>>) : s \in Steps(j)} \cup {O("de", <<J, s>>) : s \in Steps(j)} \cup {O("done", <<J>>)}
  \cup {O("cp", <<J, s, 0>>) : s \in Steps(j)} \cup {O("tb", <<J, s, k>>) : s \in Steps(j), k \in {0, 1, 100}} \cup {O("te", <<J, r[1], r[2]>>) : r \in j.run}
  \cup (IF j.run # {} /\ j.fl = 0 THEN {O("fl", <<J>>)} ELSE {})
Events == UNION {JEvents(J) : J \in DOMAIN st.job} \cup {O("ans", <<J>>) : J \in DOMAIN st.com}
          \cup {O("cc", <<1>>), O("ca", <<1>>), O("eng", <<1, TRUE, 5>>), O("eng", <<1, FALSE, 0>>), O("dur", <<5>>)}
\* a run that ends leaving "nothing went wrong" although an error was announced is not looked at further
Sane(o, r) == IF o.op # "te" THEN TRUE ELSE LET f == st.job[o.a[1]].fl IN r.v[1] \in (IF f = 1 THEN {"e", "x"} ELSE {"o", "y"})
Event == \E o \in Events : \E r \in Do(st, o) : Sane(o, r) /\ st' = r.st /\ UNCHANGED <<pend, todo>>
Next == Call \/ Ret \/ Tau \/ Event
Spec == Init /\ [][Next]_vars

Ended == DOMAIN pend = {} /\ (\A t \in DOMAIN todo : todo[t] = <<>>) /\ Do(st, O("end", <<>>)) # {}
T1 == st.tx[1]
AtMostOnce == T1.cc + T1.ca <= 1 /\ (T1.cc = 1 => T1.term = "commit") /\ (T1.ca = 1 => T1.term = "abort")
\* nobody is inside when the transaction ends, nobody gets in afterwards
Alone == [][(st'.tx[1].ca > T1.ca \/ st'.tx[1].cc > T1.cc) => Running(st, 1) = {}]_vars
Closed == [][T1.term # "no" => Running(st', 1) \subseteq Running(st, 1) \cup T1.pre]_vars
OneDecision == [][T1.term # "no" => st'.tx[1].term = T1.term]_vars
Durable == [][\A J \in DOMAIN st.com : st'.com[J].ph = "ok" /\ st.com[J].k = "s" => st.ann >= T1.mk]_vars
AnsweredOnce == [][\A J \in DOMAIN st.com : st.com[J].ph \in {"over", "ok", "err"} => st'.com[J] = st.com[J]]_vars
DoneOnce == [][\A J \in DOMAIN st.job : st.job[J].ph = "done" => st'.job[J].ph = "done" /\ st'.job[J].run = {} /\ st'.job[J].fin = st.job[J].fin]_vars
InOrder == \A J \in DOMAIN st.job : LET j == st.job[J] IN j.kind = "dag" =>
             \A s \in Steps(j) : /\ s \in j.ct => (\A u \in AllUps(j, s) : u \in j.ct) /\ s \in j.act
                                 /\ s \in j.de => s \in j.ct
                                 /\ \A u \in AllUps(j, s) : ((\E r \in j.run \cup j.fin : r[1] = s) => ~\E r \in j.run : r[1] = u)
\* nothing waits forever
Stuck == ~Ended /\ (\A o \in Events : \A r \in Do(st, o) : ~Sane(o, r) \/ r.st = st) /\ Silent(st, pend) = {} /\ (\A t \in DOMAIN pend : Do(st, pend[t]) = {})
         /\ (\A t \in DOMAIN todo : t \in DOMAIN pend \/ todo[t] = <<>>)
NoStuck == ~Stuck
============================================================================
