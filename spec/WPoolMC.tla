----------------------------- MODULE WPoolMC -----------------------------
(* laws of the writer specification: tasks with given numbers of records run, yield when no seat is free, then the request ends *)
EXTENDS WPool
CONSTANTS Cap, Tasks
VARIABLES st, left, fin
vars == <<st, left, fin>>
T == 1..Tasks
C(t) == "c" \o ToString(t)
Rec(t, k) == 10 * t + k
Init == st = WInit(<<Cap, 9, TRUE, TRUE, Tasks>>) /\ left = [t \in T |-> 2] /\ fin = {}
Ev(op, a) == {r.st : r \in Op(st, [op |-> op, a |-> a, t |-> 0])}
Step(t) ==
  \/ /\ At(st, t) = "start" /\ t \notin fin /\ st' \in Take(st, t) /\ UNCHANGED <<left, fin>>
  \/ /\ At(st, t) = "got" /\ st' \in Ev("pb", <<t, C(t)>>) /\ UNCHANGED <<left, fin>>
  \/ /\ At(st, t) = "in" /\ left[t] > 0 /\ Seat(st, C(t)) = 0 /\ \E w \in 1..Cap + 1 : st' \in Ev("cr", <<C(t), w>>) /\ UNCHANGED <<left, fin>>
  \/ /\ At(st, t) = "in" /\ left[t] > 0 /\ Seat(st, C(t)) > 0 /\ st' \in Ev("ub", <<C(t), Seat(st, C(t)), Rec(t, left[t])>>) /\ UNCHANGED <<left, fin>>
  \/ /\ At(st, t) = "in" /\ left[t] > 0 /\ Seat(st, C(t)) > 0
     /\ LET w == Seat(st, C(t)) IN
        /\ w \in DOMAIN st.use
        /\ \/ /\ Len(st.q[w]) > 0 /\ st' \in Ev("cm", <<w, st.q[w]>>) /\ UNCHANGED left
           \/ /\ st.q[w] = <<>> /\ st' \in Ev("ue", <<C(t), w, st.use[w]>>) /\ left' = [left EXCEPT ![t] = @ - 1]
     /\ fin' = fin
  \/ /\ At(st, t) = "in" /\ (st.use = NoFun \/ Seat(st, C(t)) \notin DOMAIN st.use) /\ st' \in Ev("pe", <<t, C(t), IF left[t] > 0 THEN "y" ELSE "o">>) /\ UNCHANGED <<left, fin>>
  \/ /\ At(st, t) = "out" /\ st' = GiveBack(st, t) /\ UNCHANGED <<left, fin>>
  \/ /\ At(st, t) \in {"end", "start"} /\ t \notin fin
     /\ \E r \in Run(st, t) : st' = r.st /\ fin' = IF r.v = <<"o">> THEN fin \cup {t} ELSE fin
     /\ left' = left
Close ==
  \/ /\ fin = T /\ st.ph = "open" /\ st' = [st EXCEPT !.ph = "closing"] /\ UNCHANGED <<left, fin>>
  \/ \E w \in st.ws : st' \in Ev("rl", <<w>>) /\ UNCHANGED <<left, fin>>
  \/ st' \in Ev("cb", <<>>) /\ UNCHANGED <<left, fin>>
Next == (\E t \in T : Step(t)) \/ Close
Spec == Init /\ [][Next]_vars

Held == Cardinality({x \in DOMAIN st.s : st.s[x] # None}) + Cardinality({t \in DOMAIN st.w : st.w[t].p = "got" /\ st.w[t].s # None})
Bounded == Cardinality(st.ws) <= Cap /\ Held + st.e + Cardinality(st.f) + Cardinality(st.gone) = Cap
OneUser == \A x, y \in DOMAIN st.s : x # y /\ st.s[x] > 0 => st.s[x] # st.s[y] /\ st.s[x] \notin st.f
Kept == st.ph = "answered" => st.n = 2 * Tasks /\ st.gone = st.ws
AllDone == ENABLED Next \/ st.ph = "answered"
ReleasedOnce == [][st.gone \subseteq st.gone']_vars
===========================================================================
