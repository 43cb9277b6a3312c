----------------------------- MODULE StorageMC -----------------------------
(* sessions 1..NS use the tables, thread 9 is the maintenance; bounded number of operations *)
EXTENDS Storage
CONSTANTS NS, MaxOps
VARIABLES st, pend, ops, gone, bad, pin    \* pin: marked entry -> scopes that were using its table when it was marked
vars == <<st, pend, ops, gone, bad, pin>>
Ids == {1, 2}
Table(e) == IF e = 2 THEN 1 ELSE e
Users(s, e) == {k \in DOMAIN s.sc : Table(e) \in s.sc[k]}
Pin == pin' = [e \in Ids |-> IF e \in DOMAIN st'.ent THEN (IF st'.ent[e].del /\ e \in DOMAIN st.ent THEN (IF st.ent[e].del THEN pin[e] \cap Users(st', e) ELSE Users(st', e)) ELSE {}) ELSE {}]

Lists == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Op(t, op, a) == [op |-> op, a |-> a, t |-> t]
Menu(t) ==
  (IF t \notin DOMAIN st.ul THEN {} ELSE {Op(t, "urel", <<t>>)} \cup {Op(t, "usub", <<t, q>>) : q \in {q \in Lists : Rng(q) \subseteq Held(st, t)}})
  \cup {Op(t, "uadd", <<t, q>>) : q \in Lists}
  \cup (IF 10 + t \in DOMAIN st.sl THEN {Op(t, "srel", <<10 + t>>)} \cup {Op(t, "ref", <<20 + t, e>>) : e \in {e \in Rng(st.sl[10 + t]) : e \in DOMAIN st.ent /\ st.ent[e].name # ""}}
        ELSE {Op(t, "sget", <<10 + t, q, p>>) : q \in Lists, p \in {0, t}})
  \cup (IF 20 + t \in DOMAIN st.sc THEN {Op(t, "scend", <<20 + t>>)} ELSE {})
  \cup {Op(t, "ref", <<20 + t, e>>) : e \in {e \in Held(st, t) : e \in DOMAIN st.ent /\ st.ent[e].name # ""}}
  \cup {Op(t, "mark", <<e>>) : e \in {e \in Held(st, t) : e \in DOMAIN st.ent /\ st.ent[e].name # ""}}

Init == /\ st = [Empty EXCEPT !.ent = (1 :> NewEnt("t", "", TRUE, 0, "")) @@ (2 :> NewEnt("i", "k", FALSE, 1, "")),
                              !.names = ("t" :> 1) @@ ("i" :> 2), !.keys = ("t" :> 1) @@ ("k" :> 2), !.cand = {1, 2}]
        /\ pend = NoFun /\ ops = 0 /\ gone = <<>> /\ bad = FALSE /\ pin = [e \in Ids |-> {}]

Call == /\ ops < MaxOps
        /\ \E t \in (1..NS) \cup {9} :
             /\ t \notin DOMAIN pend
             /\ \E o \in (IF t = 9 THEN {Op(9, "maint", <<>>)} ELSE Menu(t)) : pend' = Put(pend, t, o)
        /\ ops' = ops + 1 /\ UNCHANGED <<st, gone, bad, pin>>
Step == \E t \in DOMAIN pend : st' \in Micro(st, pend[t]) /\ Pin /\ UNCHANGED <<pend, ops, gone, bad>>
Done == \E t \in DOMAIN pend : \E r \in GApply(st, pend[t]) : st' = r.st /\ pend' = Drop(pend, t) /\ Pin /\ UNCHANGED <<ops, gone, bad>>
Del == /\ HasW(st, 9) /\ st.w[9].ph = "del"
       /\ LET e == st.w[9].cur IN
          \E r \in GApply(st, Op(9, "del", <<Key(st.ent[e])>>)) :
             /\ st' = r.st
             /\ gone' = IF r.v = <<"error">> THEN gone ELSE Append(gone, e)
             /\ bad' = (bad \/ pin[e] # {} \/ (st.ent[e].prim /\ st.ent[e].ref > 0) \/ ~st.ent[e].del)
             /\ Pin
       /\ UNCHANGED <<pend, ops>>
Next == Call \/ Step \/ Done \/ Del
Spec == Init /\ [][Next]_vars

\* holders of e right now
XHolders(e) == {u \in DOMAIN st.ul : e \in st.ul[u] /\ ~(u \in DOMAIN st.w /\ u \in DOMAIN pend /\ pend[u].op \in {"usub", "urel"} /\ e \notin Rng(st.w[u].left) /\ (pend[u].op = "urel" \/ e \in Rng(pend[u].a[2])))}
              \cup {t \in DOMAIN st.w : t \in DOMAIN pend /\ pend[t].op = "uadd" /\ e \in Rng(st.w[t].taken)}
RECURSIVE Occ(_, _)
Occ(q, e) == IF q = <<>> THEN 0 ELSE (IF Head(q) = e THEN 1 ELSE 0) + Occ(Tail(q), e)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
SHolders(e) == LET f == [t \in (1..NS) |->
                    IF t \in DOMAIN pend /\ t \in DOMAIN st.w /\ pend[t].op = "srel" THEN Occ(st.w[t].left, e)
                    ELSE (IF 10 + t \in DOMAIN st.sl THEN Occ(st.sl[10 + t], e) ELSE 0)
                         + (IF t \in DOMAIN pend /\ t \in DOMAIN st.w /\ pend[t].op = "sget" THEN Occ(st.w[t].taken, e) ELSE 0)]
               IN Sum(f, 1..NS)
Exclusion == \A e \in DOMAIN st.ent : /\ st.ent[e].x = (Cardinality(XHolders(e)) = 1)
                                      /\ Cardinality(XHolders(e)) <= 1
                                      /\ st.ent[e].s = SHolders(e)
                                      /\ ~(st.ent[e].x /\ st.ent[e].s > 0)
References == \A e \in DOMAIN st.ent : st.ent[e].ref = Cardinality({k \in DOMAIN st.sc : e \in st.sc[k]})
NeverInUse == ~bad
Once == \A i, j \in 1..Len(gone) : gone[i] = gone[j] => i = j
OnlyMarked == \A e \in Ids \ DOMAIN st.ent : e \in Rng(gone)
NamesFit == /\ \A n \in DOMAIN st.names : st.names[n] \in DOMAIN st.ent /\ st.ent[st.names[n]].name = n
            /\ \A e \in DOMAIN st.ent : st.ent[e].name # "" => st.ent[e].name \in DOMAIN st.names
            /\ \A e \in DOMAIN st.ent : Key(st.ent[e]) \in DOMAIN st.keys
\* a finished maintenance run leaves no marked table that was free all the time, unless the store refused
Swept == [][\A t \in {9} : (t \in DOMAIN pend /\ t \notin DOMAIN pend' /\ NS = 0 /\ Len(gone) = 2) => DOMAIN st.ent = {}]_vars
============================================================================
