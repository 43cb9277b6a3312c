------------------------------- MODULE LobMC -------------------------------
(* two threads evaluate functions, register data and end tasks and transactions in every order the rules allow *)
EXTENDS Lob
CONSTANTS NT, MaxOps
VARIABLES st, pend, ops
vars == <<st, pend, ops>>
Op(t, op, a) == [op |-> op, a |-> a, t |-> t, done |-> FALSE]
E(t, op, a) == [op |-> op, a |-> a, t |-> t]
Live == {k \in DOMAIN st.tasks : st.tasks[k].closing = "" /\ \A t \in DOMAIN pend : pend[t].a[1] # k}
Menu(t) ==
  UNION {{Op(t, "sess", <<k>>), Op(t, "disp", <<k>>), Op(t, "end", <<k>>), Op(t, "put", <<k, 7>>), Op(t, "regd", <<k, "x", 0>>)}
         \cup {Op(t, "post", <<k, "b", 3, 7, g>>) : g \in {-1, DTag(1, 7)} \cup {STag(s, 7) : s \in DOMAIN st.sess}} : k \in Live}
  \cup (IF \E u \in DOMAIN pend : pend[u].op = "endtx" THEN {} ELSE {Op(t, "endtx", <<x>>) : x \in {y \in DOMAIN st.txs : ~st.txs[y].over}})
Init == st = LobInit(<<1, 0, <<1, 1>>>>) /\ pend = NoFun /\ ops = 0
Call == /\ ops < MaxOps /\ \E t \in 1..NT : t \notin DOMAIN pend /\ \E o \in Menu(t) : pend' = Put(pend, t, o)
        /\ ops' = ops + 1 /\ st' = st
NextSess == Cardinality(DOMAIN st.sess) + 1
NextPool == Cardinality(DOMAIN st.pools) + 1
NextId == Cardinality(st.blobs) + 1
Events(t) ==
  LET o == pend[t]
      k == o.a[1]
  IN CASE o.op = "sess" -> {E(t, "mks", <<k, NextSess, 1>>)}
       [] o.op = "disp" -> (IF st.tasks[k].closing = "" THEN {E(t, "dk", <<k>>)} ELSE {E(t, "dps", <<s>>) : s \in DOMAIN st.sess})
       [] o.op = "end" -> (IF st.tasks[k].closing = "" THEN {E(t, "ek", <<k>>)} ELSE {E(t, "dps", <<s>>) : s \in {x \in DOMAIN st.sess : st.sess[x].task = k}} \cup {E(t, e, <<p>>) : p \in DOMAIN st.pools, e \in {"rel", "gone"}})
       [] o.op = "endtx" -> (IF st.txs[k].over THEN {E(t, e, <<p>>) : p \in DOMAIN st.pools, e \in {"rel", "gone"}} ELSE {E(t, "et", <<k>>)})
       [] o.op = "regd" -> {E(t, "pool", <<1, NextPool>>)} \cup {E(t, "reg", <<1, p, NextId, "data", "x", 0>>) : p \in DOMAIN st.pools} \cup {E(t, "regf", <<p>>) : p \in DOMAIN st.pools}
       [] o.op = "post" -> {E(t, "mks", <<k, NextSess, 1>>), E(t, "pool", <<1, NextPool>>)}
                           \cup (IF Session(st, k) # 0 /\ o.a[5] = STag(Session(st, k), 7) /\ 7 \in st.sess[Session(st, k)].objs
                                 THEN {E(t, "reg", <<1, p, NextId, "file", "o7", 1>>) : p \in DOMAIN st.pools} \cup {E(t, "regf", <<p>>) : p \in DOMAIN st.pools} ELSE {})
       [] OTHER -> {}
Event == \E t \in DOMAIN pend : \E e \in Events(t) : \E r \in Ev(st, e) : st' = r.st /\ UNCHANGED <<pend, ops>>
Done == \E t \in DOMAIN pend : \E r \in Do(st, pend[t]) : st' = r.st /\ pend' = Drop(pend, t) /\ ops' = ops
Next == Call \/ Event \/ Done
Spec == Init /\ [][Next]_vars
Open(k) == {s \in DOMAIN st.sess : st.sess[s].open /\ st.sess[s].task = k}
OneSession == \A k \in DOMAIN st.tasks : Cardinality(Open(k)) <= 1
Agrees == \A k \in DOMAIN st.tasks : Open(k) = IF st.tasks[k].s = 0 THEN {} ELSE {st.tasks[k].s}
OnePool == \A x \in DOMAIN st.txs : Cardinality({p \in DOMAIN st.pools : st.pools[p].tx = x}) <= 1
ReleasedLast == \A p \in DOMAIN st.pools : st.pools[p].s # "open" => st.txs[st.pools[p].tx].over /\ Holders(st, st.pools[p].tx) = {}
ClosedStays == [][\A s \in DOMAIN st.sess : ~st.sess[s].open => ~st'.sess[s].open]_vars
ReleasedStays == [][\A p \in DOMAIN st.pools : st.pools[p].s # "open" => st'.pools[p].s # "open"]_vars
NothingStuck == \A t \in DOMAIN pend : Do(st, pend[t]) # {} \/ (\E e \in Events(t) : Ev(st, e) # {})
============================================================================
