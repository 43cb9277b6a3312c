------------------------------ MODULE PagePool ------------------------------
(* The shared page pool (C11).  owned: pages handed out and not given back; free: pages given back and not handed
   out again (still mapped); freed: pages returned to the operating system.  A page identity is created by the
   operating system each time a page is mapped. *)
EXTENDS Naturals, Sequences, FiniteSets
MaxPages == 24
PInit(a) == [ros |-> a[1], owned |-> {}, free |-> {}, freed |-> {}]
Known(s) == s.owned \cup s.free \cup s.freed
PRange(q) == {q[i] : i \in 1..Len(q)}
PApply(s, o) ==
  CASE o.op = "acquire" ->
         {[st |-> [s EXCEPT !.owned = @ \cup {p}, !.free = @ \ {p}], v |-> <<p>>] :
             p \in (IF o.a[1] THEN {} ELSE s.free) \cup ((1..MaxPages) \ Known(s))}
    [] o.op = "release" ->
         IF o.a[1] \notin s.owned THEN {}
         ELSE IF s.ros THEN {[st |-> [s EXCEPT !.owned = @ \ {o.a[1]}, !.freed = @ \cup {o.a[1]}], v |-> <<>>]}
         ELSE {[st |-> [s EXCEPT !.owned = @ \ {o.a[1]}, !.free = @ \cup {o.a[1]}], v |-> <<>>]}
    [] o.op = "end" ->  \* the pool is gone: exactly the pages not owned by anyone were unmapped, each once
         IF /\ Len(o.a[1]) = Cardinality(PRange(o.a[1])) /\ PRange(o.a[1]) = s.free \cup s.freed
            /\ PRange(o.a[2]) = s.owned
         THEN {[st |-> s, v |-> <<>>]} ELSE {}
    [] OTHER -> {}
=============================================================================
