-------------------------------- MODULE Auth --------------------------------
(* C08: rights on one table. s.users: the named users that hold rights and what they hold; s.pub: what everybody holds.
   Holding "control" means holding every right, and is kept as the single right "control". *)
EXTENDS Naturals, Sequences, FiniteSets
Actions == {"control", "select", "insert", "update", "delete"}
SetOf(q) == {q[i] : i \in 1..Len(q)}
Add(S, A) == IF "control" \in S THEN S ELSE IF "control" \in A THEN {"control"} ELSE S \cup A
Remove(S, A) == IF "control" \in A THEN {} ELSE S \ A
Covers(S, A) == "control" \in S \/ A \subseteq S
Held(s, u) == IF u \in DOMAIN s.users THEN s.users[u] ELSE {}
\* keep only users that hold something
Put(s, u, R) == LET d == IF R = {} THEN DOMAIN s.users \ {u} ELSE DOMAIN s.users \cup {u} IN
                [s EXCEPT !.users = [x \in d |-> IF x = u THEN R ELSE s.users[x]]]
Keep(s, U) == [s EXCEPT !.users = [x \in DOMAIN s.users \cap U |-> s.users[x]]]
Allowed(s, u, A) == \A a \in A : Covers(s.pub, {a}) \/ Covers(Held(s, u), {a})

AInit(a) == [users |-> [x \in {} |-> {}], pub |-> {}, scratch |-> {}]
\* what an observer sees of a set: what it contains, and for each question whether it covers it
AStep(s, o, v) ==
  LET keep(b) == IF b THEN {s} ELSE {} IN
  CASE o.op = "grant"   -> {Put(s, o.a[1], Add(Held(s, o.a[1]), SetOf(o.a[2])))}
    [] o.op = "revoke"  -> {Put(s, o.a[1], Remove(Held(s, o.a[1]), SetOf(o.a[2])))}
    [] o.op = "drop"    -> {Put(s, o.a[1], {})}
    [] o.op = "only"    -> {[Keep(s, {o.a[1]}) EXCEPT !.pub = {}]}
    [] o.op = "pgrant"  -> {[s EXCEPT !.pub = Add(@, SetOf(o.a[1]))]}
    [] o.op = "prevoke" -> {[s EXCEPT !.pub = Remove(@, SetOf(o.a[1]))]}
    [] o.op = "pclear"  -> {[s EXCEPT !.pub = {}]}
    [] o.op = "reload"  -> {s}            \* written to the table's stored definition and read back
    [] o.op = "allows"  -> keep(v = Allowed(s, o.a[1], SetOf(o.a[2])))
    [] o.op = "find"    -> keep(SetOf(v) = Held(s, o.a[1]) /\ Len(v) = Cardinality(SetOf(v)))
    [] o.op = "users"   -> keep(SetOf(v) = DOMAIN s.users /\ Len(v) = Cardinality(DOMAIN s.users))
    [] o.op = "pub"     -> keep(SetOf(v) = s.pub /\ Len(v) = Cardinality(s.pub))
    [] o.op = "covers"  -> keep(v = Covers(Held(s, o.a[1]), SetOf(o.a[2])))
    [] o.op = "has"     -> keep(v = (o.a[2] \in Held(s, o.a[1])))
    [] o.op = "pallow"  -> keep(v = Covers(s.pub, {o.a[1]}))
    [] o.op = "same"    -> keep(v = (Held(s, o.a[1]) = Held(s, o.a[2])))
    [] OTHER -> {}
=============================================================================
