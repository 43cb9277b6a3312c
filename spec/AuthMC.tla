------------------------------- MODULE AuthMC -------------------------------
(* The rights of two users and the public under every grant and revoke, with the laws of C08. *)
EXTENDS Auth
CONSTANT Acts
VARIABLES s, last
Users == {"a", "b"}
Init == s = AInit(0) /\ last = <<"", "", {}>>
Do(op, u, A) == /\ s' \in CASE op = "grant" -> {Put(s, u, Add(Held(s, u), A))} [] op = "revoke" -> {Put(s, u, Remove(Held(s, u), A))}
                              [] op = "pgrant" -> {[s EXCEPT !.pub = Add(@, A)]} [] op = "prevoke" -> {[s EXCEPT !.pub = Remove(@, A)]}
                /\ last' = <<op, u, A>>
Next == \E op \in {"grant", "revoke", "pgrant", "prevoke"}, u \in Users, A \in SUBSET Acts : Do(op, u, A)
Spec == Init /\ [][Next]_<<s, last>>
Ok(st, u, a) == Allowed(st, u, {a})
Sole == \A x \in DOMAIN s.users : s.users[x] # {} /\ ("control" \in s.users[x] => s.users[x] = {"control"})
ControlAll == \A u \in Users : Ok(s, u, "control") => \A a \in Acts : Ok(s, u, a)
Cover == \A u \in Users, A \in SUBSET Acts : Allowed(s, u, A) <=> \A a \in A : Ok(s, u, a)
\* granting gives what was granted and takes nothing; revoking takes nothing else; others are not affected
Effect == [][LET op == last'[1] u == last'[2] A == last'[3] IN
   /\ op = "grant" => /\ Allowed(s', u, A)
                      /\ \A x \in Users, a \in Acts : Ok(s, x, a) => Ok(s', x, a)
                      /\ \A x \in Users \ {u} : Held(s', x) = Held(s, x)
                      /\ \A a \in Acts : (Ok(s', u, a) /\ ~Ok(s, u, a)) => (a \in A \/ "control" \in A)
   /\ op = "revoke" => /\ \A x \in Users \ {u} : Held(s', x) = Held(s, x)
                       /\ s'.pub = s.pub
                       /\ Held(s', u) \subseteq Held(s, u)
                       /\ "control" \in A => Held(s', u) = {}
                       /\ "control" \notin A => Held(s, u) \ A = Held(s', u)
   /\ op \in {"pgrant", "prevoke"} => s'.users = s.users]_<<s, last>>
=============================================================================
