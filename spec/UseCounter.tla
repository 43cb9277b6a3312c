---------------------------- MODULE UseCounter ----------------------------
(* Usage counters (C15): handles share a counter by copying; the count a handle reports is the number of live
   handles sharing with it.  grp[h] = 0: no such handle; otherwise the group the handle belongs to. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT NH
VARIABLES grp, act
H == 1..NH
Live == {h \in H : grp[h] # 0}
Fresh(g) == CHOOSE x \in 1..(NH + 1) : x \notin {g[h] : h \in H} /\ \A y \in 1..(NH + 1) : y < x => y \in {g[h] : h \in H}
Count(g, h) == Cardinality({k \in H : g[k] = g[h] /\ g[h] # 0})
Counts(g) == [h \in H |-> Count(g, h)]
Do(op, args, g) == grp' = g /\ act' = [op |-> op, args |-> args, res |-> Counts(g)]
Init == grp = [h \in H |-> 0] /\ act = [op |-> "init", args |-> <<>>, res |-> <<>>]
Next ==
  \/ \E h \in H \ Live : Do("new", <<h>>, [grp EXCEPT ![h] = Fresh(grp)])
  \/ \E h \in Live : Do("drop", <<h>>, [grp EXCEPT ![h] = 0])
  \/ \E h \in Live : Do("reset", <<h>>, LET g == [grp EXCEPT ![h] = 0] IN [g EXCEPT ![h] = Fresh(g)])
  \/ \E h \in H \ Live, k \in Live : Do("copy", <<h, k>>, [grp EXCEPT ![h] = grp[k]])
  \/ \E h \in H \ Live, k \in Live : Do("move", <<h, k>>, LET g == [grp EXCEPT ![h] = grp[k], ![k] = 0] IN [g EXCEPT ![k] = Fresh(g)])
  \/ \E h \in Live, k \in Live : Do("assign", <<h, k>>, [grp EXCEPT ![h] = grp[k]])
  \/ \E h \in Live, k \in Live : h # k /\ Do("massign", <<h, k>>, LET g == [grp EXCEPT ![h] = grp[k], ![k] = 0] IN [g EXCEPT ![k] = Fresh(g)])
Spec == Init /\ [][Next]_<<grp, act>>
\* counts of a group's members agree and add up
CountsAgree == \A h, k \in Live : grp[h] = grp[k] => Count(grp, h) = Count(grp, k)
TypeOK == \A h \in H : grp[h] \in 0..(NH + 1) /\ (h \in Live => Count(grp, h) >= 1)
Vw == grp
Export == PrintT("@@" \o ToJson([s |-> grp, a |-> act', t |-> grp']))
===========================================================================
