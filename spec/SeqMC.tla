------------------------------- MODULE SeqMC -------------------------------
(* two transactions drawing from one sequence, step by step, with commits, durability, crashes and restarts *)
EXTENDS Seq
CONSTANTS MaxOps, Step_, Down, Lo, Hi, First, Cyc
VARIABLES st, pend, ops, drawn, acked, safe, ok
  \* drawn: values handed out since the last restart, in order; acked: values handed to a transaction that committed;
  \* safe: values of durable transactions; ok: no value was handed out against the rules
vars == <<st, pend, ops, drawn, acked, safe, ok>>
Inc == IF Down THEN -Step_ ELSE Step_
P == [init |-> First, inc |-> Inc, min |-> Lo, max |-> Hi, cyc |-> Cyc]
TX == {1, 2}
S0 == LET s == [Start EXCEPT !.tx = Put(@, 9, NewTx)]
          s1 == (CHOOSE r \in Create(s, [op |-> "create", a |-> <<9, "s", First, Inc, Lo, Hi, Cyc>>, t |-> 9]) : TRUE).st
          s2 == (CHOOSE r \in Commit(s1, 9) : TRUE).st
      IN [s2 EXCEPT !.d = s2.c]
Rng(q) == {q[i] : i \in 1..Len(q)}
Init == st = S0 /\ pend = NoFun /\ ops = 0 /\ drawn = <<>> /\ acked = [t \in TX |-> {}] /\ safe = [c |-> {}, d |-> {}] /\ ok = TRUE
Op(t, op, a) == [op |-> op, a |-> a, t |-> t]
Call == /\ ops < MaxOps
        /\ \E t \in TX : /\ t \notin DOMAIN pend
                         /\ \E o \in (IF Alive(st, t) THEN {Op(t, "draw", <<t, "s">>), Op(t, "commit", <<t>>), Op(t, "abort", <<t>>)} ELSE {Op(t, "begin", <<t>>)}) : pend' = Put(pend, t, o)
        /\ ops' = ops + 1 /\ UNCHANGED <<st, drawn, acked, safe, ok>>
Step == \E t \in DOMAIN pend :
          /\ pend[t].op = "draw" /\ st' \in Take(st, pend[t])
          /\ LET w == st'.w[t] IN
             /\ drawn' = IF w[1] = "ok" THEN Append(drawn, w[2]) ELSE drawn
             /\ ok' = (ok /\ (w[1] = "ok" => w[2] \in Lo..Hi /\ (Cyc = 0 => w[2] \notin Rng(drawn) /\ w[2] \notin safe.d)))
             /\ acked' = [acked EXCEPT ![t] = IF w[1] = "ok" THEN @ \cup {w[2]} ELSE @]
          /\ UNCHANGED <<pend, ops, safe>>
Done == \E t \in DOMAIN pend : \E r \in Do(st, pend[t]) :
          /\ st' = r.st /\ pend' = Drop(pend, t)
          /\ acked' = [acked EXCEPT ![t] = IF pend[t].op = "begin" THEN {} ELSE @]
          /\ safe' = IF pend[t].op = "commit" /\ r.v[1] = "ok" THEN [safe EXCEPT !.c = @ \cup acked[t]] ELSE safe
          /\ UNCHANGED <<ops, drawn, ok>>
Sync == /\ ops < MaxOps /\ \E r \in Do(st, Op(8, "sync", <<>>)) : st' = r.st
        /\ safe' = [safe EXCEPT !.d = safe.c] /\ ops' = ops + 1 /\ UNCHANGED <<pend, drawn, acked, ok>>
Crash == /\ ops < MaxOps /\ \E r \in Do([st EXCEPT !.w = NoFun], Op(8, "restart", <<>>)) : st' = r.st
         /\ pend' = NoFun /\ drawn' = <<>> /\ acked' = [t \in TX |-> {}] /\ safe' = [safe EXCEPT !.c = safe.d] /\ ops' = ops + 1 /\ ok' = ok
Next == Call \/ Step \/ Done \/ Sync \/ Crash
Spec == Init /\ [][Next]_vars
Rules == ok
\* consecutive values follow the rule
Follows == \A i \in 1..Len(drawn) - 1 : drawn[i + 1] = NextVal(P, 1, drawn[i])
NothingLost == \A t \in DOMAIN pend : Do(st, pend[t]) # {} \/ Take(st, pend[t]) # {}
============================================================================
