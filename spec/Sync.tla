------------------------------- MODULE Sync -------------------------------
(* Synchronisation objects offered to the rest of the engine (C15): a latch, a watched value and a usage
   counter, as sequential objects with blocking operations.  kind selects the object of a history. *)
EXTENDS Naturals, Sequences, FiniteSets

\* ---- latch: done
LatchInit(a) == [done |-> a[1]]
LatchApply(s, o) ==
  CASE o.op = "release" -> {[st |-> [done |-> TRUE], v |-> <<>>]}
    [] o.op = "reset"   -> {[st |-> [done |-> FALSE], v |-> <<>>]}
    [] o.op = "wait"    -> IF s.done THEN {[st |-> s, v |-> <<>>]} ELSE {}
    [] o.op = "waitfor" -> IF s.done THEN {[st |-> s, v |-> <<TRUE>>]} ELSE {[st |-> s, v |-> <<FALSE>>]}
    [] OTHER -> {}

\* ---- watched value: val, and the set of waiters that are asleep, i.e. found the value unchanged and have not
\* been notified since.  A store alone need not wake a sleeper; a notification has to wake one / all of them.
WInit(a) == [val |-> a[1], asleep |-> {}]
WWaiting(p) == {t \in DOMAIN p : ~p[t].done /\ p[t].op \in {"wait", "waitfor"}}
WTau(s, p) == {[s EXCEPT !.asleep = @ \cup {t}] : t \in {u \in WWaiting(p) \ s.asleep : s.val = p[u].a[1]}}
WMayBlock(s, o) == o.op = "wait" /\ (s.val = o.a[1] \/ o.t \in s.asleep)
WApply(s, o) ==
  CASE o.op = "store" -> {[st |-> [s EXCEPT !.val = o.a[1]], v |-> <<>>]}
    [] o.op = "load"  -> {[st |-> s, v |-> <<s.val>>]}
    [] o.op = "notify_all" -> {[st |-> [s EXCEPT !.asleep = {}], v |-> <<>>]}
    [] o.op = "notify_one" -> IF s.asleep = {} THEN {[st |-> s, v |-> <<>>]}
                              ELSE {[st |-> [s EXCEPT !.asleep = @ \ {w}], v |-> <<>>] : w \in s.asleep}
    [] o.op = "cas" -> IF s.val = o.a[1]
                       THEN {[st |-> [s EXCEPT !.val = o.a[2]], v |-> <<TRUE, o.a[1]>>]}
                       ELSE {[st |-> s, v |-> <<FALSE, s.val>>]}
    [] o.op = "casw" -> (IF s.val = o.a[1]
                       THEN {[st |-> [s EXCEPT !.val = o.a[2]], v |-> <<TRUE, o.a[1]>>]} ELSE {})
                       \cup {[st |-> s, v |-> <<FALSE, s.val>>]}
    [] o.op = "wait" -> IF s.val # o.a[1] THEN {[st |-> [s EXCEPT !.asleep = @ \ {o.t}], v |-> <<>>]} ELSE {}
    [] o.op = "waitfor" -> IF s.val # o.a[1] THEN {[st |-> [s EXCEPT !.asleep = @ \ {o.t}], v |-> <<TRUE>>]}
                           ELSE {[st |-> [s EXCEPT !.asleep = @ \ {o.t}], v |-> <<FALSE>>]}
    [] OTHER -> {}

===========================================================================
