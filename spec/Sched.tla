------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* Transactions, statements, tasks and query steps as run by worker        *)
(* threads (C01 termination, C03 durable commits, C04 requests, C05 steps).*)
(*                                                                         *)
(* st.tx[T]:  term   "no" | "commit" | "abort": which request took effect  *)
(*            pre    runs that were admitted before the termination and    *)
(*                   have not begun yet                                    *)
(*            cc, ca commits / aborts carried out on the engine            *)
(*            eng    "no" | "ok" | "err": the engine's answer, mk: marker  *)
(*            fl     a statement failed (>= 1 failing, 2 recorded)         *)
(*            own    the request that has to carry the abort out itself    *)
(*            vis    a statement that comes now finds the tx ended         *)
(* st.job[J]: a statement or internal job: steps <<tasks, ups, subs>>,     *)
(*            act/ct/de: steps activated / given tasks / deactivated,      *)
(*            cp: pretasks made, run/fin: task runs in progress/finished,  *)
(*            post: runs over whose departure may still be counted         *)
(* st.com[J]: a commit request                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Range(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a > b THEN a ELSE b

Nobody == <<"-", 0>>
Start(txs, workers) ==
  [tx |-> [T \in Range(txs) |-> [term |-> "no", pre |-> {}, cc |-> 0, ca |-> 0, eng |-> "no", mk |-> 0, fl |-> 0, own |-> Nobody, vis |-> FALSE, refs |-> FALSE]],
   job |-> NoFun, com |-> NoFun, x |-> 0, ann |-> 0, seen |-> 0, n |-> workers, bare |-> NoFun]

\* ---------------------------------------------------------------- steps of a query
NSteps(j) == Len(j.steps)
Steps(j) == 0..(NSteps(j) - 1)
Tasks(j, s) == j.steps[s + 1][1]
Ups(j, s) == Range(j.steps[s + 1][2])
Subs(j, s) == j.steps[s + 1][3]
AllUps(j, s) == Ups(j, s) \cup Range(Subs(j, s))
Downs(j, s) == {d \in Steps(j) : s \in AllUps(j, d)}
MainRuns(j, s) == {<<s, k>> : k \in 0..(Tasks(j, s) - 1)}
PreRuns(j, s) == {<<s, 100 + i>> : i \in 0..(Len(Subs(j, s)) - 1)}

Refusable(st, j) == j.cap > 0 /\ j.t \in DOMAIN st.tx /\ st.tx[j.t].term # "no"
\* a step given tasks after an error was recorded completes without running them
Admitted(st, j) == IF j.t \in DOMAIN st.tx THEN {p[2] : p \in {q \in st.tx[j.t].pre : q[1] = j.id}} ELSE {}
Skipped(st, j, s) == s \in j.ct /\ (j.fl > 0 \/ Refusable(st, j)) /\ MainRuns(j, s) \cap Admitted(st, j) = {} /\ MainRuns(j, s) \cap (j.run \cup j.fin) = {}
Complete(st, j, s) == (s \in j.ct /\ MainRuns(j, s) \subseteq j.fin) \/ Skipped(st, j, s)
UpsComplete(st, j, s) == \A u \in AllUps(j, s) : Complete(st, j, u)
MayActivate(st, j, s) == s \in Steps(j) /\ s \notin j.act /\ AllUps(j, s) \subseteq j.act
MayPrepare(st, j, s, i) == s \in j.act /\ i < Len(Subs(j, s)) /\ <<s, 100 + i>> \notin j.cp /\ UpsComplete(st, j, s)
MayConsume(st, j, s) == /\ s \in j.act /\ s \notin j.ct /\ UpsComplete(st, j, s)
                        /\ Downs(j, s) \subseteq j.act
                        /\ PreRuns(j, s) \subseteq j.fin
MayDeactivate(st, j, s) == /\ s \in j.act /\ s \notin j.de /\ Complete(st, j, s) /\ UpsComplete(st, j, s)
                           /\ \A d \in Downs(j, s) : Complete(st, j, d)
\* nobody went on as if the step were over
StillOpen(j, s) == s \notin j.de /\ Downs(j, s) \cap j.ct = {} /\ \A d \in Downs(j, s) : \A c \in j.cp : c[1] # d
\* runs that could begin now
Startable(j) == IF j.ph = "done" THEN {} ELSE IF j.kind # "dag" THEN (IF j.blk > 0 \/ j.kind \in {"fail", "empty"} \/ (j.dead /\ j.kind = "write") THEN {} ELSE MainRuns(j, 0) \ (j.run \cup j.fin \cup j.lost)) ELSE
                {r \in j.cp \ (j.run \cup j.fin \cup j.lost) : TRUE}
                \cup UNION {{r \in MainRuns(j, s) \ (j.run \cup j.fin \cup j.lost) : StillOpen(j, s)} : s \in j.ct}

\* ---------------------------------------------------------------- transactions
JobsOf(st, T) == {J \in DOMAIN st.job : st.job[J].t = T}
InTx(st, T) == {J \in JobsOf(st, T) : st.job[J].cap > 0}
Running(st, T) == UNION {{<<J, r>> : r \in st.job[J].run} : J \in InTx(st, T)}
Leaving(st, T) == {J \in InTx(st, T) : st.job[J].post > 0}
Sticky(st, T) == {J \in JobsOf(st, T) : st.job[J].cap = 2}
\* runs that may have been admitted without having begun
Admissible(st, T) == UNION {{<<J, r>> : r \in Startable(st.job[J])} : J \in InTx(st, T)}
NoPost(st, T) == [st EXCEPT !.job = [J \in DOMAIN @ |-> IF J \in InTx(st, T) THEN [@[J] EXCEPT !.post = 0] ELSE @[J]]]

\* everything a decision at this moment may have seen: <<state, somebody still inside>>
Views(st, T) ==
  LET adm == Admissible(st, T)
      room == st.n - Cardinality(Running(st, T))
      sets == {p \in SUBSET adm : Cardinality(p) <= room /\ \A a \in p, b \in p : a # b => ~(a[1] \in Sticky(st, T) /\ b[1] \in Sticky(st, T))}
  IN {<<[st EXCEPT !.tx[T].pre = p], p # {} \/ Running(st, T) # {}>> : p \in sets}
     \cup (IF Leaving(st, T) = {} THEN {} ELSE {<<st, TRUE>>})

\* a request to abort takes effect
AbortNow(st, T, who) ==
  IF st.tx[T].term # "no" THEN {st}
  ELSE {IF v[2] THEN [v[1] EXCEPT !.tx[T].term = "abort"] ELSE [v[1] EXCEPT !.tx[T].term = "abort", !.tx[T].own = who] : v \in Views(st, T)}
Mine(st, T, who) == st.tx[T].own = who
AbortDue(st, T) == st.tx[T].term = "abort" /\ st.tx[T].ca = 0 /\ st.tx[T].pre = {} /\ Running(st, T) = {}

\* a request to commit is looked at
CommitNow(st, J) ==
  LET c == st.com[J] T == c.t IN
  IF st.tx[T].term # "no" THEN {[st EXCEPT !.com[J].ph = "inactive"]}
  ELSE {IF v[2] THEN [v[1] EXCEPT !.tx[T].term = "abort", !.com[J].ph = "illegal"]
        ELSE [NoPost(v[1], T) EXCEPT !.tx[T].term = "commit", !.com[J].ph = "commit"] : v \in Views(st, T)}

\* ---------------------------------------------------------------- requests
Pretend(st, j) == [j EXCEPT !.ph = "on"]
DML(j) == j.kind \in {"dag", "write"}
\* the request may have passed validation; a table held exclusively stops it
CanStart(st, j) == j.ph = "on" \/ (j.ph = "called" /\ j.blk = 0 /\ ~(j.dead /\ j.kind # "custom") /\ ~(DML(j) /\ st.x = 1) /\ j.kind \notin {"fail", "empty"})
Started(st, J) == LET j == st.job[J] IN
   [st EXCEPT !.job[J].ph = "on", !.tx = IF DML(j) THEN [@ EXCEPT ![j.t].refs = @ \/ st.tx[j.t].term = "no"] ELSE @]
Inactive(st, T) == st.tx[T].term # "no" \/ st.tx[T].fl > 0

NewJob(st, o) ==
  LET T == o.a[1] IN
  [id |-> o.a[2], t |-> T, steps |-> o.a[3], cap |-> o.a[4], kind |-> o.a[5], prep |-> o.a[6], ph |-> "called", act |-> {}, ct |-> {}, cp |-> {}, de |-> {},
   run |-> {}, fin |-> {}, post |-> 0, fl |-> 0, threw |-> FALSE, xs |-> st.x = 1, blk |-> 0,
   dead |-> T \in DOMAIN st.tx /\ (st.tx[T].vis \/ st.tx[T].fl = 2), lost |-> {}]
AllDone(j) == CASE j.kind = "dag" -> j.de = Steps(j)
                [] OTHER -> MainRuns(j, 0) \subseteq j.fin

Errors(st, j) == (IF j.fl > 0 /\ ~j.threw THEN {"eval"} ELSE {}) \cup (IF j.threw THEN {"eval", "unknown"} ELSE {})
\* results a started job may finish with; {} : it may not finish yet
Results(st, J) ==
  LET j == st.job[J] IN
  IF j.run # {} \/ Admitted(st, j) # {} THEN {}
  ELSE IF AllDone(j) THEN (IF j.fl = 0 /\ ~(j.kind = "dag" /\ \E s \in Steps(j) : Skipped(st, j, s)) THEN {"ok"} ELSE Errors(st, j) \cup (IF Refusable(st, j) THEN {"inactive"} ELSE {}))
  ELSE (IF Refusable(st, j) /\ Startable(j) # {} THEN {"inactive"} \cup Errors(st, j) ELSE {}) \cup (IF j.threw THEN Errors(st, j) ELSE {})

\* results a job may finish with that has not begun any work
Refusals(st, J) ==
  LET j == st.job[J] IN
  CASE Admitted(st, j) # {} -> {}
    [] j.kind = "fail" -> {"unresolved"}
    [] j.kind = "empty" -> (IF j.dead THEN {} ELSE {"ok"}) \cup (IF Inactive(st, j.t) THEN {"inactive"} ELSE {})
    [] DML(j) -> (IF Inactive(st, j.t) THEN {"inactive"} ELSE {}) \cup (IF j.blk > 0 /\ (~Mine(st, j.t, <<"j", J>>) \/ st.tx[j.t].ca = 1) THEN {"illegal"} ELSE {})
    [] j.kind = "custom" -> IF Refusable(st, j) THEN {"inactive"} ELSE {}

\* ---------------------------------------------------------------- states a transaction may show
\* 2 active 3 going to commit 4 handed to the engine 5 available 6 stored 7 going to abort 8 aborted
Answered(st, T) == \E J \in DOMAIN st.com : st.com[J].t = T /\ st.com[J].ph = "ok"
ComKind(st, T) == IF \E J \in DOMAIN st.com : st.com[J].t = T /\ st.com[J].ph \in {"commit", "ok", "err"} /\ st.com[J].k = "s" THEN "s" ELSE "a"
Shown(st, T) ==
  LET x == st.tx[T] IN
  (IF x.fl > 0 THEN {8} ELSE {}) \cup
  CASE x.fl = 2 /\ x.term = "no" -> {8}
    [] x.term = "no" -> {2}
    [] x.term = "abort" -> IF x.ca = 1 THEN {2, 7, 8} ELSE {2, 7}
    [] x.term = "commit" /\ x.cc = 0 -> {2, 3, 4}
    [] x.term = "commit" /\ x.eng = "no" -> {4}
    [] x.term = "commit" /\ x.eng = "err" -> {4, 8}
    [] OTHER -> IF Answered(st, T) THEN {IF ComKind(st, T) = "s" THEN 6 ELSE 5} ELSE {4, IF ComKind(st, T) = "s" THEN 6 ELSE 5}
AtEnd(st, T) ==
  LET x == st.tx[T] IN
  CASE x.term = "no" -> IF x.fl > 0 THEN {8} ELSE {2}
    [] x.term = "abort" -> {8}
    [] x.eng = "ok" -> (IF x.fl > 0 THEN {8} ELSE {}) \cup {IF ComKind(st, T) = "s" THEN 6 ELSE 5}
    [] OTHER -> {8}
Over(st, T) == st.tx[T].ca = 1 \/ st.tx[T].eng # "no"

\* ---------------------------------------------------------------- operations
R(s, v) == {[st |-> s, v |-> <<v>>]}
E(s) == {[st |-> s, v |-> <<>>]}
If(b, s) == IF b THEN E(s) ELSE {}
Free(st) == \A J \in DOMAIN st.job : ~DML(st.job[J]) \/ st.job[J].ph # "on" \/ Results(st, J) # {} 
MaybeHeld(st) == \E J \in DOMAIN st.job : DML(st.job[J]) /\ st.job[J].ph \in {"called", "on"}
SeenX(st) == [st EXCEPT !.x = 1, !.job = [J \in DOMAIN @ |-> [@[J] EXCEPT !.xs = TRUE]]]

Do(st, o) ==
  LET a == o.a IN
  CASE o.op \in {"act", "ct", "cp", "de", "tb", "fl", "te", "done"} /\ a[1] \notin DOMAIN st.job -> {}
    [] o.op = "ans" /\ a[1] \notin DOMAIN st.com -> {}
    [] o.op = "exec" ->
         IF a[2] \notin DOMAIN st.job THEN {} \* made by Tau
         ELSE LET j == st.job[a[2]] IN
              (IF a[7] = 1 THEN (IF j.ph = "done" THEN R(st, 1) ELSE {})
               ELSE IF j.kind \in {"empty"} /\ j.prep = 0 /\ j.ph # "done" THEN {}
               ELSE IF j.blk > 0 /\ j.prep = 0 /\ j.ph # "done" THEN {}
               ELSE IF DML(j) /\ j.prep = 0 /\ j.ph = "called" /\ ~CanStart(st, j) THEN {}
               ELSE R(st, 0))
    [] o.op = "act" -> LET j == st.job[a[1]] IN If(j.kind = "dag" /\ CanStart(st, j) /\ MayActivate(st, j, a[2]), [Started(st, a[1]) EXCEPT !.job[a[1]].act = @ \cup {a[2]}])
    [] o.op = "ct" -> LET j == st.job[a[1]] IN If(j.ph = "on" /\ MayConsume(st, j, a[2]), [st EXCEPT !.job[a[1]].ct = @ \cup {a[2]}])
    [] o.op = "cp" -> LET j == st.job[a[1]] IN If(j.ph = "on" /\ MayPrepare(st, j, a[2], a[3]), [st EXCEPT !.job[a[1]].cp = @ \cup {<<a[2], 100 + a[3]>>}])
    [] o.op = "de" -> LET j == st.job[a[1]] IN If(j.ph = "on" /\ MayDeactivate(st, j, a[2]), [st EXCEPT !.job[a[1]].de = @ \cup {a[2]}])
    [] o.op = "tb" ->
         LET J == a[1] j == st.job[J] r == <<a[2], a[3]>>
             T == j.t
             c == <<J, r>>
             known == T \in DOMAIN st.tx
         IN If(/\ CanStart(st, j)
               /\ IF j.kind = "dag" THEN r \in Startable(j) ELSE r \in MainRuns(j, 0) \ (j.run \cup j.fin \cup j.lost)
               /\ known /\ j.cap > 0 => st.tx[T].term = "no" \/ c \in st.tx[T].pre
               /\ known /\ j.cap = 2 => \A q \in Sticky(st, T) : st.job[q].run = {},
               LET s1 == Started(st, J) s2 == [s1 EXCEPT !.job[J].run = @ \cup {r}]
               IN IF known THEN [s2 EXCEPT !.tx[T].pre = @ \ {c}] ELSE s2)
    [] o.op = "fl" -> LET j == st.job[a[1]] IN
         E([st EXCEPT !.job[a[1]].fl = 1, !.tx = IF j.t \in DOMAIN @ THEN [@ EXCEPT ![j.t].fl = Max2(@, 1)] ELSE @])
    [] o.op = "te" ->
         LET J == a[1] j == st.job[J] r == <<a[2], a[3]>> IN
         IF r \notin j.run THEN {} ELSE
         {[v |-> <<b>>, st |-> LET s1 == [st EXCEPT !.job[J].run = @ \ {r}, !.job[J].post = IF j.cap > 0 THEN (IF @ < st.n THEN @ + 1 ELSE @) ELSE 0,
                               !.job[J].fin = IF b \in {"o", "e"} THEN @ \cup {r} ELSE @,
                               !.job[J].threw = @ \/ b = "x", !.job[J].lost = IF b = "x" THEN @ \cup {r} ELSE @]
                             IN IF b = "e" /\ j.t \in DOMAIN st.tx THEN [s1 EXCEPT !.tx[j.t].fl = 2] ELSE s1] : b \in {"o", "y", "e", "x"}}
    [] o.op = "done" ->
         LET J == a[1] j == st.job[J] IN
         {[v |-> <<w, TRUE>>, st |-> [st EXCEPT !.job[J].ph = "done", !.job[J].post = 0, !.job[J].blk = 0, !.tx = IF j.t \in DOMAIN @ THEN [@ EXCEPT ![j.t].fl = IF j.threw THEN 2 ELSE @, ![j.t].vis = @ \/ j.blk = 1] ELSE @]] :
            w \in (IF j.ph = "on" THEN Results(st, J) ELSE IF j.ph = "called" THEN Refusals(st, J) ELSE {})}
    [] o.op = "commit" -> IF a[2] \in DOMAIN st.com THEN R(st, 0) ELSE {}
    [] o.op = "cc" -> If(st.tx[a[1]].term = "commit" /\ st.tx[a[1]].cc = 0, [st EXCEPT !.tx[a[1]].cc = 1, !.tx[a[1]].vis = TRUE])
    [] o.op = "eng" -> If(st.tx[a[1]].cc = 1 /\ st.tx[a[1]].eng = "no", [st EXCEPT !.tx[a[1]].eng = IF a[2] THEN "ok" ELSE "err", !.tx[a[1]].mk = a[3]])
    [] o.op = "ca" -> If(AbortDue(st, a[1]), [st EXCEPT !.tx[a[1]].ca = 1])
    [] o.op = "ans" ->
         LET J == a[1] c == st.com[J] x == st.tx[c.t] IN
         {[v |-> <<w[1], w[2]>>, st |-> [st EXCEPT !.com[J].ph = w[3], !.tx[c.t].vis = @ \/ w[2] = "illegal"]] : w \in
            CASE c.ph = "inactive" -> {<<"e", "inactive", "over">>}
              [] c.ph = "illegal" -> {<<"e", "illegal", "over">>}
              [] c.ph = "commit" /\ x.eng = "err" -> {<<"e", "conflict", "err">>}
              [] c.ph = "commit" /\ x.eng = "ok" /\ c.k = "a" -> {<<"a", "ok", "ok">>}
              [] c.ph = "commit" /\ x.eng = "ok" /\ c.k = "s" /\ st.ann >= x.mk -> {<<"s", "ok", "ok">>}
              [] OTHER -> {}}
    [] o.op = "abort" -> IF o.t \notin DOMAIN st.bare THEN {}
                         ELSE IF st.bare[o.t] = "mine" /\ st.tx[a[1]].ca = 0 THEN {}
                         ELSE R([st EXCEPT !.bare = Drop(@, o.t), !.tx[a[1]].own = IF st.bare[o.t] = "mine" THEN Nobody ELSE @, !.tx[a[1]].vis = @ \/ st.bare[o.t] # "over"], 0)
    [] o.op = "wait" -> IF (a[1] \in DOMAIN st.job /\ st.job[a[1]].ph = "done") \/ (a[1] \in DOMAIN st.com /\ st.com[a[1]].ph \in {"over", "ok", "err"}) THEN R(st, 0) ELSE {}
    [] o.op = "state" -> {[st |-> st, v |-> <<s>>] : s \in Shown(st, a[1])}
    [] o.op = "dur" -> {[st |-> [st EXCEPT !.ann = Max2(@, a[1])], v |-> v] : v \in {<<>>, <<0>>}}
    [] o.op = "marker" -> {[st |-> [st EXCEPT !.seen = m], v |-> <<m>>] : m \in st.seen..st.ann}
    [] o.op = "xlock" -> (IF st.x = 0 /\ Free(st) THEN R(SeenX(st), 1) ELSE {}) \cup (IF MaybeHeld(st) THEN R(st, 0) ELSE {})
    [] o.op = "xunlock" -> R([st EXCEPT !.x = 0], 0)
    [] o.op = "end" -> IF /\ \A J \in DOMAIN st.job : st.job[J].ph = "done"
                          /\ \A J \in DOMAIN st.com : st.com[J].ph \in {"over", "ok", "err"}
                          /\ \A T \in DOMAIN st.tx : (st.tx[T].term = "abort" => st.tx[T].ca = 1) /\ (st.tx[T].term = "commit" => st.tx[T].eng # "no")
                       THEN {[st |-> st, v |-> <<0, st.ann>>]} ELSE {}
    [] o.op = "fin" -> {[st |-> st, v |-> <<s>>] : s \in AtEnd(st, a[1])}
    [] o.op = "tbl" -> {[st |-> st, v |-> <<st.x = 0, Cardinality({T \in DOMAIN st.tx : st.tx[T].refs /\ ~Over(st, T)})>>]}
    [] OTHER -> {}

\* silent steps: a request becomes known, a decision is taken
Silent(st, p) ==
  UNION {LET o == p[t] a == o.a IN
    CASE o.op = "exec" /\ ~o.done /\ a[2] \notin DOMAIN st.job -> {[st EXCEPT !.job = Put(@, a[2], NewJob(st, o))]}
      [] o.op = "commit" /\ ~o.done /\ a[2] \notin DOMAIN st.com -> {[st EXCEPT !.com = Put(@, a[2], [t |-> a[1], k |-> a[3], ph |-> "called"])]}
      [] o.op = "abort" /\ ~o.done /\ t \notin DOMAIN st.bare ->
           {[s EXCEPT !.bare = Put(@, t, IF st.tx[a[1]].term = "no" /\ Mine(s, a[1], <<"t", t>>) THEN "mine" ELSE IF st.tx[a[1]].term = "no" THEN "took" ELSE "over")] : s \in AbortNow(st, a[1], <<"t", t>>)}
      [] OTHER -> {} : t \in DOMAIN p}
  \cup UNION {IF st.com[J].ph = "called" THEN CommitNow(st, J) ELSE {} : J \in DOMAIN st.com}
  \cup UNION {LET j == st.job[J] IN
              IF j.ph = "called" /\ DML(j) /\ j.xs /\ j.blk = 0 /\ ~j.dead
              THEN AbortNow([st EXCEPT !.job[J].blk = IF st.tx[j.t].term = "no" THEN 1 ELSE 2], j.t, <<"j", J>>) ELSE {} : J \in DOMAIN st.job}
============================================================================
