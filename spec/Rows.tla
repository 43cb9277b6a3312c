------------------------------- MODULE Rows -------------------------------
(***************************************************************************)
(* Stores of records, and the exchange that forwards records to the next   *)
(* step (C13).  Contents are run-length encoded: <<n, record>> stands for  *)
(* n equal records in a row.                                               *)
(*                                                                         *)
(*   st.lim   number of records the exchange lets through (-1 unlimited)   *)
(*   st.n     number of records that went through                          *)
(*   st.p     sink -> records forwarded and not read yet                   *)
(*   st.act   sink -> still in use by its writer                           *)
(*   st.r/i/f record, iterable and fifo store      st.s  single record     *)
(*   st.q     partitions of the result; Gone when cleared                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gone == <<<<0, <<>>>>>>
Min(a, b) == IF a < b THEN a ELSE b
Push(q, n, r) == IF n = 0 THEN q ELSE IF q # <<>> /\ q[Len(q)][2] = r THEN [q EXCEPT ![Len(q)] = <<@[1] + n, r>>] ELSE Append(q, <<n, r>>)
RECURSIVE Take(_, _)
Take(q, n) == IF q = <<>> \/ n = 0 THEN <<>> ELSE <<<<Min(n, q[1][1]), q[1][2]>>>> \o Take(Tail(q), n - Min(n, q[1][1]))
RECURSIVE Rest(_, _)
Rest(q, n) == IF q = <<>> \/ n = 0 THEN q ELSE IF q[1][1] > n THEN <<<<q[1][1] - n, q[1][2]>>>> \o Tail(q) ELSE Rest(Tail(q), n - q[1][1])
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE q[1][1] + Size(Tail(q))
RECURSIVE Cat(_, _)
Cat(a, b) == IF b = <<>> THEN a ELSE Cat(Push(a, b[1][1], b[1][2]), Tail(b))
RECURSIVE All(_)
All(ps) == IF ps = <<>> THEN <<>> ELSE Cat(IF ps[1] = Gone THEN <<>> ELSE ps[1], All(Tail(ps)))

RowsInit(a) ==
  [lim |-> a[1], n |-> 0, p |-> [i \in 1..a[2] |-> <<>>], act |-> [i \in 1..a[2] |-> TRUE],
   r |-> <<>>, i |-> <<>>, f |-> <<>>, s |-> <<>>, q |-> [k \in 1..a[3] |-> <<>>], ok |-> a[4] = a[2] /\ a[5] = a[2]]

A(s, v) == {[st |-> s, v |-> v]}
Popped(q, n) == <<Take(q, n), Size(q) >= n, TRUE>>
Do(st, o) ==
  IF ~st.ok THEN {} ELSE
  CASE o.op = "rapp" -> A([st EXCEPT !.r = Push(@, o.a[1], o.a[2])], <<o.a[2]>>)
    [] o.op = "rall" -> A(st, st.r)
    [] o.op = "rcnt" -> A(st, <<Size(st.r), st.r = <<>>>>)
    [] o.op = "rrst" -> A([st EXCEPT !.r = <<>>], <<0>>)
    [] o.op = "iapp" -> A([st EXCEPT !.i = Push(@, o.a[1], o.a[2])], <<o.a[2]>>)
    [] o.op = "iall" -> A(st, st.i)
    [] o.op = "icnt" -> A(st, <<Size(st.i), st.i = <<>>>>)
    [] o.op = "irst" -> A([st EXCEPT !.i = <<>>], <<0>>)
    [] o.op = "push" -> A([st EXCEPT !.f = Push(@, o.a[1], o.a[2])], <<o.a[2]>>)
    [] o.op = "pop"  -> A([st EXCEPT !.f = Rest(@, o.a[1])], Popped(st.f, o.a[1]))
    [] o.op = "fcnt" -> A(st, <<Size(st.f), st.f = <<>>>>)
    [] o.op = "sset" -> A([st EXCEPT !.s = o.a[1]], <<o.a[1]>>)
    [] o.op = "sget" -> A(st, <<st.s>>)
    [] o.op = "qadd" -> A([st EXCEPT !.q = Append(@, <<>>)], <<Len(st.q)>>)
    [] o.op = "qapp" -> A([st EXCEPT !.q[o.a[1] + 1] = Push(@, o.a[2], o.a[3])], <<o.a[3]>>)
    [] o.op = "qall" -> A(st, All(st.q))
    [] o.op = "qone" -> A(st, st.q[o.a[1] + 1])
    [] o.op = "qclr" -> A([st EXCEPT !.q[o.a[1] + 1] = Gone], <<0>>)
    [] o.op = "qex"  -> A(st, <<o.a[1] < Len(st.q) /\ st.q[o.a[1] + 1] # Gone>>)
    [] o.op = "qcnt" -> A(st, <<Len(st.q), All(st.q) = <<>>>>)
    \* a record is forwarded unless the limit has been reached; the writer is not told
    [] o.op = "w"    -> LET k == IF st.lim < 0 THEN o.a[2] ELSE Min(o.a[2], st.lim - st.n) IN
                        A([st EXCEPT !.p[o.a[1] + 1] = Push(@, k, o.a[3]), !.n = @ + k], <<TRUE>>)
    [] o.op = "rel"  -> A([st EXCEPT !.act[o.a[1] + 1] = FALSE], <<0>>)
    [] o.op = "rd"   -> A([st EXCEPT !.p[o.a[1] + 1] = Rest(@, o.a[2])], Popped(st.p[o.a[1] + 1], o.a[2]))
    [] o.op = "act"  -> A(st, <<st.act[o.a[1] + 1]>>)
    [] o.op = "av"   -> A(st, <<st.p[o.a[1] + 1] # <<>>>>)
    [] OTHER -> {}
Never(st, o) == FALSE

=============================================================================
