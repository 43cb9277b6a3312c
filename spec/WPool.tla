------------------------------ MODULE WPool ------------------------------
(***************************************************************************)
(* Result-set writers of one request (C12).  A fixed number of seats; a    *)
(* seat is the right to use one writer, made when it is first needed and   *)
(* staying with the seat.  Tasks that emit take a seat for each run.       *)
(*                                                                         *)
(*   st.cap  seats (-1: the request has no pool)     st.need tasks emit    *)
(*   st.e    free seats without a writer  st.f  writers in free seats      *)
(*   st.s    seat variable -> None | 0 (a seat, no writer yet) | writer    *)
(*   st.ws   writers made    st.q  writer -> records written, not committed*)
(*   st.n    records committed (count)   st.use  writer -> record in hand  *)
(*   st.gone writers given back to the channel     st.ph open/closing/done *)
(*   st.w    thread -> [p: phase, c: task or "", s: seat, r: result]       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1
NoFun == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Seat(st, x) == IF x \in DOMAIN st.s THEN st.s[x] ELSE None
R(s, v) == {[st |-> s, v |-> <<v>>]}
E0(s) == {[st |-> s, v |-> <<>>]}

\* a = channel's limit (-1: none), configured limit, the request has result records to send, tasks emit, number of tasks
WInit(a) == [cap |-> IF a[3] THEN (IF a[1] >= 0 THEN a[1] ELSE a[2]) ELSE -1, need |-> a[4] /\ a[3],
             e |-> IF a[3] THEN (IF a[1] >= 0 THEN a[1] ELSE a[2]) ELSE 0, f |-> {}, s |-> NoFun, ws |-> {}, q |-> NoFun, n |-> 0,
             use |-> NoFun, gone |-> {}, ph |-> "open", w |-> NoFun]

\* ---- seats
Takes(st) == (IF st.e > 0 THEN {<<[st EXCEPT !.e = @ - 1], 0>>} ELSE {}) \cup {<<[st EXCEPT !.f = @ \ {x}], x>> : x \in st.f}
NoneFree(st) == st.e = 0 /\ st.f = {}
Return(st, x) == IF x = None THEN st ELSE IF x = 0 THEN [st EXCEPT !.e = @ + 1] ELSE [st EXCEPT !.f = @ \cup {x}]

Acquire(st, x) == IF NoneFree(st) THEN R(st, "0")
                  ELSE {[st |-> [t[1] EXCEPT !.s = Put(@, x, t[2])], v |-> <<"1">>] : t \in Takes(st)}
Release(st, x) == R([Return(st, Seat(st, x)) EXCEPT !.s = Put(@, x, None)], "1")
MoveSeat(st, x, y) == IF x = y THEN R(st, "1") ELSE R([st EXCEPT !.s = Put(Put(@, y, Seat(st, x)), x, None)], "1")

\* ---- runs of tasks: seat taken, task runs, seat returned
At(st, t) == IF t \in DOMAIN st.w THEN st.w[t].p ELSE "start"
Take(st, t) == {[x[1] EXCEPT !.w = Put(@, t, [p |-> "got", c |-> "", s |-> x[2], r |-> ""])] : x \in IF st.need THEN Takes(st) ELSE {<<st, None>>}}
GiveBack(st, t) == LET c == st.w[t].c IN
  [Return(st, Seat(st, c)) EXCEPT !.s = Put(@, c, None), !.w[t].p = "end"]
Run(st, t) ==
  IF At(st, t) = "end" THEN R([st EXCEPT !.w = Drop(@, t)], st.w[t].r)
  ELSE IF At(st, t) = "start" /\ st.need /\ NoneFree(st) THEN R(st, "full") ELSE {}
Begin(st, t, c) ==
  IF At(st, t) # "got" \/ Seat(st, c) # None THEN {}
  ELSE {[st |-> [st EXCEPT !.w[t].p = "in", !.w[t].c = c, !.s = Put(@, c, st.w[t].s)], v |-> <<st.w[t].s # None>>]}
Finish(st, t, c, r) ==
  IF At(st, t) # "in" THEN {} ELSE IF st.w[t].c # c THEN {}
  ELSE E0([st EXCEPT !.w[t].p = "out", !.w[t].r = r])

\* ---- writers
Make(st, x, w) ==
  IF Seat(st, x) # 0 \/ w \in st.ws \/ Cardinality(st.ws) >= st.cap \/ st.ph # "open" THEN {}
  ELSE E0([st EXCEPT !.s[x] = w, !.ws = @ \cup {w}, !.q = Put(@, w, <<>>)])
Refuse(st, x) == IF Seat(st, x) # 0 THEN {} ELSE E0(st)
UseBegin(st, x, w, r) ==
  IF w \notin st.ws \/ Seat(st, x) # w \/ w \in DOMAIN st.use \/ w \in st.gone THEN {}
  ELSE E0([st EXCEPT !.use = Put(@, w, r), !.q[w] = Append(@, r)])
Commit(st, w, recs) ==
  IF w \notin st.ws \/ w \in st.gone THEN {}
  ELSE IF recs = <<>> THEN E0(st)
  ELSE IF st.q[w] # recs THEN {}
  ELSE E0([st EXCEPT !.q[w] = <<>>, !.n = @ + Len(recs)])
UseEnd(st, x, w, r) ==
  IF w \notin DOMAIN st.use THEN {} ELSE IF st.use[w] # r THEN {}
  ELSE LET s == [st EXCEPT !.use = Drop(@, w)]
           pending == \E i \in 1..Len(st.q[w]) : st.q[w][i] = r
       IN {[st |-> s, v |-> <<TRUE>>]}
          \cup (IF pending THEN {[st |-> [s EXCEPT !.q[w] = SelectSeq(@, LAMBDA z : z # r)], v |-> <<FALSE>>]} ELSE {})

\* ---- the end of the request
GiveUp(st, w) ==
  IF st.ph # "closing" \/ w \notin st.f \/ w \in st.gone THEN {}
  ELSE IF st.q[w] # <<>> THEN {}
  ELSE E0([st EXCEPT !.f = @ \ {w}, !.gone = @ \cup {w}])
Answer(st) == IF st.ph # "closing" \/ st.f # {} THEN {} ELSE E0([st EXCEPT !.ph = "answered"])

Op(st, o) ==
  LET a == o.a IN
  CASE o.op = "run" -> Run(st, o.t)
    [] o.op = "acq" -> Acquire(st, a[1])
    [] o.op = "rel" -> Release(st, a[1])
    [] o.op = "use" -> R(st, "1") \cup R(st, "x")
    [] o.op = "mv" -> MoveSeat(st, a[1], a[2])
    [] o.op = "res" -> R(st, IF Seat(st, a[1]) = None THEN "0" ELSE "1")
    [] o.op = "has" -> R(st, IF Seat(st, a[1]) > 0 THEN "1" ELSE "0")
    [] o.op = "cap" -> R(st, IF st.cap < 0 THEN "none" ELSE ToString(st.cap))
    [] o.op = "fin" -> IF st.ph = "answered" THEN R([st EXCEPT !.ph = "done"], "1") ELSE {}
    \* what the tasks, the channel and the client are seen to do
    [] o.op = "pb" -> Begin(st, a[1], a[2])
    [] o.op = "pe" -> Finish(st, a[1], a[2], a[3])
    [] o.op = "cr" -> Make(st, a[1], a[2])
    [] o.op = "crf" -> Refuse(st, a[1])
    [] o.op = "ub" -> UseBegin(st, a[1], a[2], a[3])
    [] o.op = "ue" -> UseEnd(st, a[1], a[2], a[3])
    [] o.op = "cm" -> Commit(st, a[1], a[2])
    [] o.op = "rl" -> GiveUp(st, a[1])
    [] o.op = "cb" -> Answer(st)
    [] o.op = "tot" -> {[st |-> st, v |-> <<st.n>>]}
    [] OTHER -> {}
Do(st, o) == Op(st, o)
Silent(st, pend) ==
  UNION {LET o == pend[t] IN
         IF o.done THEN {}
         ELSE IF o.op = "run" /\ At(st, t) = "start" THEN Take(st, t)
         ELSE IF o.op = "run" /\ At(st, t) = "out" THEN {GiveBack(st, t)}
         ELSE IF o.op = "fin" /\ st.ph = "open" THEN {[st EXCEPT !.ph = "closing"]} ELSE {} : t \in DOMAIN pend}
Never(st, o) == FALSE
============================================================================
