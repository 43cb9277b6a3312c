------------------------------- MODULE Life -------------------------------
(***************************************************************************)
(* The life cycle of a transaction as reported to users, and the errors    *)
(* recorded for a transaction and a request (C02).                         *)
(*                                                                         *)
(*   st.s    status object under test        st.ts   status of a tx        *)
(*   st.te   error code of the transaction: -1 no error yet                *)
(*   st.re   error code of the request       st.rs   status code of it     *)
(*   st.w    thread -> progress of an operation made of several steps      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Undefined == 0
Init_ == 1
Active == 2
GoingToCommit == 3
CcCommitting == 4
Available == 5
Stored == 6
GoingToAbort == 7
Aborted == 8
Unknown == 9
Kinds == 0..9
Committed == {Available, Stored}
Terminal == {Stored, Aborted, Unknown}

\* docs/internal/tx-state.md
Edges ==
  {<<Undefined, Init_>>}
  \cup {<<a, b>> : a \in {Init_, Active}, b \in {Active, GoingToCommit, CcCommitting, Available, Stored, GoingToAbort, Aborted}}
  \cup {<<GoingToCommit, b>> : b \in {CcCommitting, Available, Stored, Aborted}}
  \cup {<<CcCommitting, b>> : b \in {Available, Stored, Aborted}}
  \cup {<<Available, Stored>>, <<GoingToAbort, Aborted>>}
  \cup {<<a, Unknown>> : a \in Kinds}
Allowed(a, b) == a # b /\ <<a, b>> \in Edges
Move(a, b) == IF Allowed(a, b) THEN b ELSE a

NoFun == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Start == [s |-> 0, ts |-> 0, te |-> -1, re |-> -1, rs |-> 0, w |-> NoFun]

\* error code 0 means "no error"
First(old, new) == IF old > 0 THEN old ELSE new
W(st, t) == IF t \in DOMAIN st.w THEN st.w[t] ELSE "start"
SetW(st, t, x) == [st EXCEPT !.w = Put(@, t, x)]
EndW(st, t) == [st EXCEPT !.w = Drop(@, t)]
R(s, v) == {[st |-> s, v |-> <<v>>]}
FailTx(st) == [st EXCEPT !.ts = IF @ = Active THEN Aborted ELSE @]

InactiveCode == 2025
InactiveStatus == -24

\* steps of recording an error for a request: status, error, then the transaction's error, then its status
SerrTx(c, s) == c # InactiveCode /\ s # InactiveStatus /\ s <= 0

Micro(st, o) ==
  LET t == o.t
      w == W(st, t)
  IN CASE o.op = "terr" /\ w = "start" -> IF st.te > 0 THEN {} ELSE {SetW([st EXCEPT !.te = o.a[1]], t, "won")}
       [] o.op = "serr" /\ w = "start" -> {SetW([st EXCEPT !.rs = IF @ = 0 THEN o.a[2] ELSE @], t, "status")}
       [] o.op = "serr" /\ w = "status" ->
            IF st.re > 0 THEN {SetW(st, t, "end")}
            ELSE {SetW([st EXCEPT !.re = o.a[1]], t, IF SerrTx(o.a[1], o.a[2]) THEN "mine" ELSE "end")}
       [] o.op = "serr" /\ w = "mine" -> IF st.te > 0 THEN {SetW(st, t, "end")} ELSE {SetW([st EXCEPT !.te = o.a[1]], t, "tx")}
       [] o.op = "serr" /\ w = "tx" -> {SetW(FailTx(st), t, "end")}
       [] OTHER -> {}

Do(st, o) ==
  LET a == o.a
      w == W(st, o.t)
  IN CASE o.op = "set" -> R([st EXCEPT !.s = Move(@, a[1])], 0)
       [] o.op = "setif" -> IF ~Allowed(a[1], a[2]) THEN {} ELSE IF st.s = a[1] THEN R([st EXCEPT !.s = a[2]], 1) ELSE R(st, 0)
       [] o.op = "read" -> R(st, st.s)
       [] o.op = "tset" -> R([st EXCEPT !.ts = Move(@, a[1])], 0)
       [] o.op = "tread" -> R(st, st.ts)
       [] o.op = "terr" -> IF w = "won" THEN R(EndW(FailTx(st), o.t), 1) ELSE IF st.te > 0 THEN R(st, 0) ELSE {}
       [] o.op = "tget" -> R(st, st.te)
       [] o.op = "rerr" -> IF st.re > 0 THEN R(st, 0) ELSE R([st EXCEPT !.re = a[1]], 1)
       [] o.op = "rget" -> R(st, st.re)
       [] o.op = "rst" -> IF st.rs # 0 THEN R(st, 0) ELSE R([st EXCEPT !.rs = a[1]], 1)
       [] o.op = "rstget" -> R(st, st.rs)
       [] o.op = "serr" -> IF w = "end" THEN R(EndW(st, o.t), 0) ELSE {}
       [] OTHER -> {}

LifeTau(st, pend) == UNION {Micro(st, pend[t]) : t \in {x \in DOMAIN pend : ~pend[x].done}}
Never(st, o) == FALSE
LifeInit(a) == Start
===========================================================================
