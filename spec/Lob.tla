-------------------------------- MODULE Lob --------------------------------
(***************************************************************************)
(* Large objects (C19): the sessions tasks open with the relay service,    *)
(* which values returned by functions are admitted, and the registration   *)
(* of data in the datastore on behalf of a transaction.                    *)
(*                                                                         *)
(*   st.relay  is there a relay service     st.mock  fixed tags             *)
(*   st.tasks  task -> [tx, s session or 0, closing: "", "d" or "e"]        *)
(*   st.sess   session -> [task, objs, open]                                *)
(*   st.txs    transaction -> [p pool or 0, over]                           *)
(*   st.pools  pool -> [tx, "open" / "rel" / "gone"]                        *)
(*   st.blobs  ids of data in the datastore                                 *)
(*   st.last   thread -> what its registration gave (id, or -1 refused)     *)
(*   st.bad    thread -> what the datastore refuses next                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
R(s, v) == {[st |-> s, v |-> v]}

LobInit(a) ==
  [relay |-> a[1] = 1, mock |-> a[2] = 1,
   tasks |-> [k \in DOMAIN a[3] |-> [tx |-> a[3][k], s |-> 0, closing |-> ""]],
   txs |-> [x \in {a[3][k] : k \in DOMAIN a[3]} |-> [p |-> 0, over |-> FALSE]],
   sess |-> NoFun, pools |-> NoFun, blobs |-> {}, last |-> NoFun, bad |-> NoFun]

\* the stand-ins' tags
DTag(tx, id) == id * 1000 + tx
STag(s, id) == (id * 1000 + 500) + s

Task(st, k) == st.tasks[k]
Session(st, k) == st.tasks[k].s
Holders(st, x) == {k \in DOMAIN st.tasks : st.tasks[k].tx = x /\ st.tasks[k].closing # "e"}

\* ---------------------------------------------------------------- what stand-ins observe
Ev(st, o) ==
  LET a == o.a
  IN CASE o.op = "mks" ->    \* a session is opened: by a task that has none, with the identity of its transaction
            IF st.relay /\ a[1] \in DOMAIN st.tasks /\ Task(st, a[1]).s = 0 /\ Task(st, a[1]).closing = "" /\ a[3] = Task(st, a[1]).tx /\ a[2] \notin DOMAIN st.sess
            THEN R([st EXCEPT !.tasks[a[1]].s = a[2], !.sess = Put(@, a[2], [task |-> a[1], objs |-> {}, open |-> TRUE])], <<>>) ELSE {}
       [] o.op = "dps" ->    \* a session is closed: once, when its task disposes of it or ends
            IF a[1] \in DOMAIN st.sess /\ st.sess[a[1]].open /\ Task(st, st.sess[a[1]].task).closing # ""
            THEN R([st EXCEPT !.sess[a[1]].open = FALSE, !.tasks[st.sess[a[1]].task].s = 0], <<>>) ELSE {}
       [] o.op = "dk" -> R([st EXCEPT !.tasks[a[1]].closing = "d"], <<>>)
       [] o.op = "ek" -> R([st EXCEPT !.tasks[a[1]].closing = "e"], <<>>)
       [] o.op = "et" -> R([st EXCEPT !.txs[a[1]].over = TRUE], <<>>)
       [] o.op = "pool" ->   \* the pool of a transaction: one
            IF a[1] \in DOMAIN st.txs /\ st.txs[a[1]].p = 0 /\ Holders(st, a[1]) # {}
            THEN R([st EXCEPT !.txs[a[1]].p = a[2], !.pools = Put(@, a[2], [tx |-> a[1], s |-> "open"])], <<>>) ELSE {}
       [] o.op \in {"reg", "regf"} ->
            LET p == IF o.op = "reg" THEN a[2] ELSE a[1]
            IN IF p \in DOMAIN st.pools /\ st.pools[p].s = "open" /\ o.t \notin DOMAIN st.last
                  /\ (o.op = "reg" => a[1] = st.pools[p].tx /\ a[3] \notin st.blobs)
               THEN IF o.op = "reg" THEN R([st EXCEPT !.blobs = @ \cup {a[3]}, !.last = Put(@, o.t, <<a[3], a[4], a[5], a[6], a[1]>>)], <<>>)
                    ELSE R([st EXCEPT !.last = Put(@, o.t, <<-1>>), !.bad = Drop(@, o.t)], <<>>)
               ELSE {}
       [] o.op = "rel" -> IF a[1] \in DOMAIN st.pools /\ st.pools[a[1]].s = "open" /\ st.txs[st.pools[a[1]].tx].over /\ Holders(st, st.pools[a[1]].tx) = {}
                          THEN R([st EXCEPT !.pools[a[1]].s = "rel"], <<>>) ELSE {}
       [] o.op = "gone" -> IF a[1] \in DOMAIN st.pools /\ st.pools[a[1]].s = "rel" THEN R([st EXCEPT !.pools[a[1]].s = "gone"], <<>>) ELSE {}
       [] o.op = "chan" -> IF a[1] THEN R(st, <<>>) ELSE {}
       [] o.op = "bad" -> R([st EXCEPT !.bad = Put(@, o.t, a[1])], <<>>)
       [] OTHER -> {}

\* ---------------------------------------------------------------- operations
Clear(st, t) == [st EXCEPT !.last = Drop(@, t)]
Unbad(st, t) == [st EXCEPT !.bad = Drop(@, t)]
None(st, t) == t \notin DOMAIN st.last
Bad(st, t, c) == t \in DOMAIN st.bad /\ st.bad[t] = c

UnknownKind == 12
IoError == <<50012, -2>>
Denied == <<50015, -21>>
InvalidRef == 50013

\* the registration made on behalf of transaction tx by thread t
Registered(st, t, tx, kind, what, temp, V(_), failed) ==
  IF t \notin DOMAIN st.last THEN {}
  ELSE IF st.last[t] = <<-1>> THEN R(Clear(st, t), failed)
  ELSE LET r == st.last[t] IN IF r[2] = kind /\ r[3] = what /\ r[4] = temp /\ r[5] = tx THEN R(Clear(st, t), V(r[1])) ELSE {}

Info(e, n) == <<"info", e[1], e[2], n>>

Post(st, o) ==
  LET a == o.a
      k == a[1]
      id == a[4]
      tag == a[5]
      s == Session(st, k)
      tx == Task(st, k).tx
      denied == R(st, Info(Denied, 0))
  IN IF ~st.relay THEN (IF None(st, o.t) THEN R(st, <<"err", UnknownKind, 0, 1>>) ELSE {})
     ELSE IF s = 0 THEN {}     \* evaluating it opens the session
     ELSE IF tag = -1 THEN (IF None(st, o.t) THEN denied ELSE {})
     ELSE IF a[3] = 1 THEN
        IF ~None(st, o.t) THEN {}
        ELSE IF Bad(st, o.t, "t") THEN R(Unbad(st, o.t), Info(Denied, 0))
        ELSE IF tag = DTag(tx, id) THEN R(st, <<a[2], id, 13, tag>>) ELSE denied
     ELSE IF tag # STag(s, id) THEN (IF None(st, o.t) THEN denied ELSE {})
     ELSE IF id \notin st.sess[s].objs THEN (IF None(st, o.t) THEN R(st, <<"err", UnknownKind, 0, 1>>) ELSE {})
     ELSE Registered(st, o.t, tx, "file", "o" \o ToString(id), 1, LAMBDA x : <<a[2], x, 13, -1>>, Info(IoError, 0))

Do(st, o) ==
  LET a == o.a
      t == o.t
  IN CASE o.op \in {"mks", "dps", "dk", "ek", "et", "pool", "reg", "regf", "rel", "gone", "chan", "bad", "lost"} /\ "done" \notin DOMAIN o -> Ev(st, o)
       [] o.op = "sess" -> IF ~None(st, t) THEN {} ELSE IF ~st.relay THEN R(st, <<0>>) ELSE IF Session(st, a[1]) = 0 THEN {} ELSE R(st, <<Session(st, a[1])>>)
       [] o.op = "get" -> LET s == Session(st, a[1]) h == IF s = 0 THEN 0 ELSE 1 IN R(st, <<s, h, h>>)
       [] o.op = "disp" -> IF Task(st, a[1]).closing = "d" /\ Session(st, a[1]) = 0 THEN R([st EXCEPT !.tasks[a[1]].closing = ""], <<0>>) ELSE {}
       [] o.op = "end" -> IF Task(st, a[1]).closing = "e" /\ Session(st, a[1]) = 0 THEN R(st, <<0>>) ELSE {}
       [] o.op = "put" -> LET s == Session(st, a[1]) IN IF s = 0 THEN R(st, <<0>>) ELSE R([st EXCEPT !.sess[s].objs = @ \cup {a[2]}], <<1>>)
       [] o.op = "pre" -> IF st.mock THEN R(st, <<a[2], a[3], 13, -2>>)
                          ELSE IF Bad(st, t, "t") THEN R(Unbad(st, t), <<"err", UnknownKind, 0, 1>>)
                          ELSE R(st, <<a[2], a[3], 13, DTag(Task(st, a[1]).tx, a[3])>>)
       [] o.op \in {"prei", "posti"} -> R(st, <<"int", a[2], 0, 0>>)
       [] o.op = "post" -> Post(st, o)
       [] o.op \in {"reg", "regd", "dup"} ->
            Registered(st, t, Task(st, a[1]).tx, CASE o.op = "reg" -> "file" [] o.op = "regd" -> "data" [] OTHER -> "dup", a[2], a[3], LAMBDA x : <<"id", x, 0, 0>>, Info(IoError, 0))
       [] o.op \in {"res", "und"} -> IF None(st, t) THEN R(st, <<"id", 7777, 0, 0>>) ELSE {}
       [] o.op \in {"find", "data"} ->
            IF Bad(st, t, "g") THEN IF o.op = "find" THEN R(Unbad(st, t), <<"no", ToString(IoError[1])>>) ELSE {}
            ELSE IF a[1] \in st.blobs THEN R(st, <<"path", "f" \o ToString(a[1])>>) ELSE R(st, <<"no", ToString(InvalidRef)>>)
       [] o.op = "out" -> IF Bad(st, t, "t") THEN R(Unbad(st, t), <<"refused", 0, 0, 0>>) ELSE R(st, <<a[2], a[3], a[4], DTag(Task(st, a[1]).tx, a[4])>>)
       [] o.op = "endtx" -> IF st.txs[a[1]].over THEN R(st, <<0>>) ELSE {}
       [] o.op = "fin" ->   \* nothing is left open
            IF (\A s \in DOMAIN st.sess : ~st.sess[s].open) /\ (\A p \in DOMAIN st.pools : st.pools[p].s = "gone") THEN R(st, <<0>>) ELSE {}
       [] OTHER -> {}
Never(st, o) == FALSE
============================================================================
