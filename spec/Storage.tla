------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Tables (storages) known to the engine: their names and keys, who holds  *)
(* them for definition changes (exclusively) or data access (shared), who  *)
(* refers to them, and the removal of tables marked for deletion.          *)
(*                                                                         *)
(* st.ent   id -> [name, key, orig, prim, pe, del, x, s, ref]              *)
(*            name/key "" = none; pe = id of the table of an index or 0    *)
(*            del = marked for deletion; x = held exclusively;             *)
(*            s = number of shared holds; ref = number of references       *)
(* st.names, st.keys   look-up tables                                      *)
(* st.cand  entries the next maintenance run looks at                      *)
(* st.ul    exclusive holder -> set of ids                                 *)
(* st.sl    shared holder -> sequence of ids                               *)
(* st.sc    scope of a transaction -> set of ids it refers to              *)
(* st.w     thread -> progress of an operation made of several steps       *)
(*                                                                         *)
(* Acquisitions, releases, definitions and maintenance are not atomic: the *)
(* steps in between are visible to others, and are given by Micro.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rng(q) == {q[i] : i \in 1..Len(q)}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

NoFun == [x \in {} |-> 0]
Empty == [ent |-> NoFun, names |-> NoFun, keys |-> NoFun, cand |-> {}, ul |-> NoFun, sl |-> NoFun, sc |-> NoFun, w |-> NoFun, stop |-> FALSE]

Key(e) == IF e.key # "" THEN e.key ELSE IF e.name # "" THEN e.name ELSE e.orig
NewEnt(name, key, prim, pe, orig) ==
  [name |-> name, key |-> key, orig |-> IF orig # "" THEN orig ELSE name, prim |-> prim, pe |-> pe,
   del |-> name = "", x |-> FALSE, s |-> 0, ref |-> 0]

RECURSIVE Code(_)
Code(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN 2 ^ e + Code(S \ {e})

\* ---- locks
CanX(st, e) == e \in DOMAIN st.ent /\ ~st.ent[e].x /\ st.ent[e].s = 0
CanS(st, e) == e \in DOMAIN st.ent /\ ~st.ent[e].x
TakeX(st, e) == [st EXCEPT !.ent[e].x = TRUE]
TakeS(st, e) == [st EXCEPT !.ent[e].s = @ + 1]
GiveX(st, e) == IF e \in DOMAIN st.ent THEN [st EXCEPT !.ent[e].x = FALSE] ELSE st
GiveS(st, e) == IF e \in DOMAIN st.ent THEN [st EXCEPT !.ent[e].s = @ - 1] ELSE st
Held(st, u) == IF u \in DOMAIN st.ul THEN st.ul[u] ELSE {}

SetW(st, t, w) == [st EXCEPT !.w = Put(@, t, w)]
EndW(st, t) == [st EXCEPT !.w = Drop(@, t)]

\* ---- removing an entry and everything that leads to it
Remove(st, e) ==
  LET n == st.ent[e].name
      k == Key(st.ent[e])
      a == IF n # "" /\ n \in DOMAIN st.names THEN (IF st.names[n] = e THEN Drop(st.names, n) ELSE st.names) ELSE st.names
      b == IF k \in DOMAIN st.keys THEN (IF st.keys[k] = e THEN Drop(st.keys, k) ELSE st.keys) ELSE st.keys
  IN [st EXCEPT !.names = a, !.keys = b, !.ent = Drop(@, e)]

Mark(st, e) ==
  LET n == st.ent[e].name
      k == IF st.ent[e].key # "" THEN st.ent[e].key ELSE n
  IN [st EXCEPT !.names = Drop(@, n), !.ent[e].key = k, !.ent[e].name = "", !.ent[e].del = TRUE]

\* nobody refers to the table the entry belongs to
Deletable(st, e) ==
  IF st.ent[e].prim THEN st.ent[e].ref = 0
  ELSE st.ent[e].pe = 0 \/ st.ent[e].pe \notin DOMAIN st.ent \/ st.ent[st.ent[e].pe].ref = 0

\* ---- internal steps of the operations in progress
HasW(st, t) == t \in DOMAIN st.w
MicroAdd(st, o) ==
  LET t == o.t
      e == o.a[1]
      n == o.a[2]
  IN IF ~HasW(st, t)
     THEN IF e \in DOMAIN st.ent THEN {}
          ELSE {SetW([st EXCEPT !.ent = Put(@, e, NewEnt(n, o.a[3], o.a[4], o.a[5], o.a[6]))], t, [left |-> {"cand", "name", "key"}])}
     ELSE {LET s1 == CASE x = "cand" -> [st EXCEPT !.cand = @ \cup {e}]
                       [] x = "name" -> IF n # "" /\ n \notin DOMAIN st.names THEN [st EXCEPT !.names = Put(@, n, e)] ELSE st
                       [] x = "key" -> IF e \notin DOMAIN st.ent THEN st ELSE LET k == Key(st.ent[e]) IN IF k \notin DOMAIN st.keys THEN [st EXCEPT !.keys = Put(@, k, e)] ELSE st
           IN SetW(s1, t, [left |-> st.w[t].left \ {x}]) : x \in st.w[t].left}

\* acquiring a list: one element after the other; when one cannot be had everything taken is given back
MicroAcq(st, o, shared, held) ==
  LET t == o.t
      q == o.a[2]
      w == IF HasW(st, t) THEN st.w[t] ELSE [i |-> 1, taken |-> <<>>, fail |-> FALSE]
  IN IF w.fail
     THEN {LET s1 == IF shared THEN GiveS(st, w.taken[j]) ELSE GiveX(st, w.taken[j]) IN SetW(s1, t, [w EXCEPT !.taken = Without(@, j)]) : j \in 1..Len(w.taken)}
     ELSE IF w.i > Len(q) THEN {}
     ELSE LET e == q[w.i] IN
          IF e \in held THEN {SetW(st, t, [w EXCEPT !.i = @ + 1])}
          ELSE IF (IF shared THEN CanS(st, e) ELSE CanX(st, e))
               THEN {SetW(IF shared THEN TakeS(st, e) ELSE TakeX(st, e), t, [w EXCEPT !.i = @ + 1, !.taken = Append(@, e)])}
               ELSE {SetW(st, t, [w EXCEPT !.fail = TRUE])}

\* giving back the elements of q, in any order
MicroGive(st, o, q, shared) ==
  LET t == o.t
      w == IF HasW(st, t) THEN st.w[t] ELSE [left |-> q]
  IN {LET s1 == IF shared THEN GiveS(st, w.left[j]) ELSE GiveX(st, w.left[j]) IN SetW(s1, t, [left |-> Without(w.left, j)]) : j \in 1..Len(w.left)}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SeqOf(S \ {e})

MicroScope(st, o) ==
  LET k == o.a[1]
      S == IF k \in DOMAIN st.sc THEN st.sc[k] ELSE {}
  IN {LET s1 == IF e \in DOMAIN st.ent THEN [st EXCEPT !.ent[e].ref = @ - 1] ELSE st IN [s1 EXCEPT !.sc[k] = @ \ {e}] : e \in S}

\* which entries are marked: looked at one by one
MicroList(st, t, w) ==
  IF w.ph # "list" THEN {}
  ELSE {LET s1 == [st EXCEPT !.cand = @ \ {e}]
            here == e \in DOMAIN st.ent
        IN SetW(s1, t, [w EXCEPT !.temp = IF here THEN @ \cup {e} ELSE @,
                                 !.found = IF here THEN (IF st.ent[e].del THEN @ \cup {e} ELSE @) ELSE @]) : e \in st.cand}
       \cup (IF st.cand = {} THEN {SetW([st EXCEPT !.cand = w.temp], t, [w EXCEPT !.ph = "each", !.temp = {}])} ELSE {})

MW0 == [ph |-> "list", temp |-> {}, found |-> {}, cur |-> 0, done |-> {}]
MicroMaint(st, o) ==
  LET t == o.t
      w == IF HasW(st, t) THEN st.w[t] ELSE MW0
  IN CASE w.ph = "list" -> MicroList(st, t, w)
       [] w.ph = "each" ->
            {LET w1 == [w EXCEPT !.found = @ \ {e}] IN
             IF e \notin DOMAIN st.ent THEN SetW(st, t, w1)
             ELSE IF ~Deletable(st, e) THEN SetW(st, t, w1)
             ELSE IF st.stop THEN SetW(st, t, [w EXCEPT !.found = {}])
             ELSE SetW(st, t, [w1 EXCEPT !.ph = "del", !.cur = e]) : e \in w.found}
       [] w.ph = "rm" -> {SetW(IF w.cur \in DOMAIN st.ent THEN Remove(st, w.cur) ELSE st, t, [w EXCEPT !.ph = "each", !.done = @ \cup {w.cur}, !.cur = 0])}
       [] OTHER -> {}

Micro(st, o) ==
  CASE o.op = "add" -> MicroAdd(st, o)
    [] o.op = "uadd" -> MicroAcq(st, o, FALSE, Held(st, o.a[1]))
    [] o.op = "sget" -> MicroAcq(st, o, TRUE, Held(st, o.a[3]))
    [] o.op = "usub" -> MicroGive(st, o, o.a[2], FALSE)
    [] o.op = "urel" -> MicroGive(st, o, SeqOf(Held(st, o.a[1])), FALSE)
    [] o.op = "srel" -> MicroGive(st, o, IF o.a[1] \in DOMAIN st.sl THEN st.sl[o.a[1]] ELSE <<>>, TRUE)
    [] o.op = "scend" -> MicroScope(st, o)
    [] o.op = "mlist" -> MicroList(st, o.t, IF HasW(st, o.t) THEN st.w[o.t] ELSE MW0)
    [] o.op = "maint" -> MicroMaint(st, o)
    [] OTHER -> {}

Is(s, v) == {[st |-> s, v |-> v]}

GApply(st, o) ==
  LET t == o.t
      a == o.a
      w == IF HasW(st, t) THEN st.w[t] ELSE 0
  IN
  CASE o.op = "add" -> IF HasW(st, t) THEN (IF w.left = {} THEN Is(EndW(st, t), <<TRUE>>) ELSE {})
                       ELSE IF a[1] \in DOMAIN st.ent THEN Is(st, <<FALSE>>) ELSE {}
    [] o.op = "mark" -> IF a[1] \in DOMAIN st.ent THEN Is(Mark(st, a[1]), <<TRUE>>) ELSE Is(st, <<FALSE>>)
    [] o.op = "rm" -> IF a[1] \in DOMAIN st.ent THEN Is(Remove(st, a[1]), <<TRUE>>) ELSE Is(st, <<FALSE>>)
    [] o.op = "has" -> Is(st, <<a[1] \in DOMAIN st.ent>>)
    [] o.op = "info" -> IF a[1] \in DOMAIN st.ent
                        THEN LET e == st.ent[a[1]] IN Is(st, <<e.name, Key(e), e.orig, e.prim, e.pe, e.del, ~e.x /\ e.s = 0, ~e.x, e.ref>>)
                        ELSE Is(st, <<>>)
    [] o.op = "byname" -> Is(st, <<IF a[1] \in DOMAIN st.names THEN st.names[a[1]] ELSE 0>>)
    [] o.op = "key" -> Is(st, <<IF a[1] \notin DOMAIN st.names THEN "" ELSE IF st.names[a[1]] \notin DOMAIN st.ent THEN "" ELSE Key(st.ent[st.names[a[1]]])>>)
    [] o.op = "idx" -> Is(st, <<IF a[1] \notin DOMAIN st.keys THEN "" ELSE IF st.keys[a[1]] \notin DOMAIN st.ent THEN "" ELSE st.ent[st.keys[a[1]]].name>>)
    [] o.op = "size" -> Is(st, <<Cardinality(DOMAIN st.ent)>>)
    [] o.op = "refs" -> Is(st, <<IF a[1] \in DOMAIN st.ent THEN st.ent[a[1]].ref ELSE 99>>)
    [] o.op = "mlist" -> IF HasW(st, t) THEN (IF w.ph = "each" THEN Is(EndW(st, t), <<Code(w.found)>>) ELSE {}) ELSE {}
    [] o.op = "uadd" -> IF HasW(st, t)
                        THEN IF w.fail THEN (IF w.taken = <<>> THEN Is(EndW(st, t), <<FALSE>>) ELSE {})
                             ELSE IF w.i > Len(a[2]) THEN Is(EndW([st EXCEPT !.ul = Put(@, a[1], Held(st, a[1]) \cup Rng(w.taken))], t), <<TRUE>>) ELSE {}
                        ELSE IF a[2] = <<>> THEN Is([st EXCEPT !.ul = Put(@, a[1], Held(st, a[1]))], <<TRUE>>) ELSE {}
    [] o.op = "sget" -> IF HasW(st, t)
                        THEN IF w.fail THEN (IF w.taken = <<>> THEN Is(EndW(st, t), <<FALSE>>) ELSE {})
                             ELSE IF w.i > Len(a[2]) THEN Is(EndW([st EXCEPT !.sl = Put(@, a[1], w.taken)], t), <<TRUE>>) ELSE {}
                        ELSE IF a[2] = <<>> THEN Is([st EXCEPT !.sl = Put(@, a[1], <<>>)], <<TRUE>>) ELSE {}
    [] o.op = "usub" -> IF HasW(st, t)
                        THEN (IF w.left = <<>> THEN Is(EndW([st EXCEPT !.ul[a[1]] = @ \ Rng(a[2])], t), <<>>) ELSE {})
                        ELSE IF a[2] = <<>> THEN Is(st, <<>>) ELSE {}
    [] o.op = "urel" -> IF HasW(st, t)
                        THEN (IF w.left = <<>> THEN Is(EndW([st EXCEPT !.ul = Drop(@, a[1])], t), <<>>) ELSE {})
                        ELSE IF Held(st, a[1]) = {} THEN Is([st EXCEPT !.ul = Drop(@, a[1])], <<>>) ELSE {}
    [] o.op = "srel" -> IF HasW(st, t)
                        THEN (IF w.left = <<>> THEN Is(EndW([st EXCEPT !.sl = Drop(@, a[1])], t), <<>>) ELSE {})
                        ELSE IF a[1] \notin DOMAIN st.sl THEN Is(st, <<>>) ELSE IF st.sl[a[1]] = <<>> THEN Is([st EXCEPT !.sl = Drop(@, a[1])], <<>>) ELSE {}
    [] o.op = "uone" -> IF a[2] \in Held(st, a[1]) THEN Is(GiveX([st EXCEPT !.ul[a[1]] = @ \ {a[2]}], a[2]), <<>>) ELSE Is(st, <<>>)
    [] o.op = "uholds" -> Is(st, <<a[2] \in Held(st, a[1])>>)
    [] o.op = "ref" -> LET S == IF a[1] \in DOMAIN st.sc THEN st.sc[a[1]] ELSE {} IN
                       IF a[2] \in S \/ a[2] \notin DOMAIN st.ent THEN Is(st, <<>>)
                       ELSE Is([st EXCEPT !.sc = Put(@, a[1], S \cup {a[2]}), !.ent[a[2]].ref = @ + 1], <<>>)
    [] o.op = "scend" -> IF a[1] \notin DOMAIN st.sc THEN Is(st, <<>>) ELSE IF st.sc[a[1]] = {} THEN Is([st EXCEPT !.sc = Drop(@, a[1])], <<>>) ELSE {}
    [] o.op = "stop" -> Is([st EXCEPT !.stop = a[1]], <<>>)
    \* the physical removal asked for by maintenance; the answer is the store's
    [] o.op = "del" -> IF HasW(st, t)
                       THEN (IF w.ph = "del"
                             THEN (IF Key(st.ent[w.cur]) = a[1]
                                   THEN {[st |-> SetW(st, t, [w EXCEPT !.ph = "rm"]), v |-> <<r>>] : r \in {"ok", "missing", "not_found"}}
                                        \cup {[st |-> SetW(st, t, [w EXCEPT !.ph = "each", !.cur = 0]), v |-> <<"error">>]}
                                   ELSE {})
                             ELSE {})
                       ELSE {}
    [] o.op = "maint" -> IF HasW(st, t) THEN (IF w.ph = "each" /\ w.found = {} THEN Is(EndW(st, t), <<Code(w.done)>>) ELSE {}) ELSE {}
    [] o.op = "clear" -> Is([st EXCEPT !.ent = NoFun, !.names = NoFun, !.keys = NoFun, !.cand = {}], <<>>)
============================================================================
