-------------------------------- MODULE Seq --------------------------------
(***************************************************************************)
(* Sequences (C09): definitions, values drawn by concurrent transactions,  *)
(* what becomes committed and durable, and what a restart continues from.  *)
(*                                                                         *)
(*   st.mem   definition -> [id, reg, p, ver, val]  the running system      *)
(*              p = [init, inc, min, max, cyc]; ver = 0: nothing drawn yet  *)
(*   st.ids   identities the engine knows; st.nxt the next one              *)
(*   st.c, st.d   committed and durable layers: [seq: id -> <<ver, val>>,   *)
(*              map: definition -> id, defs: name -> [d, p]]                *)
(*   st.tx    transaction -> [al, put: id -> <<ver, val>>, map, defs, fail] *)
(*   st.names name -> definition      st.w  thread -> result of the value   *)
(*              request whose registration with the engine is still to come *)
(* 64-bit values are scaled: q * 500000000 + r stands for q * 2^62 + r.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Gone == -1    \* a removed entry in what a transaction has written
Settle(f, g) == LET h == Over(f, g) IN [x \in {x \in DOMAIN h : h[x] # Gone} |-> h[x]]
SettleD(f, g) == LET h == Over(f, g) IN [x \in {x \in DOMAIN h : h[x].d # Gone} |-> h[x]]
Newest(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                   IF x \in DOMAIN f /\ (x \notin DOMAIN g \/ f[x][1] >= g[x][1]) THEN f[x] ELSE g[x]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

NoPar == [init |-> 0, inc |-> 0, min |-> 0, max |-> 0, cyc |-> 0]
Layer == [seq |-> NoFun, map |-> NoFun, defs |-> NoFun]
Start == [mem |-> NoFun, ids |-> {}, nxt |-> 1, c |-> Layer, d |-> Layer, tx |-> NoFun, names |-> NoFun, w |-> NoFun]
NewTx == [al |-> TRUE, put |-> NoFun, map |-> NoFun, defs |-> NoFun, fail |-> FALSE]
Alive(st, t) == t \in DOMAIN st.tx /\ st.tx[t].al

\* the rule for the next value
Exhausted(p, val) == IF p.inc > 0 THEN p.max - val < p.inc ELSE val - p.min < -p.inc
NextVal(p, ver, val) ==
  IF ver = 0 THEN p.init
  ELSE IF p.inc # 0 /\ Exhausted(p, val) THEN (IF p.inc > 0 THEN p.min ELSE p.max)
  ELSE val + p.inc
Fails(p, ver, val) == ver > 0 /\ p.inc # 0 /\ Exhausted(p, val) /\ p.cyc = 0

SeeMap(st, t) == Settle(st.c.map, st.tx[t].map)
FreeDef(m) == CHOOSE n \in 0..Cardinality(DOMAIN m) : n \notin DOMAIN m /\ \A k \in 0..n - 1 : k \in DOMAIN m
R(s, k, n) == {[st |-> s, v |-> <<k, n>>]}

\* ---- drawing: first the value is taken, then the transaction registers the newest value of the sequence with the engine
DefOf(st, name) == st.names[name]
Take(st, o) ==
  LET d == DefOf(st, o.a[2]) IN
  IF o.op # "draw" \/ o.t \in DOMAIN st.w \/ d \notin DOMAIN st.mem THEN {}
  ELSE IF ~st.mem[d].reg THEN {}
  ELSE LET m == st.mem[d] IN
       IF Fails(m.p, m.ver, m.val)
       THEN {[st EXCEPT !.w = Put(@, o.t, <<IF m.p.inc > 0 THEN "over" ELSE "under", 0>>)]}
       ELSE LET n == NextVal(m.p, m.ver, m.val) IN
            {[st EXCEPT !.mem[d].ver = @ + 1, !.mem[d].val = n, !.w = Put(@, o.t, <<"ok", n>>)]}
Draw(st, o) ==
  LET d == DefOf(st, o.a[2])
      t == o.a[1] IN
  IF d \notin DOMAIN st.mem \/ (d \in DOMAIN st.mem /\ ~st.mem[d].reg) THEN R(st, "none", 0)
  ELSE IF o.t \notin DOMAIN st.w THEN {}
  ELSE LET m == st.mem[d]
           s == [st EXCEPT !.w = Drop(@, o.t)] IN
       IF ~Alive(st, t) \/ m.id \notin st.ids THEN R(s, "err", 0)
       ELSE IF st.tx[t].fail THEN R([s EXCEPT !.tx[t].fail = FALSE], "err", 0)
       ELSE R([s EXCEPT !.tx[t].put = Newest(@, m.id :> <<m.ver, m.val>>)], st.w[o.t][1], st.w[o.t][2])

\* ---- definitions
Create(st, o) ==
  LET t == o.a[1]
      name == o.a[2]
      p == [init |-> o.a[3], inc |-> o.a[4], min |-> o.a[5], max |-> o.a[6], cyc |-> o.a[7]]
      d == FreeDef(SeeMap(st, t))
      new == d \notin DOMAIN st.mem
      id == IF new THEN st.nxt ELSE st.mem[d].id
      known == id \in DOMAIN st.d.seq /\ id \in st.ids
      from == IF known THEN st.d.seq[id] ELSE <<0, p.init>>
      mem == Put(st.mem, d, [id |-> id, reg |-> TRUE, p |-> p, ver |-> from[1], val |-> from[2]])
  IN IF ~Alive(st, t) THEN {}
     ELSE R([st EXCEPT !.mem = mem, !.ids = IF new THEN @ \cup {id} ELSE @, !.nxt = IF new THEN @ + 1 ELSE @,
                       !.names = Put(@, name, d),
                       !.tx[t].map = Over(@, [x \in DOMAIN mem |-> mem[x].id]),
                       !.tx[t].defs = Put(@, name, [d |-> d, p |-> p])], "ok", d)
Remove(st, o) ==
  LET t == o.a[1]
      name == o.a[2]
      d == st.names[name]
      s == [st EXCEPT !.tx[t].defs = Put(@, name, [d |-> Gone, p |-> NoPar])] IN
  IF ~Alive(st, t) THEN {}
  ELSE IF d \notin DOMAIN st.mem THEN R(s, "ok", 0)
  ELSE R([s EXCEPT !.ids = @ \ {st.mem[d].id}, !.mem = Drop(@, d), !.tx[t].map = Put(@, d, Gone)], "ok", 0)

\* ---- transactions, durability, restart
Commit(st, t) ==
  IF ~Alive(st, t) THEN R(st, "err", 0)
  ELSE R([st EXCEPT !.tx[t].al = FALSE,
                    !.c = [seq |-> Newest(@.seq, [i \in DOMAIN st.tx[t].put \cap st.ids |-> st.tx[t].put[i]]),
                           map |-> Settle(@.map, st.tx[t].map), defs |-> SettleD(@.defs, st.tx[t].defs)]], "ok", 0)
Restart(st) ==
  LET D == st.d
      mem0 == [x \in DOMAIN D.map |-> [id |-> D.map[x], reg |-> FALSE, p |-> NoPar, ver |-> 0, val |-> 0]]
      Reg(x) == \E n \in DOMAIN D.defs : D.defs[n].d = x
      Par(x) == D.defs[CHOOSE n \in DOMAIN D.defs : D.defs[n].d = x].p
      From(x) == IF D.map[x] \in DOMAIN D.seq /\ D.map[x] \in st.ids THEN D.seq[D.map[x]] ELSE <<0, Par(x).init>>
      mem == [x \in DOMAIN mem0 |-> IF Reg(x) THEN [id |-> D.map[x], reg |-> TRUE, p |-> Par(x), ver |-> From(x)[1], val |-> From(x)[2]] ELSE mem0[x]]
  IN [st EXCEPT !.mem = mem, !.c = [D EXCEPT !.map = [x \in DOMAIN mem |-> mem[x].id]], !.tx = NoFun]

RECURSIVE Join(_, _)
Join(S, first) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN (IF first THEN "" ELSE ",") \o ToString(x) \o Join(S \ {x}, FALSE)

Do(st, o) ==
  CASE o.op = "begin" -> R([st EXCEPT !.tx = Put(@, o.a[1], NewTx)], "ok", 0)
    [] o.op = "commit" -> Commit(st, o.a[1])
    [] o.op = "abort" -> R([st EXCEPT !.tx[o.a[1]].al = FALSE], "ok", 0)
    [] o.op = "failput" -> R([st EXCEPT !.tx[o.a[1]].fail = TRUE], "ok", 0)
    [] o.op = "create" -> Create(st, o)
    [] o.op = "drop" -> Remove(st, o)
    [] o.op = "draw" -> Draw(st, o)
    [] o.op = "get" -> LET d == DefOf(st, o.a[1]) IN
                       IF d \notin DOMAIN st.mem THEN R(st, "none", 0)
                       ELSE IF ~st.mem[d].reg THEN R(st, "none", 0)
                       ELSE R(st, "v" \o ToString(st.mem[d].ver + 1), st.mem[d].val)
    [] o.op = "ids" -> LET m == SeeMap(st, o.a[1]) IN R(st, Join(DOMAIN m, TRUE) \o "#" \o ToString(Cardinality(DOMAIN m)), FreeDef(m))
    [] o.op = "sync" -> R([st EXCEPT !.d = st.c], "ok", 0)
    [] o.op = "restart" -> R(Restart(st), "ok", 0)
SeqInit(a) == Start
Silent(st, pend) == UNION {Take(st, pend[t]) : t \in {t \in DOMAIN pend : ~pend[t].done /\ pend[t].op = "draw"}}
Never(st, o) == FALSE
============================================================================
