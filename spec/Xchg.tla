-------------------------------- MODULE Xchg --------------------------------
(* Group exchange and aggregate exchange between query steps, and stores of one column's values.
   A flow holds the multiset of records written to its sinks; after the transfer each source delivers groups.
   Columns hold small integers, -1 is NULL; NULL comes before every value, NaN (7 of a float) after every number. *)
EXTENDS Integers, Sequences, FiniteSets
NULLV == -9999999
NANV == 9999999

\* ---- ordering of records
RECURSIVE Lex(_, _)          \* -1, 0, 1 of two sequences of integers
Lex(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Lex(Tail(a), Tail(b))
Pick(r, idx) == [i \in 1..Len(idx) |-> r[idx[i]]]
KeyOf(f, r) == Pick(r, f.keys)
SortOf(f, r) == [i \in 1..Len(f.sort) |-> IF f.sort[i][2] = 1 THEN 0 - r[f.sort[i][1]] ELSE r[f.sort[i][1]]]

\* ---- multisets of records
RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + SumOver(S \ {x}, g)
Total(b) == SumOver(DOMAIN b, b)
AddTo(b, r, n) == IF r \in DOMAIN b THEN [b EXCEPT ![r] = @ + n] ELSE [x \in DOMAIN b \cup {r} |-> IF x = r THEN n ELSE b[x]]
OfKey(f, k) == LET D == {r \in DOMAIN f.bag : KeyOf(f, r) = k} IN [r \in D |-> f.bag[r]]
Keys(f) == {KeyOf(f, r) : r \in DOMAIN f.bag}
\* keys of the groups the flow delivers: a flow asked for a record on empty input delivers one group then
Expected(f) == IF f.agg /\ f.empty /\ DOMAIN f.bag = {} THEN {[i \in 1..Len(f.keys) |-> -1]}
               ELSE IF ~f.agg /\ f.limit = 0 THEN {} ELSE Keys(f)

\* ---- the members of one group, as runs <<n, record>>
InRuns(g, r) == LET c[i \in 0..Len(g)] == IF i = 0 THEN 0 ELSE c[i - 1] + (IF g[i][2] = r THEN g[i][1] ELSE 0) IN c[Len(g)]
RunsLen(g) == LET c[i \in 0..Len(g)] == IF i = 0 THEN 0 ELSE c[i - 1] + g[i][1] IN c[Len(g)]
Members(f, k, g) ==
  LET b == OfKey(f, k)
      n == Total(b)
      last == g[Len(g)][2]
  IN /\ g # <<>>
     /\ \A i \in 1..Len(g) : g[i][2] \in DOMAIN b
     /\ RunsLen(g) = (IF f.limit < 0 \/ n < f.limit THEN n ELSE f.limit)
     /\ \A i \in 1..Len(g) - 1 : Lex(SortOf(f, g[i][2]), SortOf(f, g[i + 1][2])) <= 0
     /\ \A r \in DOMAIN b : LET x == InRuns(g, r) IN x <= b[r] /\ (x < b[r] => Lex(SortOf(f, last), SortOf(f, r)) <= 0)

\* ---- aggregate functions over one column of the records of a group
Column(b, c) == LET V == {r[c] : r \in DOMAIN b} IN [v \in V |-> SumOver({r \in DOMAIN b : r[c] = v}, b)]
Isnan(t, v) == t \in {"f", "g"} /\ v = 7
Number(v) == v - 3
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE 0 - ((0 - a) \div b)
AggOk(fn, t, b, c, v) ==
  LET col == Column(b, c)
      D == DOMAIN col \ {-1}
      n == SumOver(D, col)
      s == SumOver(D, [x \in D |-> Number(x) * col[x]])
      nan == \E x \in D : Isnan(t, x)
  IN CASE fn = "count_rows" -> v = Total(b)
       [] fn = "count" -> v = n
       [] D = {} -> v = NULLV
       [] fn = "max" -> v = Max(D)
       [] fn = "min" -> v = Min(D)
       [] nan -> v = NANV
       [] fn = "sum" -> v = 1000 * s
       [] t \in {"i", "j"} -> v = 1000 * Trunc(s, n)
       [] OTHER -> LET d == v * n - 1000 * s IN d <= n /\ (0 - d) <= n
Result(f, k, g) ==
  LET b == OfKey(f, k)
  IN /\ Len(g) = 1 /\ g[1][1] = 1 /\ Len(g[1][2]) = Len(f.sort)
     /\ \A i \in 1..Len(f.sort) : AggOk(f.sort[i][1], f.sort[i][3], b, f.sort[i][2] + 1, g[1][2][i])

\* ---- what a source may deliver, given what the others delivered
Place(f, k) == <<f.types, f.parts, k>>
ReadOk(st, id, p, v) ==
  LET f == st.f[id]
  IN /\ p \notin f.read
     /\ \A i \in 1..Len(v) :
          LET k == v[i][1] IN
            /\ k \in Expected(f) /\ k \notin f.done
            /\ (i = 1 \/ Lex(v[i - 1][1], k) < 0)
            /\ (DOMAIN f.bag = {} \/ Place(f, k) \notin DOMAIN st.home \/ st.home[Place(f, k)] = p)
            /\ IF f.agg THEN Result(f, k, v[i][2]) ELSE Members(f, k, v[i][2])
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Rehome(st, f, p, v) == IF DOMAIN f.bag = {} THEN st.home
   ELSE LET K == {Place(f, v[i][1]) : i \in 1..Len(v)} IN [x \in DOMAIN st.home \cup K |-> IF x \in K THEN p ELSE st.home[x]]
Finished(f) == f.read = 0..f.nsrc - 1 /\ f.done = Expected(f)

\* ---- stores of values, as runs <<n, v>>
Append1(s, n, v) == IF s # <<>> /\ s[Len(s)][2] = v THEN [s EXCEPT ![Len(s)] = <<@[1] + n, v>>] ELSE Append(s, <<n, v>>)
StoreLen(s) == RunsLen(s)
Distinct(s) == Cardinality({s[i][2] : i \in 1..Len(s)} \ {<<-1>>})

XInit(a) == [f |-> <<>>, s |-> <<>>, home |-> <<>>]
Incr(s) == [i \in 1..Len(s) |-> s[i] + 1]
XStep(st, o, v) ==
  LET a == o.a
      id == a[1]
  IN CASE o.op = "new" ->
            LET agg == a[2] = "a"
                f == [agg |-> agg, keys |-> Incr(a[4]), sort |-> IF agg THEN a[5] ELSE [i \in 1..Len(a[5]) |-> <<a[5][i][1] + 1, a[5][i][2]>>], limit |-> a[6], parts |-> a[7], empty |-> a[9] = 1,
                      types |-> a[10], nsrc |-> v[1], bag |-> <<>>, read |-> {}, done |-> {}]
            IN IF v[1] >= a[7] /\ v[2] = a[8] THEN {[st EXCEPT !.f = Put(@, id, f)]} ELSE {}
       [] o.op = "w" -> {[st EXCEPT !.f[id].bag = AddTo(@, a[4], a[3])]}
       [] o.op = "go" -> IF v = (IF Expected(st.f[id]) = {} /\ DOMAIN st.f[id].bag = {} THEN 1 ELSE 0) THEN {st} ELSE {}
       [] o.op = "rd" -> IF ReadOk(st, id, a[2], v)
                         THEN {[st EXCEPT !.f[id].read = @ \cup {a[2]}, !.f[id].done = @ \cup {v[i][1] : i \in 1..Len(v)}, !.home = Rehome(st, st.f[id], a[2], v)]} ELSE {}
       [] o.op = "end" -> IF Finished(st.f[id]) THEN {st} ELSE {}
       [] o.op = "vs" -> {[st EXCEPT !.s = Put(@, id, <<>>)]}
       [] o.op = "va" -> {[st EXCEPT !.s[id] = Append1(@, a[2], <<a[3]>>)]}
       [] o.op = "vl" -> IF v = st.s[id] THEN {st} ELSE {}
       [] o.op = "vc" -> IF v = <<StoreLen(st.s[id]), IF st.s[id] = <<>> THEN 1 ELSE 0>> THEN {st} ELSE {}
       [] o.op = "vd" -> IF v = Distinct(st.s[id]) THEN {st} ELSE {}
       [] o.op = "vr" -> {[st EXCEPT !.s[id] = <<>>]}
       [] OTHER -> {}
=============================================================================
