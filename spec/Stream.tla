------------------------------- MODULE Stream -------------------------------
(* C20: the stream of records a user-defined function returns, and the records themselves.
   A stream is a queue with two flags.  s[i] = [q, eos, closed]: the records pushed and not delivered yet. *)
EXTENDS Naturals, Sequences, FiniteSets

NewStream == [q |-> <<>>, eos |-> FALSE, closed |-> FALSE]
Gone == [q |-> <<>>, eos |-> TRUE, closed |-> TRUE]   \* what is left of a stream that was moved away

\* a record is <<status the delivery reports, contents...>>
Deliver(s, i) == {[st |-> [s EXCEPT ![i].q = Tail(@)], v |-> Head(s[i].q)]}
Same(s, v) == {[st |-> s, v |-> v]}
StInit(a) == [i \in 1..a[1] |-> NewStream]
StApply(s, o) ==
  LET i == o.a[1] IN
  CASE o.op = "push"  -> {[st |-> IF s[i].eos THEN s ELSE [s EXCEPT ![i].q = Append(@, o.a[2])], v |-> <<>>]}
    [] o.op = "end"   -> {[st |-> [s EXCEPT ![i].eos = TRUE], v |-> <<>>]}
    [] o.op = "close" -> {[st |-> [s EXCEPT ![i] = Gone], v |-> <<>>]}
    [] o.op = "try"   -> IF s[i].q # <<>> THEN Deliver(s, i)
                         ELSE IF s[i].eos THEN Same(s, <<"end">>) ELSE Same(s, <<"wait">>)
    [] o.op = "next"  -> IF s[i].q # <<>> THEN Deliver(s, i)
                         ELSE IF s[i].eos THEN Same(s, <<"end">>) ELSE {}
    [] o.op = "nextt" -> IF s[i].q # <<>> THEN Deliver(s, i)
                         ELSE IF s[i].eos THEN Same(s, <<"end">>) ELSE Same(s, <<"wait">>)
    \* i takes over the contents and flags of stream o.a[2], which is finished for its own consumers
    [] o.op = "move"  -> {[st |-> IF i = o.a[2] THEN s ELSE [s EXCEPT ![i] = s[o.a[2]], ![o.a[2]] = Gone], v |-> <<>>]}
    [] OTHER -> {}

\* ---- records: r[i] = [vals, err], cursors c[j] = [rec, pos].  A value is <<kind, content>>, NULL is <<"null", "">>
RecInit(a) == [r |-> [i \in 1..a[1] |-> [vals |-> <<>>, err |-> <<>>]], c |-> [j \in 1..a[2] |-> [rec |-> 0, pos |-> 0]]]
Rec(s, j) == s.r[s.c[j].rec]
AtEnd(s, j) == s.c[j].pos >= Len(Rec(s, j).vals)
Cur(s, j) == Rec(s, j).vals[s.c[j].pos + 1]
RecStep(s, o, v) ==
  LET i == o.a[1]
      keep(b) == IF b THEN {s} ELSE {} IN
  CASE o.op = "add"    -> {[s EXCEPT !.r[i].vals = Append(@, <<o.a[2], o.a[3]>>)]}
    [] o.op = "null"   -> {[s EXCEPT !.r[i].vals = Append(@, <<"null", "">>)]}
    [] o.op = "reset"  -> {[s EXCEPT !.r[i] = [vals |-> <<>>, err |-> <<>>]]}
    [] o.op = "seterr" -> {[s EXCEPT !.r[i].err = <<o.a[2], o.a[3]>>]}
    [] o.op = "err"    -> keep(v = s.r[i].err)
    [] o.op = "assign" -> {[s EXCEPT !.r[i] = s.r[o.a[2]], !.r[o.a[2]] = [vals |-> <<>>, err |-> <<>>]]}
    [] o.op = "open"   -> {[s EXCEPT !.c[i] = [rec |-> o.a[2], pos |-> 0]]}
    \* fetching consumes exactly one value, whatever its type; NULL and values of another type are not delivered
    [] o.op = "fetch"  -> IF AtEnd(s, i) THEN keep(v = "none")
                          ELSE IF v = (IF Cur(s, i)[1] = o.a[2] THEN Cur(s, i)[2] ELSE "none")
                               THEN {[s EXCEPT !.c[i].pos = @ + 1]} ELSE {}
    [] o.op = "has"    -> keep(v = ~AtEnd(s, i))
    [] o.op = "kind"   -> keep(v = IF AtEnd(s, i) THEN "out_of_range" ELSE Cur(s, i)[1])
    [] o.op = "isnull" -> keep(v = (~AtEnd(s, i) /\ Cur(s, i)[1] = "null"))
    [] OTHER -> {}
=============================================================================
