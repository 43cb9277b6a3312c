-------------------------------- MODULE Mem --------------------------------
(* A paged memory resource (C10) as its users see it.  State:
     kind    "fifo" | "lifo" | "mono"
     owned   pages (identities) taken from the pool and not given back
     blocks  live blocks in allocation order, [p, o, n]: n bytes at offset o of page p
     gone    fifo: number of blocks already discarded at the front
     cps     checkpoints: k the number of allocated blocks not popped at the back, c the number of pages when taken
     fresh   the user asked to leave the current page
     fails   refused requests so far
   An allocation may be placed anywhere the rules allow; the recorded placement is passed as an argument. *)
EXTENDS Naturals, Sequences, FiniteSets
PS == 2 * 1024 * 1024
MInit(a) == [kind |-> a[1], owned |-> {}, blocks |-> <<>>, gone |-> 0, cps |-> <<>>, fresh |-> FALSE, fails |-> 0]
Range(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Range(s)) = Len(s)
\* pages taken and given back by a step
PagesOK(s, M, U) == Distinct(M) /\ Distinct(U) /\ Range(M) \cap s.owned = {} /\ Range(U) \subseteq (s.owned \cup Range(M))
Owned(s, M, U) == (s.owned \cup Range(M)) \ Range(U)
InUse(b) == {b[i].p : i \in {j \in 1..Len(b) : b[j].n > 0}}
Overlap(x, y) == x.p = y.p /\ x.o < y.o + y.n /\ y.o < x.o + x.n
Empties(s) == Cardinality(s.owned \ InUse(s.blocks))
\* what must hold after every step: live blocks stay in owned pages, unaltered; pages without live data are not hoarded
Fine(s, v) == /\ InUse(s.blocks) \subseteq s.owned
              /\ v[3] = TRUE
              /\ v[1] <= Cardinality(s.owned)
              /\ v[1] + (IF s.kind = "lifo" THEN 1 ELSE 0) >= Cardinality(s.owned)
              /\ s.kind \in {"fifo", "lifo"} => Empties(s) <= 3 + s.fails
              /\ v[2] <= PS
Cut(b, i, j) == SubSeq(b, i, j)
Ok(t, v) == IF Fine(t, v) THEN {t} ELSE {}
MemStep(s, o, v) ==
  LET M == o.a[1]  U == o.a[2]  t0 == [s EXCEPT !.owned = Owned(s, M, U)] IN
  IF ~PagesOK(s, M, U) THEN {} ELSE
  CASE o.op = "alloc" ->
        LET n == o.a[3]  al == o.a[4]  b == [p |-> o.a[5], o |-> o.a[6], n |-> n]  rem == o.a[7] IN
        IF /\ U = <<>> /\ b.p \in t0.owned /\ b.o % al = 0 /\ b.o + n <= PS
           /\ \A i \in 1..Len(s.blocks) : ~Overlap(b, s.blocks[i])
           /\ (rem >= n /\ rem > 0 => M = <<>>)                    \* page_remaining is a promise
           /\ (s.fresh /\ n > 0 => b.p \notin InUse(s.blocks))      \* a finished page is not used again
        THEN Ok([t0 EXCEPT !.blocks = Append(@, b), !.fresh = FALSE], v) ELSE {}
    [] o.op = "refused" -> IF o.a[3] > PS THEN Ok([t0 EXCEPT !.fails = @ + 1], v) ELSE {}
    [] o.op = "free" ->
        IF s.kind = "fifo" THEN Ok([t0 EXCEPT !.blocks = Cut(@, 2, Len(@)), !.gone = @ + 1], v)
        ELSE LET nb == Len(s.blocks) - 1 IN
             Ok([t0 EXCEPT !.blocks = Cut(@, 1, nb), !.fresh = IF s.kind = "lifo" THEN FALSE ELSE @], v)
    [] o.op = "cp" -> IF M = <<>> /\ U = <<>> THEN Ok([t0 EXCEPT !.cps = Append(@, [k |-> s.gone + Len(s.blocks), c |-> v[1]])], v) ELSE {}
    [] o.op = "rewind" ->
        LET k == s.cps[o.a[3] + 1].k IN
        IF s.kind = "fifo"
        THEN LET d == IF k > s.gone THEN k - s.gone ELSE 0 IN Ok([t0 EXCEPT !.blocks = Cut(@, d + 1, Len(@)), !.gone = @ + d], v)
        ELSE IF v[1] > s.cps[o.a[3] + 1].c THEN {}   \* no page more than there were
             ELSE Ok([t0 EXCEPT !.blocks = Cut(@, 1, IF k < Len(@) THEN k ELSE Len(@)), !.fresh = FALSE], v)
    [] o.op = "clear" -> IF v[1] # 0 THEN {} ELSE Ok([t0 EXCEPT !.blocks = <<>>, !.fresh = FALSE], v)
    [] o.op = "endpage" -> IF U = <<>> /\ Len(M) <= 1 THEN Ok([t0 EXCEPT !.fresh = TRUE], v) ELSE {}
    [] o.op = "end" -> IF t0.owned = {} /\ v[3] = TRUE THEN {[t0 EXCEPT !.blocks = <<>>]} ELSE {}
    [] o.op = "pool_end" -> IF U = <<>> /\ M = <<>> THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
