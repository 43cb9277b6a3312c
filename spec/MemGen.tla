------------------------------- MODULE MemGen -------------------------------
(* How the paged resources work inside, with a page of CAP units: blocks are appended to the last page, a page is
   added when the block does not fit.  TLC checks the user-visible guarantees on every reachable state and exports
   every transition; the transitions drive the real resources, whose answers are judged by Mem. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, CAP, Sizes, MaxPages, MaxBlocks, MaxCps, MaxOps
VARIABLES pages, blocks, cps, reserve, nxt, nops, act
\* page: [id, lo, up];  block: [id, o, n]; checkpoint: [id (0: nothing allocated), o, k] with k live blocks before it
vars == <<pages, blocks, cps, reserve, nxt, nops, act>>
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Set(op, args) == act' = [op |-> op, args |-> args] /\ nops' = nops + 1
Init == pages = <<>> /\ blocks = <<>> /\ cps = <<>> /\ reserve = 0 /\ nxt = 1 /\ nops = 0 /\ act = [op |-> "init", args |-> <<>>]
Fits(n) == Len(pages) > 0 /\ Last(pages).up + n <= CAP
NewPage == IF reserve # 0 THEN [id |-> reserve, lo |-> 0, up |-> 0] ELSE [id |-> nxt, lo |-> 0, up |-> 0]
TakePage == IF reserve # 0 THEN reserve' = 0 /\ nxt' = nxt ELSE nxt' = nxt + 1 /\ reserve' = reserve
Alloc(n) ==
  /\ Len(blocks) < MaxBlocks
  /\ IF Fits(n)
     THEN /\ pages' = [pages EXCEPT ![Len(pages)].up = @ + n]
          /\ blocks' = Append(blocks, [id |-> Last(pages).id, o |-> Last(pages).up, n |-> n])
          /\ UNCHANGED <<reserve, nxt>>
     ELSE /\ Len(pages) < MaxPages
          /\ pages' = Append(pages, [NewPage EXCEPT !.up = n])
          /\ blocks' = Append(blocks, [id |-> NewPage.id, o |-> 0, n |-> n])
          /\ TakePage
  /\ UNCHANGED cps /\ Set("alloc", <<n>>)
EndPage ==
  /\ Kind # "none" /\ Len(pages) < MaxPages
  /\ IF Len(pages) > 0 /\ Last(pages).up = 0 THEN UNCHANGED <<pages, reserve, nxt>>
     ELSE pages' = Append(pages, NewPage) /\ TakePage
  /\ UNCHANGED <<blocks, cps>> /\ Set("endpage", <<>>)
\* lifo: the pages from position i+1 on are dropped, the last of them is kept in reserve
DropBack(i) == pages' = SubSeq(pages, 1, i) /\ reserve' = IF i < Len(pages) THEN pages[i + 1].id ELSE reserve
FreeBack ==
  /\ Kind = "lifo" /\ Len(blocks) > 0 /\ (\A c \in 1..Len(cps) : cps[c].k < Len(blocks))
  /\ LET b == Last(blocks)  i == CHOOSE j \in 1..Len(pages) : pages[j].id = b.id IN
     /\ blocks' = Front(blocks)
     /\ IF b.o = 0 THEN DropBack(i - 1)
        ELSE LET q == [SubSeq(pages, 1, i) EXCEPT ![i].up = b.o] IN
             pages' = q /\ reserve' = IF i < Len(pages) THEN pages[i + 1].id ELSE reserve
  /\ UNCHANGED <<cps, nxt>> /\ Set("free", <<>>)
FreeFront ==
  /\ Kind = "fifo" /\ Len(blocks) > 0
  /\ LET b == blocks[1]  e == b.o + b.n = pages[1].up IN
     /\ blocks' = SubSeq(blocks, 2, Len(blocks))
     /\ b.id = pages[1].id
     /\ pages' = IF e THEN SubSeq(pages, 2, Len(pages)) ELSE [pages EXCEPT ![1].lo = b.o + b.n]
     \* a checkpoint before the discarded block is not used any more
     /\ cps' = LET d == Cardinality({c \in 1..Len(cps) : cps[c].k = 0}) IN [c \in 1..(Len(cps) - d) |-> [k |-> cps[c + d].k - 1]]
     /\ Set("free", <<Cardinality({c \in 1..Len(cps) : cps[c].k = 0})>>)
  /\ UNCHANGED <<reserve, nxt>>
Cp == /\ Kind \in {"lifo", "fifo"} /\ Len(cps) < MaxCps
      /\ cps' = Append(cps, [k |-> Len(blocks)])
      /\ UNCHANGED <<pages, blocks, reserve, nxt>> /\ Set("cp", <<>>)
\* lifo: checkpoint c is rewound to; younger checkpoints stay valid only if nothing before them was dropped
RewindLifo(c) ==
  /\ Kind = "lifo"
  /\ LET k == cps[c].k IN
     /\ k <= Len(blocks)
     /\ \A d \in 1..Len(cps) : d <= c \/ cps[d].k <= k \/ TRUE
     /\ blocks' = SubSeq(blocks, 1, k)
     /\ LET i == IF k = 0 THEN 0 ELSE CHOOSE j \in 1..Len(pages) : pages[j].id = blocks[k].id IN
        /\ pages' = IF i = 0 THEN <<>> ELSE [SubSeq(pages, 1, i) EXCEPT ![i].up = blocks[k].o + blocks[k].n]
        /\ reserve' = IF i < Len(pages) THEN pages[i + 1].id ELSE reserve
     /\ cps' = SubSeq(cps, 1, c)
  /\ UNCHANGED nxt /\ Set("rewind", <<c>>)
RewindFifo(c) ==
  /\ Kind = "fifo"
  /\ LET k == cps[c].k
         keep == SubSeq(blocks, k + 1, Len(blocks))
         dead == {j \in 1..Len(pages) : (\A b \in 1..Len(keep) : keep[b].id # pages[j].id) /\ (\E b \in 1..k : blocks[b].id = pages[j].id)} IN
     /\ k <= Len(blocks)
     /\ blocks' = keep
     /\ pages' = SelectSeq(pages, LAMBDA p : ~\E j \in dead : pages[j].id = p.id)
     \* checkpoints are used in the order in which they were taken, each any number of times
     /\ cps' = [d \in 1..(Len(cps) - c + 1) |-> [k |-> IF cps[d + c - 1].k > k THEN cps[d + c - 1].k - k ELSE 0]]
  /\ UNCHANGED <<reserve, nxt>> /\ Set("rewind", <<c>>)
Next == /\ nops < MaxOps
        /\ \/ \E n \in Sizes : Alloc(n)
           \/ EndPage \/ FreeBack \/ FreeFront \/ Cp
           \/ \E c \in 1..Len(cps) : RewindLifo(c) \/ RewindFifo(c)
Spec == Init /\ [][Next]_vars
NoOverlap == \A i, j \in 1..Len(blocks) : i # j /\ blocks[i].id = blocks[j].id =>
               blocks[i].o + blocks[i].n <= blocks[j].o \/ blocks[j].o + blocks[j].n <= blocks[i].o
InOwned == \A i \in 1..Len(blocks) : \E j \in 1..Len(pages) : pages[j].id = blocks[i].id /\ blocks[i].o + blocks[i].n <= CAP
ReserveNotUsed == reserve # 0 => \A j \in 1..Len(pages) : pages[j].id # reserve
OneId == \A i, j \in 1..Len(pages) : i # j => pages[i].id # pages[j].id
\* identities of pages do not matter for the behaviour that follows
Norm(p) == [i \in 1..Len(p) |-> <<p[i].lo, p[i].up>>]
PgIx(b) == CHOOSE j \in 1..Len(pages) : pages[j].id = b.id
Vw == <<Norm(pages), [i \in 1..Len(blocks) |-> <<PgIx(blocks[i]), blocks[i].o, blocks[i].n>>], cps, reserve # 0>>
Export == PrintT("@@" \o ToJson([s |-> Vw, a |-> act', t |-> Vw']))
=============================================================================
