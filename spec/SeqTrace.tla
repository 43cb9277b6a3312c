------------------------------ MODULE SeqTrace ------------------------------
(* Validator for sequential histories: events [e |-> "i", a |-> config] then [op, a, v].  Step(st, o, v) is the
   set of states the specified object may be in after operation o answered v; {} when it may not answer v. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS InitSt(_), Step(_, _, _)
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tr, l, st
H == Traces[tr].h
LInit == tr \in 1..N /\ l = 2 /\ st = InitSt(Traces[tr].h[1].a)
LNext == /\ l <= Len(H)
         /\ st' \in Step(st, [op |-> H[l].op, a |-> H[l].a], H[l].v)
         /\ l' = l + 1 /\ tr' = tr
LSpec == LInit /\ [][LNext]_<<tr, l, st>>
ASSUME \A i \in 1..N : TLCSet(i, 0)
Track == /\ TLCGet(tr) <= Len(H)
         /\ (l > TLCGet(tr) => TLCSet(tr, l))
Report == /\ \A i \in 1..N : TLCGet(i) = Len(Traces[i].h) + 1
                \/ PrintT("@@REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
          /\ PrintT("@@DONE")
=============================================================================
