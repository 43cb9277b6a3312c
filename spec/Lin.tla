------------------------------- MODULE Lin -------------------------------
(***************************************************************************)
(* Generic trace validator.  A history recorded from the implementation is *)
(* a sequence of events:                                                   *)
(*   [e |-> "i", a |-> config]                    first event: configuration*)
(*   [e |-> "c", t |-> thread, op |-> name, a |-> args]   call             *)
(*   [e |-> "r", t |-> thread, v |-> result]              return           *)
(*   [e |-> "s", t |-> thread, op |-> name, a |-> args, v |-> result]      *)
(*                             call whose effect is atomic where logged    *)
(*   [e |-> "x", b |-> threads]                   end; b are blocked forever*)
(* A history is accepted iff the specification of the object, given by     *)
(*   InitSt(config)   the initial abstract state                           *)
(*   Apply(st, o)     set of [st |-> new state, v |-> result] an operation *)
(*                    o = [op, a, t] may have now; {} means it has to wait *)
(*   Tau(st, pend)    set of states reachable by one silent internal step  *)
(*   MayBlock(st, o)  operation o may legitimately be left waiting forever *)
(* has a behaviour in which each operation takes effect atomically between *)
(* its call and its return with exactly the recorded result, and in which  *)
(* an operation that never returned really could not be served.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt(_), Apply(_, _), Tau(_, _), MayBlock(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES tr, l, st, pend
lvars == <<tr, l, st, pend>>

H == Traces[tr].h
Ev == H[l]
More == l <= Len(H)

LInit == /\ tr \in 1..N
         /\ l = 2
         /\ Traces[tr].h[1].e = "i"
         /\ st = InitSt(Traces[tr].h[1].a)
         /\ pend = [x \in {} |-> 0]

Adv == l' = l + 1 /\ tr' = tr

LCall == /\ More /\ Ev.e = "c"
         /\ Ev.t \notin DOMAIN pend
         /\ pend' = pend @@ (Ev.t :> [op |-> Ev.op, a |-> Ev.a, t |-> Ev.t, done |-> FALSE, v |-> <<>>])
         /\ st' = st /\ Adv

\* effects only matter before the next return or the end
Watch == More /\ Ev.e \in {"r", "x", "s"}

LEffect == /\ Watch
           /\ \E t \in DOMAIN pend :
                /\ ~pend[t].done
                /\ \E r \in Apply(st, pend[t]) :
                     /\ Ev.e = "r" /\ Ev.t = t => r.v = Ev.v
                     /\ st' = r.st
                     /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].v = r.v]
           /\ UNCHANGED <<tr, l>>

LTau == /\ Watch
        /\ st' \in Tau(st, pend)
        /\ UNCHANGED <<tr, l, pend>>

LRet == /\ More /\ Ev.e = "r"
        /\ Ev.t \in DOMAIN pend
        /\ pend[Ev.t].done /\ pend[Ev.t].v = Ev.v
        /\ pend' = [t \in DOMAIN pend \ {Ev.t} |-> pend[t]]
        /\ st' = st /\ Adv

LSeq == /\ More /\ Ev.e = "s"
        /\ \E r \in Apply(st, [op |-> Ev.op, a |-> Ev.a, t |-> Ev.t]) :
             r.v = Ev.v /\ st' = r.st
        /\ pend' = pend /\ Adv

LEnd == /\ More /\ Ev.e = "x"
        /\ DOMAIN pend = {Ev.b[i] : i \in 1..Len(Ev.b)}
        /\ \A t \in DOMAIN pend : ~pend[t].done /\ MayBlock(st, pend[t])
        /\ UNCHANGED <<st, pend>> /\ Adv

LNext == LCall \/ LEffect \/ LTau \/ LRet \/ LSeq \/ LEnd
LSpec == LInit /\ [][LNext]_lvars

NoTau(s, p) == {}
NotServed(s, o) == Apply(s, o) = {}

\* ---- acceptance: register tr holds the farthest position reached in history tr
ASSUME \A i \in 1..N : TLCSet(i, 0)
Track == /\ TLCGet(tr) <= Len(H)
         /\ (l > TLCGet(tr) => TLCSet(tr, l))
Report == /\ \A i \in 1..N : TLCGet(i) = Len(Traces[i].h) + 1
                \/ PrintT("@@REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
          /\ PrintT("@@DONE")
==========================================================================
