----------------------------- MODULE StreamMC -----------------------------
(* The stream as a transition system: one producer of records 1..NR, two consumers, anyone may close. Ghosts: what was
   accepted and what was delivered. *)
EXTENDS Stream
CONSTANT NR
VARIABLES s, n, acc, del, sawEnd, dropped
vars == <<s, n, acc, del, sawEnd, dropped>>
Init == s = StInit(<<1>>) /\ n = 1 /\ acc = <<>> /\ del = <<>> /\ sawEnd = FALSE /\ dropped = FALSE
Op(op, a) == StApply(s, [op |-> op, a |-> a])
Push == /\ n <= NR /\ \E r \in Op("push", <<1, <<"ok", n>>>>) : s' = r.st
        /\ acc' = IF s[1].eos THEN acc ELSE Append(acc, n)
        /\ n' = n + 1 /\ UNCHANGED <<del, sawEnd, dropped>>
End == /\ \E r \in Op("end", <<1>>) : s' = r.st /\ UNCHANGED <<n, acc, del, sawEnd, dropped>>
Close == /\ \E r \in Op("close", <<1>>) : s' = r.st
         /\ dropped' = TRUE /\ UNCHANGED <<n, acc, del, sawEnd>>
Take(op) == \E r \in Op(op, <<1>>) : /\ s' = r.st
                                     /\ del' = IF r.v[1] = "ok" THEN Append(del, r.v[2]) ELSE del
                                     /\ sawEnd' = (sawEnd \/ r.v[1] = "end")
                                     /\ UNCHANGED <<n, acc, dropped>>
Next == Push \/ End \/ Close \/ \E op \in {"try", "next", "nextt"} : Take(op)
Spec == Init /\ [][Next]_vars
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
InOrder == IsPrefix(del, acc)
EndLast == sawEnd => (dropped \/ del = acc)
Whole == ~dropped => acc = del \o [i \in 1..Len(s[1].q) |-> s[1].q[i][2]]
NothingAfterClose == dropped => s[1].q = <<>>
Waits == (Op("next", <<1>>) = {}) <=> (s[1].q = <<>> /\ ~s[1].eos)
EndStays == [][sawEnd => sawEnd' /\ del' = del]_vars
============================================================================
