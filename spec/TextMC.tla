------------------------------- MODULE TextMC -------------------------------
(* Exhaustive check of what Text promises: texts are built byte by byte from representatives of every byte class. *)
EXTENDS Text, FiniteSets
CONSTANTS Bytes, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Bytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s
RECURSIVE Well(_, _), Shape(_, _)
Well(t, i) == i > Len(t) \/ (LET n == WF(t, i) IN n > 0 /\ Printable(t, i, n) /\ Well(t, i + n))
Shape(t, i) == i > Len(t) \/ (WF(t, i) > 0 /\ Printable(t, i, WF(t, i)) /\ Shape(t, i + WF(t, i)))
Out == San(s, 1)
Clean == Well(Out, 1)                                  \* the output is well formed and printable
Keeps == Shape(s, 1) => Out = s                        \* clean text is kept
Idem == San(Out, 1) = Out
WidthIn == \A o \in 0..Len(s) : o + Width(s, o) <= Len(s)
WFValid == \A i \in 1..Len(s) : WF(s, i) > 0 => Width(s, i - 1) = WF(s, i)
RoundTrip == IsB64(B64Enc(s)) = (s # <<>>) /\ B64Dec(B64Enc(s)) = s
HexRound == LET h == [i \in 1..(2 * Len(s)) |-> Hex(IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16)] IN HexOk(h) /\ HexDec(h) = s
TrimOnce == LTrim(LTrim(s)) = LTrim(s) /\ RTrim(LTrim(s)) = LTrim(RTrim(s)) /\ Len(LTrim(s)) <= Len(s)
=============================================================================
