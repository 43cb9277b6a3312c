------------------------------- MODULE CoderMC -------------------------------
(* Laws of the encoding, for pairs of rows of one or two fields: the bytes order as the rows do, equal rows have equal
   bytes and only they, no key is the beginning of another one, and what was written is read back, whatever follows. *)
EXTENDS Coder, TLC
CONSTANTS Two        \* rows of two fields as well
Fld(t, o, n, p, s, var) == [t |-> t, o |-> o, n |-> n, p |-> p, s |-> s, var |-> var]
Ints(w) == {<<1, 0>>, <<1, 0, 1>>, <<1, 1, 1>>, <<1, 0>> \o <<127>> \o Rep(255, w - 1), <<1, 1>> \o <<128>> \o Rep(0, w - 1)} \cup
           (IF w > 1 THEN {<<1, 0, 255>>, <<1, 1, 255>>, <<1, 0, 1, 0>>, <<1, 1, 1, 0>>} ELSE {<<1, 1, 127>>})
Floats == {<<1>> \o b : b \in {<<0,0,0,0>>, <<128,0,0,0>>, <<0,0,0,1>>, <<128,0,0,1>>, <<63,128,0,0>>, <<191,128,0,0>>, <<127,128,0,0>>, <<255,128,0,0>>, <<127,192,0,0>>, <<255,192,1,0>>}}
Decs == {<<1,0,0>>, <<1,0,-1>>, <<1,0,0,1>>, <<1,1,0,1>>, <<1,0,-1,1,0>>, <<1,0,-1,9>>, <<1,1,-1,9>>, <<1,0,0,9,9>>, <<1,1,0,9,9>>, <<1,0,1,1>>, <<1,0,-2,5,0>>, <<1,0,-2,5>>, <<1,0,2,1>>, <<1,0,0,1,0,0>>}
Strs == {<<1>> \o b : b \in {<<>>, <<32>>, <<97>>, <<97, 32>>, <<97, 97>>, <<255>>, <<97, 255>>, <<1>>, <<97, 1>>, <<97, 97, 97>>}}
Octs == Strs \cup {<<1, 0>>, <<1, 97, 0>>, <<1, 0, 97>>}
Pts == {<<1, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 1>>, <<1, 1, 0, 0, 0, 1, 1>>, <<1, 1, 59, 154, 201, 255, 1>>, <<1, 0, 59, 154, 201, 255, 255>>, <<1, 1, 0, 0, 0, 0, 1, 0>>}
Types == {<<Fld("1", o, n, -1, -1, TRUE), Ints(1)>> : o \in {"a", "d"}, n \in BOOLEAN} \cup
         {<<Fld("4", o, n, -1, -1, TRUE), Ints(4)>> : o \in {"a", "d"}, n \in BOOLEAN} \cup
         {<<Fld("g", o, n, -1, -1, TRUE), Floats>> : o \in {"a", "d"}, n \in BOOLEAN} \cup
         {<<Fld("n", o, n, 3, 1, TRUE), Decs>> : o \in {"a", "d"}, n \in BOOLEAN} \cup
         {<<Fld("s", o, n, 2, -1, var), Strs>> : o \in {"a", "d"}, n \in BOOLEAN, var \in BOOLEAN} \cup
         {<<Fld("o", o, n, 2, -1, FALSE), Octs>> : o \in {"a", "d"}, n \in BOOLEAN} \cup
         {<<Fld("p", o, n, -1, -1, TRUE), Pts>> : o \in {"a", "d"}, n \in BOOLEAN}
Vals(t) == t[2] \cup (IF t[1].n THEN {<<>>} ELSE {})
Small(t) == {x \in Vals(t) : Len(x) <= 3}
Second == {t \in Types : t[1].t \in {"1", "s"} /\ t[1].n}
VARIABLES fs, a, b
vars == <<fs, a, b>>
Rows == IF Len(fs) = 1 THEN {<<v>> : v \in UNION {Vals(t) : t \in {x \in Types : x[1] = fs[1]}}}
        ELSE {<<v, w>> : v \in UNION {Small(t) : t \in {x \in Types : x[1] = fs[1]}}, w \in UNION {Small(t) : t \in {x \in Types : x[1] = fs[2]}}}
Init == /\ \/ \E t \in Types : fs = <<t[1]>>
           \/ Two /\ \E t \in Types, u \in Second : fs = <<t[1], u[1]>>
        /\ a = <<>> /\ b = <<>>
Next == a = <<>> /\ a' \in Rows /\ b' \in Rows /\ UNCHANGED fs
Spec == Init /\ [][Next]_vars
EA == IF a = <<>> THEN No("none") ELSE Enc(fs, a, TRUE)
EB == IF b = <<>> THEN No("none") ELSE Enc(fs, b, TRUE)
Both == EA.r = "ok" /\ EB.r = "ok"
Ordered == Both => Lex(EA.b, EB.b) = Cmp(fs, a, b)
PrefixFree == Both /\ Len(EA.b) < Len(EB.b) => SubSeq(EB.b, 1, Len(EA.b)) # EA.b
Back == Both => Dec(fs, EA.b \o EB.b) = Got([i \in 1..Len(fs) |-> Stored(fs[i], a[i])], Len(EA.b))
Short == EA.r = "ok" => \A n \in 0..(Len(EA.b) - 1) : Dec(fs, SubSeq(EA.b, 1, n)) = Bad
Equal == Both => (Cmp(fs, a, b) = 0 <=> [i \in 1..Len(fs) |-> Stored(fs[i], a[i])] = [i \in 1..Len(fs) |-> Stored(fs[i], b[i])])
=============================================================================
