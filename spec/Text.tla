-------------------------------- MODULE Text --------------------------------
(* What the text conversions must answer.  Bytes are numbers 0..255, texts are sequences of bytes. *)
EXTENDS Naturals, Sequences
Sub(s, i, n) == SubSeq(s, i, i + n - 1)
In(b, lo, hi) == b >= lo /\ b <= hi
Cont(b) == In(b, 128, 191)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 256      \* 256: past the end, in no class

(* Table 3-7 of the Unicode standard: length of the well-formed character at i, 0 if there is none *)
WF(s, i) ==
  LET b1 == At(s, i)  b2 == At(s, i+1)  b3 == At(s, i+2)  b4 == At(s, i+3) IN
  CASE b1 <= 127 -> 1
    [] In(b1, 194, 223) /\ Cont(b2) -> 2
    [] b1 = 224 /\ In(b2, 160, 191) /\ Cont(b3) -> 3
    [] (In(b1, 225, 236) \/ In(b1, 238, 239)) /\ Cont(b2) /\ Cont(b3) -> 3
    [] b1 = 237 /\ In(b2, 128, 159) /\ Cont(b3) -> 3
    [] b1 = 240 /\ In(b2, 144, 191) /\ Cont(b3) /\ Cont(b4) -> 4
    [] In(b1, 241, 243) /\ Cont(b2) /\ Cont(b3) /\ Cont(b4) -> 4
    [] b1 = 244 /\ In(b2, 128, 143) /\ Cont(b3) /\ Cont(b4) -> 4
    [] OTHER -> 0
(* C0 controls, DEL, and U+0080..U+009F (C2 80 .. C2 9F) are not printable *)
Printable(s, i, n) == /\ n = 1 => s[i] >= 32 /\ s[i] # 127
                      /\ n = 2 => ~ (s[i] = 194 /\ In(s[i+1], 128, 159))
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Esc(b) == <<92, 120, 123, Hex(b \div 16), Hex(b % 16), 125>>   \* \x{hh}
RECURSIVE EscAll(_), San(_, _)
EscAll(s) == IF s = <<>> THEN <<>> ELSE Esc(Head(s)) \o EscAll(Tail(s))
San(s, i) == IF i > Len(s) THEN <<>>
             ELSE LET n == WF(s, i) IN
                  IF n = 0 THEN Esc(s[i]) \o San(s, i + 1)
                  ELSE (IF Printable(s, i, n) THEN Sub(s, i, n) ELSE EscAll(Sub(s, i, n))) \o San(s, i + n)

(* character width as SQL uses it: lead byte class plus continuation bytes, all of them inside the text *)
Width(s, off) ==
  LET i == off + 1  b1 == At(s, i) IN
  CASE b1 <= 127 -> 1
    [] In(b1, 194, 223) /\ Cont(At(s, i+1)) -> 2
    [] In(b1, 224, 239) /\ Cont(At(s, i+1)) /\ Cont(At(s, i+2)) -> 3
    [] In(b1, 240, 244) /\ Cont(At(s, i+1)) /\ Cont(At(s, i+2)) /\ Cont(At(s, i+3)) -> 4
    [] OTHER -> 0
RECURSIVE Valid(_, _)
Valid(s, off) == off >= Len(s) \/ (LET w == Width(s, off) IN w > 0 /\ Valid(s, off + w))

HexVal(b) == CASE In(b, 48, 57) -> b - 48 [] In(b, 65, 70) -> b - 55 [] In(b, 97, 102) -> b - 87 [] OTHER -> 16
HexOk(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) < 16
HexDec(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2*i-1]) + HexVal(s[2*i])]

B64(n) == CASE n < 26 -> 65 + n [] n < 52 -> 71 + n [] n < 62 -> n - 4 [] n = 62 -> 43 [] OTHER -> 47
B64Val(b) == CASE In(b, 65, 90) -> b - 65 [] In(b, 97, 122) -> b - 71 [] In(b, 48, 57) -> b + 4 [] b = 43 -> 62 [] b = 47 -> 63 [] OTHER -> 64
RECURSIVE B64Enc(_)
B64Enc(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET a == s[1]  b == IF Len(s) > 1 THEN s[2] ELSE 0  c == IF Len(s) > 2 THEN s[3] ELSE 0 IN
       <<B64(a \div 4), B64((a % 4) * 16 + b \div 16),
         IF Len(s) > 1 THEN B64((b % 16) * 4 + c \div 64) ELSE 61,
         IF Len(s) > 2 THEN B64(c % 64) ELSE 61>> \o (IF Len(s) > 3 THEN B64Enc(SubSeq(s, 4, Len(s))) ELSE <<>>)
IsB64(s) == /\ Len(s) > 0 /\ Len(s) % 4 = 0
            /\ \A i \in 1..Len(s) : \/ B64Val(s[i]) < 64
                                    \/ s[i] = 61 /\ i >= Len(s) - 1 /\ s[Len(s)] = 61
RECURSIVE B64Dec(_)
B64Dec(s) ==  \* s well formed
  IF s = <<>> THEN <<>>
  ELSE LET a == B64Val(s[1])  b == B64Val(s[2])  c == B64Val(s[3])  d == B64Val(s[4])
           x == a * 4 + b \div 16  y == (b % 16) * 16 + (c % 64) \div 4  z == (c % 4) * 64 + (d % 64) IN
       (IF c = 64 THEN <<x>> ELSE IF d = 64 THEN <<x, y>> ELSE <<x, y, z>>) \o B64Dec(SubSeq(s, 5, Len(s)))

RECURSIVE LTrim(_), RTrim(_), Ctl(_)
LTrim(s) == IF s # <<>> /\ s[1] = 32 THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Ctl(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) >= 128 THEN <<>> ELSE IF Head(s) < 32 THEN <<33>> ELSE <<Head(s)>>) \o Ctl(Tail(s))
Prefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Bin(_, _), Lit(_)
Bin(s, hy) == IF s = <<>> THEN <<>> ELSE <<Hex(s[1] \div 16), Hex(s[1] % 16)>> \o (IF Len(s) > 1 /\ hy = 1 THEN <<45>> ELSE <<>>) \o Bin(Tail(s), hy)
Lit(s) == IF s = <<>> THEN <<>> ELSE (IF In(s[1], 32, 126) THEN <<s[1]>> ELSE <<92, 117, 48, 48, Hex(s[1] \div 16), Hex(s[1] % 16)>>) \o Lit(Tail(s))

Answer(op, a) ==
  CASE op = "san" -> San(a[1], 1)
    [] op = "enc" -> Width(a[1], a[2])
    [] op = "utf8" -> Valid(a[1], 0)
    [] op = "hex" -> IF HexOk(a[1]) THEN HexDec(a[1]) ELSE <<999>>
    [] op = "b64e" -> B64Enc(a[1])
    [] op = "isb64" -> IsB64(a[1])
    [] op = "b64d" -> B64Dec(a[1])
    [] op = "ctl" -> Ctl(a[1])
    [] op = "ltrim" -> LTrim(a[1])
    [] op = "rtrim" -> RTrim(a[1])
    [] op = "pre" -> Prefix(a[1], a[2])
    [] op = "be" -> IF Len(a[1]) = 8 THEN a[1] ELSE <<999>>
    [] op = "sid" -> Len(a[1]) = 8 /\ a[1][1] = 0
    [] op = "bin" -> Bin(a[1], a[2]) \o <<49, 48>>   \* and the stream is back in its own number base
    [] op = "lit" -> Lit(a[1])
TInit(a) == 0
TStep(st, o, v) == IF v = Answer(o.op, o.a) THEN {0} ELSE {}
=============================================================================
