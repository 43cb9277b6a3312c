------------------------------- MODULE WireMC -------------------------------
(* Laws of the format itself, over boundary values of every kind: decoding inverts encoding whatever follows it
   (the format is self-delimiting), no proper prefix of an encoding decodes, the header tells the kind, and bytes
   that decode canonically re-encode to themselves. *)
EXTENDS Wire, TLC
CONSTANTS Edge
VARIABLES k, v
E8 == {b \in [1..8 -> Edge] : Cardinality({i \in 1..7 : b[i] # b[i + 1]}) <= 2}
T8(S) == {U64(x) : x \in S} \cup {Negate(U64(x)) : x \in S}
Nums == E8 \cup T8({0, 1, 15, 16, 17, 63, 64, 127, 128, 8191, 8192, 16383, 16384})
Small == T8({0, 1, 64, 8192})
Pos == {U64(0), U64(127), U64(128), U64(999999999)}
Mags == {Zeros(16)} \cup {Zeros(n) \o <<a>> \o [i \in 1..15 - n |-> b] : n \in 0..15, a \in {1, 127, 128, 255}, b \in {0, 255}}
Str(S) == UNION {{[i \in 1..n |-> IF i = 1 THEN 7 ELSE 255] : n \in S}}
Vals == [x \in {"end", "null", "int", "f4", "f8", "dec", "char", "oct", "bit", "date", "tod", "todz", "tp", "tpz", "ival", "row", "array", "clob", "blob"} |->
  CASE x \in {"end", "null"} -> {<<>>}
    [] x \in {"int", "date"} -> Nums
    [] x = "tod" -> Nums
    [] x = "f4" -> {<<a, b, 0, 255>> : a \in Edge, b \in Edge}
    [] x = "f8" -> {<<a, b, 0, 255, 1, 2, 3, 4>> : a \in Edge, b \in Edge}
    [] x = "dec" -> {<<IF m = Zeros(16) THEN 1 ELSE s>> \o m \o e : s \in {0, 2}, m \in Mags, e \in Small}
    [] x = "char" -> Str({0, 1, 2, 63, 64, 65, 127, 128, 129})
    [] x = "oct" -> Str({0, 1, 15, 16, 17, 128})
    [] x = "bit" -> {[i \in 1..n |-> (i * m) % 2] : n \in {0, 1, 7, 8, 9, 16, 17, 127, 128}, m \in {0, 1}}
    [] x = "todz" -> {a \o b : a \in Pos, b \in Small}
    [] x = "tp" -> {a \o b : a \in Small, b \in Pos}
    [] x = "tpz" -> {a \o b \o c : a \in Small, b \in Pos, c \in Small}
    [] x = "ival" -> {a \o b \o c \o d : a \in Small, b \in Small, c \in {U64(1)}, d \in Small}
    [] x \in {"row", "array"} -> {U64(n) : n \in {0, 1, 2, 31, 32, 33, 127, 128, 2147483647}}
    [] x \in {"clob", "blob"} -> {a \o b \o U64(3) : a \in Small, b \in Small}]
Init == \E x \in DOMAIN Vals : k = x /\ v \in Vals[x]
Spec == Init /\ [][UNCHANGED <<k, v>>]_<<k, v>>
e == Enc(k, v)
RoundTrip == Dec(k, e) = [n |-> Len(e), v |-> v]
SelfDelimiting == \A t \in {<<0>>, <<128>>, <<255, 1>>} : Dec(k, e \o t) = [n |-> Len(e), v |-> v]
PrefixFree == \A n \in 0..Min2(Len(e) - 1, 30) : Dec(k, SubSeq(e, 1, n)) = NoV
HeaderTells == Peek(e) = k \/ (k = "dec" /\ Peek(e) = "int")
Compact == k = "int" => Len(e) <= 10
=============================================================================
