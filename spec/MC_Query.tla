------------------------------ MODULE MC_Query ----------------------------
(* Query strings typed one character at a time, and maps built one value    *)
(* at a time.                                                               *)
EXTENDS Query, Json
CONSTANTS MaxStr, MaxVals
Alphabet == {97, Pct, Plus, Amp, Eq, 50, 54, 102, 195, 122}
Names == {S("a"), S("a b"), S("a&b"), S("="), S("%26"), <<233>>, S("+")}
Values == {<<0>>, <<1, <<>>>>, <<1, S("b")>>, <<1, S("a=b&c")>>, <<1, S("50%+")>>, <<1, <<128512, 32, 955>>>>, <<1, <<10>>>>}
VARIABLES s, m
vars == <<s, m>>
Init == s = <<>> /\ m = <<>>
RECURSIVE Count(_)
Count(x) == IF x = <<>> THEN 0 ELSE Len(x[1][2]) + Count(Tail(x))
Type == m = <<>> /\ Len(s) < MaxStr /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED m
Add == s = <<>> /\ Count(m) < MaxVals /\ \E n \in Names, v \in Values : m' = Put(m, n, v) /\ UNCHANGED s
Next == Type \/ Add
(* building a query string and parsing it are inverse on what can be expressed *)
RoundTrip == ParseQuery(Build(m)) = Expressible(m)
Normal == LET q == ParseQuery(s) IN ParseQuery(Build(q)) = Expressible(q)
DecodeEncode == \A k \in DOMAIN m : EncodingOf(m[k][1], Encode(m[k][1]))
Emit == PrintT("VEC " \o ToJson([s |-> s', m |-> m']))
=============================================================================
