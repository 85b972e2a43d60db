------------------------------ MODULE MC_Path -----------------------------
(* Every expression over a small alphabet, typed one character at a time,   *)
(* and every path over a small set of tokens, built one token at a time.    *)
EXTENDS Path, Json
CONSTANTS MaxStr, MaxToks
Alphabet == {36, 46, 91, 93, 39, 92, 42, 97, 49, 45, 32, 233, 178}
Names == {S("a"), S("a1"), S("a b"), S("'"), S("\\"), S("\\'"), S("a\\"), S("1"), S("*"), S("."), S("]"), S("[0]"), <<233>>, S("$"), S("a-b")}
Toks == {Field(n) : n \in Names} \cup {Index(S("0")), Index(S("12")), Star, StarIdx}
VARIABLES s, ts
vars == <<s, ts>>
Init == (s = <<>> /\ ts = <<Root>>)
Type == /\ ts = <<Root>> /\ Len(s) < MaxStr /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED ts
Build == /\ s = <<>> /\ Len(ts) <= MaxToks /\ \E t \in Toks : ts' = Append(ts, t) /\ UNCHANGED s
Next == Type \/ Build
(* printing and parsing are inverse *)
RoundTrip == Parse(Render(ts)) = Ok(ts)
Canonical == LET r == Parse(s) IN r.ok /\ s # <<>> => Printable(r.toks) /\ Parse(Render(r.toks)) = r
(* different paths print differently *)
Pointers == ~HasStar(ts) => Len(Split(Pointer(ts), 47)) = Len(ts)
(* a path without wildcards addresses exactly one way down *)
Addresses == ~HasStar(ts) => LET way == [i \in DOMAIN ts |-> TokStr(ts[i])] IN
   MatchesExactly(ts, way) /\ Weight(ts, way) = Pow2(Len(ts))
Emit == PrintT("VEC " \o ToJson([s |-> s', ts |-> ts']))
=============================================================================
