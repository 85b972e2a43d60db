------------------------------- MODULE Query ------------------------------
(* Query strings.  A map of parameters is a sequence of <<name, values>>    *)
(* with distinct names in order; a value is <<0>> (no "=") or <<1, text>>.  *)
EXTENDS Utf8
Pct == 37  Plus == 43  Amp == 38  Eq == 61

(* percent and plus decoding, to bytes: an escape that is no two hex digits stands for itself *)
RECURSIVE Bytes(_, _)
Bytes(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = Pct THEN
    IF i + 2 <= Len(s) THEN
      IF HexVal(s[i+1]) >= 0 /\ HexVal(s[i+2]) >= 0 THEN <<16 * HexVal(s[i+1]) + HexVal(s[i+2])>> \o Bytes(s, i + 3)
      ELSE Utf8(SubSeq(s, i, i + 2)) \o Bytes(s, i + 3)
    ELSE Utf8(From(s, i))
  ELSE IF s[i] = Plus THEN <<32>> \o Bytes(s, i + 1)
  ELSE Utf8Of(s[i]) \o Bytes(s, i + 1)
Decode(s) == FromUtf8(Bytes(s, 1))
Text(s) == LET d == Decode(s) IN IF d[1] THEN d[2] ELSE s    \* bytes that are no text: kept as written

(* an encoding is any text without characters that have a meaning in a query, which decodes to the text *)
Reserved == {32, Amp, Eq, 35}
EncodingOf(t, e) == (\A i \in DOMAIN e : e[i] > 32 /\ e[i] < 127 /\ e[i] \notin Reserved) /\ Decode(e) = <<TRUE, t>>
RECURSIVE PctAll(_)
PctAll(b) == IF b = <<>> THEN <<>> ELSE <<Pct, HexDigit(Head(b) \div 16), HexDigit(Head(b) % 16)>> \o PctAll(Tail(b))
Encode(t) == Flat([i \in DOMAIN t |-> IF IsAlnum(t[i]) THEN <<t[i]>> ELSE IF t[i] = 32 THEN <<Plus>> ELSE PctAll(Utf8Of(t[i]))])

(* add a value to a map *)
RECURSIVE Put(_, _, _)
Put(m, k, v) ==
  IF m = <<>> THEN <<<<k, <<v>>>>>>
  ELSE LET c == Cmp(k, m[1][1]) IN
       IF c = 0 THEN <<<<k, Append(m[1][2], v)>>>> \o Tail(m)
       ELSE IF c < 0 THEN <<<<k, <<v>>>>>> \o m
       ELSE <<m[1]>> \o Put(Tail(m), k, v)
RECURSIVE ParseParts(_, _)
ParseParts(ps, m) ==
  IF ps = <<>> THEN m
  ELSE IF ps[1] = <<>> THEN ParseParts(Tail(ps), m)
  ELSE LET e == IndexFrom(ps[1], Eq, 1) IN
       ParseParts(Tail(ps), IF e = 0 THEN Put(m, Text(ps[1]), <<0>>)
                            ELSE Put(m, Text(SubSeq(ps[1], 1, e - 1)), <<1, Text(From(ps[1], e + 1))>>))
ParseQuery(s) == ParseParts(Split(s, Amp), <<>>)

(* what a query string can express: named parameters with at least one occurrence *)
Expressible(m) == SelectSeq(m, LAMBDA kv : kv[1] # <<>> /\ kv[2] # <<>>)
Build(m) == LET x == Expressible(m) IN
  JoinWith(Flat([i \in DOMAIN x |-> [j \in DOMAIN x[i][2] |->
      IF x[i][2][j][1] = 0 THEN Encode(x[i][1]) ELSE Encode(x[i][1]) \o <<Eq>> \o Encode(x[i][2][j][2])]]), <<Amp>>)

(* the JSON forms *)
ToJson34(m) == JObj([i \in DOMAIN m |-> <<m[i][1], JArr([j \in DOMAIN m[i][2] |->
                  IF m[i][2][j][1] = 0 THEN JNull ELSE JStr(m[i][2][j][2])])>>])
=============================================================================
