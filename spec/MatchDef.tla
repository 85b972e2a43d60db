------------------------------ MODULE MatchDef -----------------------------
(* Matching rule definition expressions: tokens, grammar and meaning.       *)
(* A definition is <<value, type, rules, generator (<<>> or <<g>>), text>>,  *)
(* a rule a tuple <<name, ...>> or <<"ref", name>> for a reference.          *)
EXTENDS Lib
N == INSTANCE Num
Fail == <<"no">>
IsOk(r) == r[1] = "ok"

(* ---------------- tokens ---------------- *)
Blank == {32, 9, 10, 12}
RECURSIVE Close(_, _), Skip(_, _, _)
Close(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 39 THEN i ELSE IF s[i] = 92 THEN Close(s, i + 2) ELSE Close(s, i + 1)
InClass(cls, c) == CASE cls = "digit" -> IsDigit(c) [] cls = "alpha" -> IsAlpha(c) [] OTHER -> c \in Blank
Skip(s, i, cls) == IF i <= Len(s) /\ InClass(cls, s[i]) THEN Skip(s, i + 1, cls) ELSE i
DigitAt(s, i) == i <= Len(s) /\ IsDigit(s[i])
Single == {40, 41, 44, 36}        \* ( ) , $
RECURSIVE LexFrom(_, _)
LexFrom(s, i0) ==
  LET i == Skip(s, i0, "blank") IN
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in Single THEN <<<<"p", s[i]>>>> \o LexFrom(s, i + 1)
  ELSE IF s[i] = 39 THEN
    LET j == Close(s, i + 1) IN
    IF j = 0 THEN <<<<"open">>>> ELSE <<<<"str", SubSeq(s, i + 1, j - 1)>>>> \o LexFrom(s, j + 1)
  ELSE IF IsAlpha(s[i]) THEN
    LET j == Skip(s, i, "alpha") IN <<<<"word", SubSeq(s, i, j - 1)>>>> \o LexFrom(s, j)
  ELSE IF IsDigit(s[i]) \/ (s[i] = 45 /\ DigitAt(s, i + 1)) THEN
    LET j == Skip(s, i + 1, "digit") IN
    IF j <= Len(s) /\ s[j] = 46 /\ DigitAt(s, j + 1)
    THEN LET k == Skip(s, j + 1, "digit") IN <<<<"dec", SubSeq(s, i, k - 1)>>>> \o LexFrom(s, k)
    ELSE <<<<(IF s[i] = 45 THEN "neg" ELSE "nat"), SubSeq(s, i, j - 1)>>>> \o LexFrom(s, j)
  ELSE IF s[i] = 13 THEN <<<<"open">>>>
  ELSE <<<<"bad">>>>
Lex(s) == LexFrom(s, 1)

(* escapes: <<"ok", text>>, <<"no">>, or <<"any">> where they are not specified *)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE ToLower(c) - 87
HexC(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
RECURSIVE Hex(_), DropZ(_), Unesc(_, _)
Hex(h) == IF h = <<>> THEN 0 ELSE 16 * Hex(SubSeq(h, 1, Len(h) - 1)) + HexVal(h[Len(h)])
DropZ(h) == IF Len(h) > 1 /\ h[1] = 48 THEN DropZ(Tail(h)) ELSE h
CharOf(h) == IF h = <<>> THEN Fail
             ELSE IF h[1] = 43 THEN <<"any">>
             ELSE IF \E i \in DOMAIN h : ~HexC(h[i]) THEN Fail
             ELSE LET z == DropZ(h) IN
                  IF Len(z) > 6 THEN <<"any">>
                  ELSE LET n == Hex(z) IN <<"ok", <<IF n > 1114111 \/ (n >= 55296 /\ n <= 57343) THEN 65533 ELSE n>>>>
Simple == {98, 102, 110, 114, 116, 92}
SimpleOf(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 92
Unesc(s, i) ==
  IF i > Len(s) THEN <<"ok", <<>>>>
  ELSE LET more(c, j) == IF c[1] # "ok" THEN c
                         ELSE LET r == Unesc(s, j) IN IF IsOk(r) THEN <<"ok", c[2] \o r[2]>> ELSE r IN
       IF s[i] # 92 THEN more(<<"ok", <<s[i]>>>>, i + 1)
       ELSE IF i = Len(s) THEN <<"ok", <<92>>>>
       ELSE IF s[i + 1] \in Simple THEN more(<<"ok", <<SimpleOf(s[i + 1])>>>>, i + 2)
       ELSE IF s[i + 1] = 117 THEN
         IF i + 2 <= Len(s) /\ s[i + 2] = 123
         THEN LET j == IndexFrom(s, 125, i + 3) IN IF j = 0 THEN Fail ELSE more(CharOf(SubSeq(s, i + 3, j - 1)), j + 1)
         ELSE IF i + 5 <= Len(s) THEN more(CharOf(SubSeq(s, i + 2, i + 5)), i + 6) ELSE Fail
       ELSE more(<<"ok", <<92, s[i + 1]>>>>, i + 2)      \* kept (also before a quote)
Text(raw) == Unesc(raw, 1)

(* ---------------- versions ---------------- *)
NumIdent(s) == AllDigits(s) /\ (Len(s) > 1 => s[1] # 48)
IdentC(c) == IsAlnum(c) \/ c = 45
Idents(s, pre) == LET ps == Split(s, 46) IN
  \A i \in DOMAIN ps : ps[i] # <<>> /\ (\A j \in DOMAIN ps[i] : IdentC(ps[i][j])) /\ (pre /\ AllDigits(ps[i]) => NumIdent(ps[i]))
SemVer(s) ==
  LET b == IndexFrom(s, 43, 1)
      rest == IF b = 0 THEN s ELSE SubSeq(s, 1, b - 1)
      p == IndexFrom(rest, 45, 1)
      core == Split(IF p = 0 THEN rest ELSE SubSeq(rest, 1, p - 1), 46) IN
  /\ b # 0 => Idents(From(s, b + 1), FALSE)
  /\ p # 0 => Idents(From(rest, p + 1), TRUE)
  /\ Len(core) = 3 /\ \A i \in 1..3 : NumIdent(core[i]) /\ N!In(N!Dec(core[i]), N!U64)

(* ---------------- grammar ---------------- *)
P(ts, i, c) == i <= Len(ts) /\ ts[i] = <<"p", c>>
Is(ts, i, k) == i <= Len(ts) /\ ts[i][1] = k
W(ts, i, w) == i <= Len(ts) /\ ts[i] = <<"word", S(w)>>
DT(t) == CASE t = "Unknown" -> "RAW" [] t = "String" -> "STRING" [] t = "Integer" -> "INTEGER" [] t = "Boolean" -> "BOOLEAN" [] OTHER -> "DECIMAL"
(* a primitive value: <<"ok", next, value, type, generator>> *)
Literal(ts, i) ==
  IF Is(ts, i, "str") THEN <<"ok", i + 1, Text(ts[i][2])[2], "String", <<>>>>
  ELSE IF W(ts, i, "null") THEN <<"ok", i + 1, <<>>, "String", <<>>>>
  ELSE IF Is(ts, i, "nat") \/ Is(ts, i, "neg") THEN <<"ok", i + 1, ts[i][2], "Integer", <<>>>>
  ELSE IF Is(ts, i, "dec") THEN <<"ok", i + 1, ts[i][2], "Decimal", <<>>>>
  ELSE IF W(ts, i, "true") \/ W(ts, i, "false") THEN <<"ok", i + 1, ts[i][2], "Boolean", <<>>>>
  ELSE Fail
(* fromProviderState('expression', value) *)
State(ts, i) ==
  IF ~(W(ts, i, "fromProviderState") /\ P(ts, i + 1, 40) /\ Is(ts, i + 2, "str") /\ P(ts, i + 3, 44)) THEN Fail
  ELSE LET v == Literal(ts, i + 4) IN
       IF ~IsOk(v) \/ ~P(ts, v[2], 41) THEN Fail
       ELSE <<"ok", v[2] + 1, v[3], v[4], <<<<"ProviderState", Text(ts[i + 2][2])[2], <<DT(v[4])>>>>>>>>
Prim(ts, i) == IF W(ts, i, "fromProviderState") THEN State(ts, i) ELSE Literal(ts, i)
(* , 'text' *)
Str(ts, i) == IF P(ts, i, 44) /\ Is(ts, i + 1, "str") THEN <<"ok", i + 2, Text(ts[i + 1][2])[2]>> ELSE Fail
Dated == [datetime |-> "DateTime", date |-> "Date", time |-> "Time"]
(* TYPE [, CONFIG], EXAMPLE: <<"ok", next, value, type, rule, generator>> *)
Rule(ts, i) ==
  LET val(rule, ok(_), t) ==         \* , value
        IF ~P(ts, i + 1, 44) THEN Fail
        ELSE LET v == Prim(ts, i + 2) IN
             IF ~IsOk(v) \/ (v[5] = <<>> /\ ~ok(v)) THEN Fail
             ELSE <<"ok", v[2], v[3], IF v[5] # <<>> \/ t = "" THEN v[4] ELSE t, rule, v[5]>>
      one(rule) == LET v == Str(ts, i + 1) IN IF IsOk(v) THEN <<"ok", v[2], v[3], "String", rule, <<>>>> ELSE Fail
      two(name, t) == LET c == Str(ts, i + 1)
                          v == IF IsOk(c) THEN Str(ts, c[2]) ELSE Fail IN
                      IF IsOk(v) THEN <<"ok", v[2], v[3], t, <<name, c[3]>>, <<>>>> ELSE Fail
      dated(name) == LET c == Str(ts, i + 1) IN
                     IF ~IsOk(c) \/ ~P(ts, c[2], 44) THEN Fail
                     ELSE IF Is(ts, c[2] + 1, "str")
                          THEN <<"ok", c[2] + 2, Text(ts[c[2] + 1][2])[2], "String", <<name, c[3]>>, <<<<Dated[name], <<c[3]>>, <<>>>>>>>>
                     ELSE LET v == State(ts, c[2] + 1) IN
                          IF IsOk(v) THEN <<"ok", v[2], v[3], v[4], <<name, c[3]>>, v[5]>> ELSE Fail IN
  CASE W(ts, i, "equalTo") -> val(<<"equality">>, LAMBDA v : TRUE, "")
    [] W(ts, i, "type") -> val(<<"type">>, LAMBDA v : TRUE, "")
    [] W(ts, i, "number") -> val(<<"number">>, LAMBDA v : v[4] \in {"Integer", "Decimal"}, "Number")
    [] W(ts, i, "integer") -> val(<<"integer">>, LAMBDA v : v[4] = "Integer", "Integer")
    [] W(ts, i, "decimal") -> val(<<"decimal">>, LAMBDA v : v[4] \in {"Integer", "Decimal"}, "Decimal")
    [] W(ts, i, "boolean") -> LET r == val(<<"boolean">>, LAMBDA v : v[4] = "Boolean", "Boolean") IN IF IsOk(r) /\ r[6] # <<>> THEN Fail ELSE r
    [] W(ts, i, "datetime") -> dated("datetime")
    [] W(ts, i, "date") -> dated("date")
    [] W(ts, i, "time") -> dated("time")
    [] W(ts, i, "regex") -> two("regex", "String")
    [] W(ts, i, "contentType") -> two("contentType", "Unknown")
    [] W(ts, i, "include") -> LET v == Str(ts, i + 1) IN IF IsOk(v) THEN one(<<"include", v[3]>>) ELSE Fail
    [] W(ts, i, "semver") -> LET v == Str(ts, i + 1) IN IF IsOk(v) /\ SemVer(v[3]) THEN one(<<"semver">>) ELSE Fail
    [] P(ts, i, 36) -> IF Is(ts, i + 1, "str") THEN LET t == Text(ts[i + 1][2])[2] IN <<"ok", i + 2, t, "Unknown", <<"ref", t>>, <<>>>> ELSE Fail
    [] OTHER -> Fail
(* <<"ok", next, definition>> *)
RECURSIVE Exp(_, _, _)
Exp(ts, i, s) ==
  LET end(r, d) == IF IsOk(r) /\ P(ts, r[2], 41) THEN <<"ok", r[2] + 1, d>> ELSE Fail
      each(name) == LET r == Exp(ts, i + 2, s) IN IF IsOk(r) THEN end(r, <<<<>>, "Unknown", <<<<name, r[3]>>>>, <<>>, s>>) ELSE Fail
      size(name) == IF Is(ts, i + 2, "nat") THEN end(<<"ok", i + 3>>, <<<<>>, "Unknown", <<<<name, DropZ(ts[i + 2][2])>>>>, <<>>, s>>) ELSE Fail IN
  IF ~P(ts, i + 1, 40) THEN Fail
  ELSE CASE W(ts, i, "matching") -> LET r == Rule(ts, i + 2) IN IF IsOk(r) THEN end(r, <<r[3], r[4], <<r[5]>>, r[6], s>>) ELSE Fail
         [] W(ts, i, "notEmpty") -> LET r == Prim(ts, i + 2) IN IF IsOk(r) THEN end(r, <<r[3], r[4], <<<<"notEmpty">>>>, r[5], s>>) ELSE Fail
         [] W(ts, i, "eachKey") -> each("eachKey")
         [] W(ts, i, "eachValue") -> each("eachValue")
         [] W(ts, i, "atLeast") -> size("min")
         [] W(ts, i, "atMost") -> size("max")
         [] OTHER -> Fail

(* several definitions of one value *)
Rank(t) == CASE t = "Unknown" -> 0 [] t = "Boolean" -> 1 [] t = "Number" -> 2 [] t = "Integer" -> 3 [] t = "Decimal" -> 4 [] OTHER -> 5
MergeT(a, b) == IF Rank(a) >= Rank(b) THEN a ELSE b
MergeE(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> \/ a = b THEN a ELSE a \o S(", ") \o b
MergeD(a, b) == <<IF a[1] = <<>> THEN b[1] ELSE a[1], MergeT(a[2], b[2]), a[3] \o b[3], IF a[4] # <<>> THEN a[4] ELSE b[4], MergeE(a[5], b[5])>>
RECURSIVE Rest(_, _, _, _)
Rest(ts, i, s, d) == IF i > Len(ts) THEN <<"ok", d>>
                     ELSE IF ~P(ts, i, 44) THEN Fail
                     ELSE LET r == Exp(ts, i + 1, s) IN IF IsOk(r) THEN Rest(ts, r[2], s, MergeD(d, r[3])) ELSE Fail
Vague(t) == \/ t[1] = "open"
            \/ t[1] \in {"nat", "neg"} /\ Len(t[2]) > 18
            \/ t[1] = "str" /\ Text(t[2])[1] = "any"
Broken(t) == t[1] = "bad" \/ (t[1] = "str" /\ Text(t[2])[1] = "no")
(* <<"ok", definition>>, <<"no">> or <<"any">> *)
ParseDef(s) ==
  LET ts == Lex(s) IN
  IF \E i \in DOMAIN ts : Vague(ts[i]) THEN <<"any">>
  ELSE IF \E i \in DOMAIN ts : Broken(ts[i]) THEN Fail
  ELSE LET r == Exp(ts, 1, s) IN IF IsOk(r) THEN Rest(ts, r[2], s, r[3]) ELSE Fail
Starts(s) == LET ts == Lex(s) IN ts # <<>> /\ \E w \in {"matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost"} : ts[1] = <<"word", S(w)>>
=============================================================================
