------------------------------- MODULE Rules -------------------------------
(* Matching rules as JSON.  A rule is a tagged tuple, numbers are digits:   *)
(*   <<"type">>  <<"regex", text>>  <<"min", digits>>  <<"minmax", d, d>>   *)
(*   <<"statusCode", name or seq of codes>>  <<"eachKey", value, rules, gen>> *)
(*   <<"arrayContains", seq of <<index digits, entries, gens>>>>            *)
(* An entry is <<tokens, combine, rules, path text>>; a category <<name, entries>>;    *)
(* gen is <<>> or <<JSON>>; gens a seq of <<tokens, JSON, path text>>.              *)
EXTENDS Path
RECURSIVE JFold(_, _)
JFold(ms, acc) == IF ms = <<>> THEN acc ELSE JFold(Tail(ms), JIns(acc, Head(ms)[1], Head(ms)[2]))
O(ms) == JObj(JFold(ms, <<>>))
KV(k, v) == <<S(k), v>>
M(name) == KV("match", JStr(S(name)))
NumJ(d) == IF Len(d) < 10 THEN JInt(NatOf(d)) ELSE <<"f", d>>
Plain == {"equality", "type", "number", "integer", "decimal", "boolean", "null", "values", "notEmpty", "semver"}
HasFormat == {"datetime", "date", "time"}
StatusNames == {"info", "success", "redirect", "clientError", "serverError", "nonError", "error"}

(* ---------------- written ---------------- *)
RECURSIVE RuleJson(_), EntryJson(_)
GenMembers(gens) == [i \in DOMAIN gens |-> <<gens[i][3], gens[i][2]>>]
EntryKey(e) == e[4]
RuleJson(r) ==
  CASE r[1] \in Plain -> O(<<M(r[1])>>)
    [] r[1] = "regex" -> O(<<M("regex"), KV("regex", JStr(r[2]))>>)
    [] r[1] = "min" -> O(<<M("type"), KV("min", NumJ(r[2]))>>)
    [] r[1] = "max" -> O(<<M("type"), KV("max", NumJ(r[2]))>>)
    [] r[1] = "minmax" -> O(<<M("type"), KV("min", NumJ(r[2])), KV("max", NumJ(r[3]))>>)
    [] r[1] \in HasFormat -> O(<<M(r[1]), KV("format", JStr(r[2]))>>)
    [] r[1] \in {"include", "contentType"} -> O(<<M(r[1]), KV("value", JStr(r[2]))>>)
    [] r[1] = "statusCode" -> O(<<M("statusCode"), KV("status", IF r[2][1] = "name" THEN JStr(S(r[2][2])) ELSE JArr([i \in DOMAIN r[2][2] |-> JInt(r[2][2][i])]))>>)
    [] r[1] = "arrayContains" ->
         O(<<M("arrayContains"), KV("variants", JArr([i \in DOMAIN r[2] |->
             LET v == r[2][i] IN
             O(<<KV("index", NumJ(v[1])), KV("rules", O([k \in DOMAIN v[2] |-> <<EntryKey(v[2][k]), EntryJson(v[2][k])>>]))>>
               \o (IF v[3] = <<>> THEN <<>> ELSE <<KV("generators", O(GenMembers(v[3])))>>))]))>>)
    [] OTHER ->   \* eachKey, eachValue
         O(<<M(r[1]), KV("rules", JArr([i \in DOMAIN r[3] |-> RuleJson(r[3][i])]))>>
           \o (IF r[2] = <<>> THEN <<>> ELSE <<KV("value", JStr(r[2]))>>)
           \o (IF r[4] = <<>> THEN <<>> ELSE <<KV("generator", r[4][1])>>))
EntryJson(e) == O(<<KV("combine", JStr(S(e[2]))), KV("matchers", JArr([i \in DOMAIN e[3] |-> RuleJson(e[3][i])]))>>)

ByName(cat) == cat \in {"header", "query"}
FieldsIn(ts) == SelectSeq(ts, LAMBDA t : t[1] = "field")
IsName(e) == FieldsIn(e[1]) # <<>>
(* entries of a category that V3 and V4 files can hold *)
V3Key(cat, e) == IF ByName(cat) THEN FieldsIn(e[1])[1][2] ELSE EntryKey(e)
V3Category(c) == IF c[1] = "path" THEN EntryJson(c[2][1])
                 ELSE O([i \in DOMAIN c[2] |-> <<V3Key(c[1], c[2][i]), EntryJson(c[2][i])>>])
V3Json(cs) == O([i \in DOMAIN cs |-> <<S(cs[i][1]), V3Category(cs[i])>>])
V2Name(cat) == IF cat = "header" THEN S("headers") ELSE S(cat)
Below(ts) == IF ts = <<>> THEN <<>> ELSE Tail(ts)
V2Key(cat, e) == CASE cat = "path" -> S("$.path")
                   [] cat = "body" -> S("$.body") \o (IF e[4] = <<>> THEN <<>> ELSE IF e[4][1] = Dollar THEN Tail(e[4]) ELSE <<Dot>> \o e[4])
                   [] OTHER -> Render(<<Root, Field(V2Name(cat))>> \o Below(e[1]))
V2Members(c) == [i \in DOMAIN c[2] |-> <<V2Key(c[1], c[2][i]), RuleJson(c[2][i][3][1])>>]
V2Json(cs) == O(Flat([i \in DOMAIN cs |-> V2Members(cs[i])]))

(* ---------------- read ---------------- *)
OkR(r) == [k |-> "ok", r |-> r]
ErrR == [k |-> "err", r |-> <<>>]
AnyR == [k |-> "any", r |-> <<>>]
Texty(v) == v[1] \in {"s", "n", "b", "i"}
Text(v) == CASE v[1] = "s" -> v[2]
             [] v[1] = "n" -> <<>>
             [] v[1] = "b" -> IF v[2] = 1 THEN S("true") ELSE S("false")
             [] OTHER -> IntStr(v[2])
Attr(o, k) == JGet(o, S(k))
Has(o, k) == JHas(o, S(k))
(* a whole number that is not negative, or its text; <<>> if it is not one, <<0>> if that is not specified *)
Whole(v) == CASE v[1] = "i" -> IF v[2] >= 0 THEN IntStr(v[2]) ELSE <<>>
              [] v[1] = "f" -> IF AllDigits(v[2]) /\ FitsIndex(v[2]) THEN v[2] ELSE <<0>>
              [] v[1] = "s" -> IF AllDigits(v[2]) /\ FitsIndex(v[2]) THEN StripZeros(v[2]) ELSE IF v[2] # <<>> /\ v[2][1] = 43 THEN <<0>> ELSE <<>>
              [] OTHER -> <<>>
WholeAt(o, k) == IF Has(o, k) THEN Whole(Attr(o, k)) ELSE <<>>
WithText(tag, o, k) == IF ~Has(o, k) THEN ErrR ELSE IF Texty(Attr(o, k)) THEN OkR(<<tag, Text(Attr(o, k))>>) ELSE AnyR
FormatOf(tag, o, own) == IF Has(o, "format") THEN WithText(tag, o, "format")
                         ELSE IF Has(o, own) THEN WithText(tag, o, own) ELSE OkR(<<tag, <<>>>>)
Sized(o, min, max) ==
  CASE min = <<0>> \/ max = <<0>> -> AnyR
    [] min # <<>> /\ max # <<>> -> OkR(<<"minmax", min, max>>)
    [] min # <<>> -> OkR(<<"min", min>>)
    [] max # <<>> -> OkR(<<"max", max>>)
    [] OTHER -> OkR(<<"type">>)
NeedSize(o, k) == LET d == WholeAt(o, k) IN IF d = <<0>> THEN AnyR ELSE IF d = <<>> THEN ErrR ELSE OkR(<<k, d>>)
CodeOf(v) == CASE v[1] = "i" -> IF v[2] >= 0 /\ v[2] <= 65535 THEN v[2] ELSE 0 - 1
               [] v[1] = "s" -> IF AllDigits(v[2]) /\ Len(StripZeros(v[2])) <= 5 /\ NatOf(v[2]) <= 65535 THEN NatOf(v[2]) ELSE IF v[2] # <<>> /\ v[2][1] = 43 THEN 0 - 2 ELSE 0 - 1
               [] v[1] = "f" -> IF AllDigits(v[2]) THEN 0 - 1 ELSE 0 - 2
               [] OTHER -> 0 - 1
StatusOf(o) ==
  IF ~Has(o, "status") THEN OkR(<<"statusCode", <<"name", "success">>>>)
  ELSE LET v == Attr(o, "status") IN
       CASE v[1] = "s" -> IF \E n \in StatusNames : S(n) = v[2] THEN OkR(<<"statusCode", <<"name", CHOOSE n \in StatusNames : S(n) = v[2]>>>>) ELSE ErrR
         [] v[1] = "a" -> LET c == [i \in DOMAIN v[2] |-> CodeOf(v[2][i])] IN
                          IF \E i \in DOMAIN c : c[i] = 0 - 1 THEN ErrR
                          ELSE IF \E i \in DOMAIN c : c[i] = 0 - 2 THEN AnyR ELSE OkR(<<"statusCode", <<"codes", c>>>>)
         [] OTHER -> ErrR
(* the results of a sequence, together *)
All(rs) == IF \E i \in DOMAIN rs : rs[i].k = "err" THEN ErrR
           ELSE IF \E i \in DOMAIN rs : rs[i].k = "any" THEN AnyR
           ELSE OkR([i \in DOMAIN rs |-> rs[i].r])
Combine(o) == IF o[1] = "o" /\ Has(o, "combine") /\ Attr(o, "combine")[1] = "s" /\ Upper(Attr(o, "combine")[2]) = S("OR") THEN "OR" ELSE "AND"
Named(names, k) == \E n \in names : S(n) = k
RECURSIVE ReadRule(_), ReadEntry(_, _, _), ReadEntries(_, _)
ReadMatchers(o) == IF o[1] = "o" /\ Has(o, "matchers") /\ Attr(o, "matchers")[1] = "a"
                   THEN All([i \in DOMAIN Attr(o, "matchers")[2] |-> ReadRule(Attr(o, "matchers")[2][i])]) ELSE OkR(<<>>)
ReadEntry(ts, expr, o) == LET m == ReadMatchers(o) IN IF m.k = "ok" THEN OkR(<<ts, Combine(o), m.r, expr>>) ELSE m
NonEmpty(es) == SelectSeq(es, LAMBDA e : e[3] # <<>>)
ReadEntries(cat, o) ==      \* of a JSON object; a path without rules does not matter
  LET ms == o[2]
      list == Has(o, "matchers") /\ (~ByName(cat) \/ Attr(o, "matchers")[1] = "a")
      rs == IF list THEN <<ReadEntry(<<>>, <<>>, o)>>
            ELSE [i \in DOMAIN ms |-> IF ByName(cat) THEN ReadEntry(<<Root, Field(ms[i][1])>>, Render(<<Root, Field(ms[i][1])>>), ms[i][2])
                                      ELSE LET p == Parse(ms[i][1]) IN IF p.ok THEN ReadEntry(p.toks, ms[i][1], ms[i][2]) ELSE ErrR]
      all == All(rs) IN
  IF all.k = "ok" THEN OkR(NonEmpty(all.r)) ELSE all
ReadGens(o) ==      \* generators are not looked into here
  LET ms == SelectSeq(o[2], LAMBDA m : m[2][1] = "o")
      ps == [i \in DOMAIN ms |-> Parse(ms[i][1])] IN
  IF \E i \in DOMAIN ps : ~ps[i].ok THEN ErrR ELSE OkR([i \in DOMAIN ps |-> <<ps[i].toks, ms[i][2], ms[i][1]>>])
ReadVariant(v) ==
  IF v[1] # "o" THEN AnyR
  ELSE LET index == WholeAt(v, "index")
           rules == IF ~Has(v, "rules") THEN OkR(<<<<<<>>, "AND", <<<<"equality">>>>, <<>>>>>>)
                    ELSE IF Attr(v, "rules")[1] = "o" THEN ReadEntries("body", Attr(v, "rules")) ELSE AnyR
           gens == IF Has(v, "generators") /\ Attr(v, "generators")[1] = "o" THEN ReadGens(Attr(v, "generators")) ELSE OkR(<<>>) IN
       IF rules.k = "err" \/ gens.k = "err" THEN ErrR
       ELSE IF index = <<0>> \/ rules.k = "any" THEN AnyR
       ELSE OkR(<<IF index = <<>> THEN S("0") ELSE index, rules.r, gens.r>>)
ReadEach(tag, o) ==
  LET rs == IF ~Has(o, "rules") THEN OkR(<<>>)
            ELSE IF Attr(o, "rules")[1] = "a" THEN All([i \in DOMAIN Attr(o, "rules")[2] |-> ReadRule(Attr(o, "rules")[2][i])]) ELSE ErrR
      gen == IF Has(o, "generator") /\ Attr(o, "generator")[1] = "o" /\ Has(Attr(o, "generator"), "type") /\ Attr(Attr(o, "generator"), "type")[1] = "s"
             THEN <<Attr(o, "generator")>> ELSE <<>> IN
  IF rs.k = "err" THEN ErrR
  ELSE IF rs.k = "any" \/ (Has(o, "value") /\ ~Texty(Attr(o, "value"))) THEN AnyR
  ELSE OkR(<<tag, IF Has(o, "value") THEN Text(Attr(o, "value")) ELSE <<>>, rs.r, gen>>)
Create(t, o) ==
  CASE Named({"equality", "number", "integer", "decimal", "boolean", "null", "values", "semver"}, t) -> OkR(<<CHOOSE n \in Plain : S(n) = t>>)
    [] Named({"real"}, t) -> OkR(<<"decimal">>)
    [] Named({"notEmpty", "not-empty"}, t) -> OkR(<<"notEmpty">>)
    [] Named({"regex"}, t) -> WithText("regex", o, "regex")
    [] Named({"include"}, t) -> WithText("include", o, "value")
    [] Named({"contentType", "content-type"}, t) -> WithText("contentType", o, "value")
    [] Named({"type"}, t) -> Sized(o, WholeAt(o, "min"), WholeAt(o, "max"))
    [] Named({"min", "min-type"}, t) -> NeedSize(o, "min")
    [] Named({"max", "max-type"}, t) -> NeedSize(o, "max")
    [] Named({"min-max-type"}, t) -> LET a == NeedSize(o, "min") b == NeedSize(o, "max") IN
         IF a.k = "ok" /\ b.k = "ok" THEN OkR(<<"minmax", a.r[2], b.r[2]>>) ELSE AnyR
    [] Named({"timestamp"}, t) -> FormatOf("datetime", o, "timestamp")
    [] Named({"datetime"}, t) -> FormatOf("datetime", o, "datetime")
    [] Named({"date"}, t) -> FormatOf("date", o, "date")
    [] Named({"time"}, t) -> FormatOf("time", o, "time")
    [] Named({"statusCode", "status-code"}, t) -> StatusOf(o)
    [] Named({"eachKey", "each-key"}, t) -> ReadEach("eachKey", o)
    [] Named({"eachValue", "each-value"}, t) -> ReadEach("eachValue", o)
    [] Named({"arrayContains", "array-contains"}, t) ->
         IF ~Has(o, "variants") \/ Attr(o, "variants")[1] # "a" THEN ErrR
         ELSE LET vs == All([i \in DOMAIN Attr(o, "variants")[2] |-> ReadVariant(Attr(o, "variants")[2][i])]) IN
              IF vs.k = "ok" THEN OkR(<<"arrayContains", vs.r>>) ELSE vs
    [] OTHER -> ErrR
ReadRule(o) ==
  IF o[1] # "o" THEN ErrR
  ELSE IF Has(o, "match") \/ Has(o, "pact:matcher:type") THEN
    LET m == IF Has(o, "match") THEN Attr(o, "match") ELSE Attr(o, "pact:matcher:type") IN
    IF m[1] = "s" THEN Create(m[2], o) ELSE IF m[1] = "n" THEN AnyR ELSE ErrR
  ELSE      \* told from its attributes
    IF Has(o, "regex") THEN WithText("regex", o, "regex")
    ELSE IF WholeAt(o, "min") = <<0>> THEN AnyR
    ELSE IF WholeAt(o, "min") # <<>> THEN OkR(<<"min", WholeAt(o, "min")>>)
    ELSE IF WholeAt(o, "max") = <<0>> THEN AnyR
    ELSE IF WholeAt(o, "max") # <<>> THEN OkR(<<"max", WholeAt(o, "max")>>)
    ELSE IF Has(o, "timestamp") THEN WithText("datetime", o, "timestamp")
    ELSE IF Has(o, "time") THEN WithText("time", o, "time")
    ELSE IF Has(o, "date") THEN WithText("date", o, "date")
    ELSE ErrR
Cats == {"method", "path", "header", "query", "body", "status", "contents", "metadata"}
CatOf(k) == IF Lower(k) = S("headers") THEN "header" ELSE IF \E c \in Cats : S(c) = Lower(k) THEN CHOOSE c \in Cats : S(c) = Lower(k) ELSE "?"
ReadV3(o) ==
  LET ms == o[2]
      rs == [i \in DOMAIN ms |-> IF ms[i][2][1] = "o" THEN ReadEntries(CatOf(ms[i][1]), ms[i][2]) ELSE ErrR]
      all == All(rs)
      names == [i \in DOMAIN ms |-> CatOf(ms[i][1])] IN
  IF (\E i \in DOMAIN ms : names[i] = "?") \/ Cardinality(Range(names)) < Len(names) THEN AnyR
  ELSE IF all.k # "ok" THEN all
  ELSE OkR(SelectSeq([i \in DOMAIN ms |-> <<names[i], all.r[i]>>], LAMBDA c : c[2] # <<>>))
(* V2: one rule per path; <<category, tokens>> or <<"?">> of a key *)
V2Place(key) ==
  LET p == Parse(key) IN
  IF ~p.ok \/ Len(p.toks) < 2 \/ p.toks[2][1] # "field" THEN <<"?", <<>>>>
  ELSE LET c == CatOf(p.toks[2][2]) IN
       IF c = "body" THEN <<"body", <<Root>> \o SubSeq(p.toks, 3, Len(p.toks))>>
       ELSE IF Len(p.toks) = 2 THEN <<c, <<>>>>
       ELSE IF Len(p.toks) = 3 /\ p.toks[3][1] = "field" THEN <<c, <<Root, p.toks[3]>>>>
       ELSE <<"?", <<>>>>
InOrder(cs) == SelectSeq(<<"body", "contents", "header", "metadata", "method", "path", "query", "status">>, LAMBDA c : c \in cs)
ReadV2(o) ==
  LET ms == o[2]
      rs == [i \in DOMAIN ms |-> ReadRule(ms[i][2])]
      all == All(rs)
      places == [i \in DOMAIN ms |-> V2Place(ms[i][1])]
      Entries(c) == LET is == SelectSeq([i \in DOMAIN ms |-> i], LAMBDA i : places[i][1] = c) IN
                    [k \in DOMAIN is |-> <<places[is[k]][2], "AND", <<all.r[is[k]]>>, <<>>>>] IN
  IF \E i \in DOMAIN ms : ~StartsWith(ms[i][1], S("$.")) \/ places[i][1] = "?" \/ (places[i][1] \in {"header", "query", "metadata"} /\ places[i][2] = <<>>) THEN AnyR
  ELSE IF Cardinality(Range(places)) < Len(places) THEN AnyR
  ELSE IF all.k # "ok" THEN all
  ELSE LET cats == InOrder({places[i][1] : i \in DOMAIN places}) IN OkR([k \in DOMAIN cats |-> <<cats[k], Entries(cats[k])>>])
ReadRules(v) == IF v[1] # "o" \/ v[2] = <<>> THEN OkR(<<>>)
                ELSE IF v[2][1][1] # <<>> /\ v[2][1][1][1] = Dollar THEN ReadV2(v) ELSE ReadV3(v)

(* ---------------- what is kept ---------------- *)
Canon(cs) == {<<cs[i][1], {<<e[1], e[2], e[3]>> : e \in Range(cs[i][2])}>> : i \in DOMAIN cs}
(* header and query rules by name, one entry for the path, no empty lists *)
V3Fits(cs) == \A i \in DOMAIN cs : \A k \in DOMAIN cs[i][2] : LET e == cs[i][2][k] IN
   /\ e[3] # <<>>
   /\ (ByName(cs[i][1]) => Len(e[1]) = 2 /\ e[1][2][1] = "field")
   /\ (cs[i][1] = "path" => Len(cs[i][2]) = 1 /\ e[1] = <<>>)
V2Fits(cs) ==
   /\ V3Fits(cs) /\ \A i \in DOMAIN cs : cs[i][1] \in {"path", "header", "query", "body"}
   /\ \A i \in DOMAIN cs : \A k, l \in DOMAIN cs[i][2] : k # l => V2Key(cs[i][1], cs[i][2][k]) # V2Key(cs[i][1], cs[i][2][l])
V2Form(cs) == [i \in DOMAIN cs |-> <<cs[i][1], [k \in DOMAIN cs[i][2] |-> LET e == cs[i][2][k] IN
   <<IF cs[i][1] = "body" THEN <<Root>> \o Below(e[1]) ELSE e[1], "AND", <<e[3][1]>>, <<>>>>]>>]
(* ---------------- facts about a rule ---------------- *)
TypeLike == {"type", "min", "max", "minmax"}
Facts(r) == [values |-> r[1] \in {"values", "eachValue"}, type |-> r[1] \in TypeLike, length |-> r[1] \in TypeLike \ {"type"},
             cascade |-> r[1] \notin {"values", "eachValue", "eachKey"},
             gens |-> r[1] = "arrayContains" /\ \E i \in DOMAIN r[2] : r[2][i][3] # <<>>,
             single |-> IF r[1] \in TypeLike THEN <<"type">> ELSE r]
(* adding the rules of one set to another *)
EntryAt(es, x) == CHOOSE i \in DOMAIN es : es[i][4] = x
CatAt(cs, n) == CHOOSE i \in DOMAIN cs : cs[i][1] = n
RECURSIVE AddEntries(_, _)
AddEntries(es, new) ==
  IF new = <<>> THEN es
  ELSE LET e == Head(new) IN
       AddEntries(IF \E i \in DOMAIN es : es[i][4] = e[4] THEN [es EXCEPT ![EntryAt(es, e[4])] = <<@[1], @[2], @[3] \o e[3], @[4]>>] ELSE Append(es, e), Tail(new))
RECURSIVE AddRules(_, _)
AddRules(cs, new) ==
  IF new = <<>> THEN cs
  ELSE LET c == Head(new) IN
       AddRules(IF \E i \in DOMAIN cs : cs[i][1] = c[1] THEN [cs EXCEPT ![CatAt(cs, c[1])] = <<@[1], AddEntries(@[2], c[2])>>] ELSE Append(cs, c), Tail(new))
=============================================================================
