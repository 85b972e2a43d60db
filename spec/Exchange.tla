------------------------------ MODULE Exchange ----------------------------
(* Matching a whole request, response or message against the expected one:  *)
(* which parts of it do not match. A part is a pair <<kind, name>>.         *)
(*   headers, queries  sequences of <<name, values>>                        *)
(*   bodies            as in ContentType                                    *)
(*   rules             a record of categories: path, query, header, body,   *)
(*                     status, metadata                                     *)
EXTENDS Match
CT == INSTANCE ContentType
QY == INSTANCE Query

(* ---- one rule, on texts, bytes and status codes ---- *)
Skips(r, casc) == casc /\ r[1] \in {"values", "eachKey", "eachValue"}      \* rules that say nothing about what is below them
StatusNum(t) == LET d == StripZeros(NM!Unsigned(t)) IN IF AllDigits(d) /\ ~NM!IsNeg(t) /\ Len(d) <= 5 THEN NatOf(d) ELSE 99999
StatusIn(r, n) ==
  CASE r[2] = "codes" -> \E i \in DOMAIN r[3] : r[3][i] = n
    [] r[2] = "info" -> n \in 100..199
    [] r[2] = "success" -> n \in 200..299
    [] r[2] = "redirect" -> n \in 300..399
    [] r[2] = "clientError" -> n \in 400..499
    [] r[2] = "serverError" -> n \in 500..599
    [] r[2] = "nonError" -> n < 400
    [] OTHER -> n >= 400
TextRule(r, e, a, casc) ==
  CASE r[1] \in {"equality", "values"} -> e = a
    [] r[1] = "statusCode" -> StatusNum(a) <= 65535 /\ StatusIn(r, StatusNum(a))
    [] r[1] \in {"null", "arrayContains", "eachKey", "eachValue"} -> Skips(r, casc)
    [] OTHER -> TextOK(r, a)
CodeRule(r, e, a) ==
  CASE r[1] = "regex" -> RE!FullMatch(r[2], IntStr(a))
    [] r[1] = "include" -> ContainsStr(IntStr(a), r[2])
    [] r[1] = "equality" -> e = a
    [] r[1] \in {"type", "min", "max", "minmax", "number", "integer"} -> TRUE
    [] r[1] = "statusCode" -> StatusIn(r, a)
    [] OTHER -> FALSE
BytesRule(r, e, a, casc) ==
  CASE r[1] = "regex" -> LET t == CT!FromUtf8(a) IN t[1] /\ RE!FullMatch(r[2], t[2])
    [] r[1] = "include" -> LET t == CT!FromUtf8(a) IN t[1] /\ ContainsStr(t[2], r[2])
    [] r[1] = "equality" -> e = a
    [] r[1] \in {"type", "min", "max", "minmax"} -> TRUE
    [] r[1] = "notEmpty" -> a # <<>>
    [] OTHER -> Skips(r, casc)
(* an entry without rules accepts nothing *)
RulesOK(p, OK(_)) == p.rules # <<>> /\ IF p.or THEN \E i \in DOMAIN p.rules : OK(p.rules[i]) ELSE \A i \in DOMAIN p.rules : OK(p.rules[i])

MethodOK(e, a) == Lower(e) = Lower(a)
(* path and status have one entry at most *)
Only(es) == [found |-> es # <<>>, or |-> es # <<>> /\ es[1].combine = S("OR"), rules |-> IF es = <<>> THEN <<>> ELSE es[1].rules]
PathOK(e, a, es) == IF es = <<>> THEN e = a ELSE RulesOK(Only(es), LAMBDA r : TextRule(r, e, a, FALSE))
StatusOK(e, a, es) == IF es = <<>> THEN e = a ELSE RulesOK(Only(es), LAMBDA r : CodeRule(r, e, a))

(* ---- several texts under a name; Leaf(ts, e, a, es, deep) says whether one matches ---- *)
(* deep: the entries are those of a body, where they also apply to what is below them *)
Texts(vs) == <<"a", [i \in DOMAIN vs |-> <<"s", vs[i]>>]>>
AtIdx(ts, i) == Step(ts, IntStr(i - 1))
EachItem(ts, ev, av, es, deep, Leaf(_, _, _, _, _)) ==
  LET Nth(i) == IF i <= Len(ev) THEN ev[i] ELSE ev[1] IN
  /\ \A i \in DOMAIN av : Leaf(AtIdx(ts, i), Nth(i), av[i], es, deep)
  /\ \A i \in Len(av) + 1..Len(ev) : Pick(es, AtIdx(ts, i)).found
TextsRule(r, casc, ts, ev, av, es, deep, Leaf(_, _, _, _, _)) ==
  CASE ev = <<>> -> ListOK(r, Texts(ev), Texts(av), casc)
    [] r[1] = "eachValue" -> casc \/ (~HasRef(r[2]) /\ EachItem(ts, ev, av, Inside(ts, r[2]), TRUE, Leaf))
    [] r[1] = "arrayContains" ->
         LET vs == IF r[2] # <<>> THEN r[2] ELSE [i \in DOMAIN ev |-> <<i - 1, Everywhere>>] IN
         \A i \in DOMAIN vs : vs[i][1] < Len(ev) /\ \E j \in DOMAIN av : Leaf(<<Root>>, ev[vs[i][1] + 1], av[j], vs[i][2], TRUE)
    [] OTHER -> ListOK(r, Texts(ev), Texts(av), casc) /\ EachItem(ts, ev, av, es, deep, Leaf)
TextsOK(p, ts, ev, av, es, deep, Leaf(_, _, _, _, _)) ==
  RulesOK(p, LAMBDA r : TextsRule(r, deep /\ p.casc, ts, ev, av, es, deep, Leaf))

(* ---- query parameters ---- *)
OneParam(ts, e, a, es, deep) ==
  LET p == Pick(es, ts) IN
  IF p.found THEN RulesOK(p, LAMBDA r : TextRule(r, e, a, deep /\ p.casc)) ELSE e = a
ParamItem(ts, e, a, es, deep) == OneParam(Step(ts, S("0")), e, a, es, deep)
ParamOK(k, ev, av, es, deep) ==
  LET ts == <<Root, JoinTok(k)>>
      p == Pick(es, ts) IN
  IF p.found THEN TextsOK(p, ts, ev, av, es, deep, ParamItem)
  ELSE Len(ev) = Len(av) /\ \A i \in DOMAIN ev : OneParam(AtIdx(ts, i), ev[i], av[i], es, deep)
Names(m) == {m[i][1] : i \in DOMAIN m}
ValuesOf(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1] = k][2]
BadParams(e, a, es, deep) ==
  {k \in Names(e) \cup Names(a) : k \notin Names(e) \/ k \notin Names(a) \/ ~ParamOK(k, ValuesOf(e, k), ValuesOf(a, k), es, deep)}

(* ---- headers ---- *)
Parameterised == {S("accept"), S("content-type")}
Pieces(t) == SelectSeq([i \in DOMAIN Split(t, 59) |-> Trim(Split(t, 59)[i])], LAMBDA x : x # <<>>)
FirstPiece(t) == IF Pieces(t) = <<>> THEN <<>> ELSE Pieces(t)[1]
ParamsOf(t) == LET ps == IF Pieces(t) = <<>> THEN <<>> ELSE Tail(Pieces(t))
                   with == SelectSeq(ps, LAMBDA x : IndexFrom(x, 61, 1) # 0) IN
               [i \in DOMAIN with |-> LET k == IndexFrom(with[i], 61, 1) IN <<Trim(SubSeq(with[i], 1, k - 1)), Trim(From(with[i], k + 1))>>]
LastOf(ps, n) == ps[CHOOSE i \in DOMAIN ps : ps[i][1] = n /\ \A j \in i + 1..Len(ps) : ps[j][1] # n][2]
(* the value and every expected parameter; further parameters do not matter *)
ParameterisedOK(e, a) ==
  /\ FirstPiece(e) = FirstPiece(a)
  /\ LET pe == ParamsOf(e) pa == ParamsOf(a) IN
     \A n \in {pe[i][1] : i \in DOMAIN pe} : (\E j \in DOMAIN pa : pa[j][1] = n) /\ Lower(LastOf(pe, n)) = Lower(LastOf(pa, n))
HeaderPath(name) == <<Root, JoinTok(Lower(name))>>
HeaderValue(name, i, e0, a0, es) ==
  LET e == Trim(e0) a == Trim(a0)
      p == Pick(es, HeaderPath(name))
      q == Pick(es, Step(HeaderPath(name), IntStr(i))) IN
  IF p.found THEN RulesOK(p, LAMBDA r : TextRule(r, e, a, FALSE))
  ELSE IF q.found THEN RulesOK(q, LAMBDA r : TextRule(r, e, a, FALSE))
  ELSE IF Lower(name) \in Parameterised THEN ParameterisedOK(e, a) ELSE e = a
HeaderOK(name, ev, av, es) ==
  LET p == Pick(es, HeaderPath(name))
      Item(ts, e, a, es2, deep) == HeaderValue(name, 0, e, a, es2)
      Padded(i) == IF i <= Len(ev) THEN ev[i] ELSE <<>> IN
  CASE ev = <<>> /\ av # <<>> -> FALSE
    [] Len(ev) = 1 /\ Len(av) = 1 /\ ~\E i \in DOMAIN p.rules : p.rules[i][1] = "eachValue" -> HeaderValue(name, 0, ev[1], av[1], es)
    [] p.found -> TextsOK(p, HeaderPath(name), ev, av, es, FALSE, Item)
    [] OTHER -> \A i \in DOMAIN ev \cup DOMAIN av : i <= Len(av) /\ HeaderValue(name, i - 1, Padded(i), av[i], es)
(* the names of headers do not depend on case, neither do those in the rules *)
LowerTok(t) == IF t[1] = "field" THEN Field(Lower(t[2])) ELSE t
LowerEntries(es) == [i \in DOMAIN es |-> [es[i] EXCEPT !.toks = [j \in DOMAIN @ |-> LowerTok(@[j])]]]
BadHeaders(e, a, es0) ==
  LET es == LowerEntries(es0) IN
  {k \in Names(e) : LET m == {i \in DOMAIN a : Lower(a[i][1]) = Lower(k)} IN
                    m = {} \/ ~HeaderOK(k, ValuesOf(e, k), a[CHOOSE i \in m : TRUE][2], es)}

(* ---- bodies ---- *)
Root1 == <<Root>>
BytesOf(b) == IF CT!Present(b) THEN b[2] ELSE <<>>
TextOf(b) == LET t == CT!FromUtf8(BytesOf(b)) IN IF t[1] THEN t[2] ELSE <<>>
FormOf(b) == LET m == QY!ParseQuery(TextOf(b)) IN [i \in DOMAIN m |-> <<m[i][1], [j \in DOMAIN m[i][2] |-> IF m[i][2][j][1] = 0 THEN <<>> ELSE m[i][2][j][2]]>>]
OneText(OK(_, _), e, a, es) ==
  LET p == Pick(es, Root1) IN
  IF p.found THEN (IF RulesOK(p, LAMBDA r : OK(r, p.casc)) THEN {} ELSE {S("$")}) ELSE IF e = a THEN {} ELSE {S("$")}
FormLabel == S("form")                                \* a form does not match: at one of its parameters
Contents(eb, ab, ct, es, strict) ==
  IF CT!IsJsonCt(ct) THEN
    LET e == JT!ParseBytes(BytesOf(eb)) a == JT!ParseBytes(BytesOf(ab)) IN
    IF e[1] # "ok" \/ a[1] # "ok" THEN {S("$")} ELSE Mismatches(e[2], a[2], es, strict)
  ELSE IF CT!IsForm(ct) THEN (IF BadParams(FormOf(eb), FormOf(ab), es, TRUE) = {} THEN {} ELSE {FormLabel})
  ELSE IF CT!IsBinaryCt(ct) THEN OneText(LAMBDA r, c : BytesRule(r, BytesOf(eb), BytesOf(ab), c), BytesOf(eb), BytesOf(ab), es)
  ELSE IF ab[1] = "null" /\ ~Pick(es, Root1).found THEN {S("$")}
  ELSE IF Pick(es, Root1).found /\ ~(CT!FromUtf8(BytesOf(eb))[1] /\ CT!FromUtf8(BytesOf(ab))[1]) THEN {S("$")}    \* not a text
  ELSE OneText(LAMBDA r, c : TextRule(r, TextOf(eb), TextOf(ab), c), BytesOf(eb), BytesOf(ab), es)
(* no body expected: anything goes; an empty one expected: there is none *)
BodyPlaces(eb, ab, ct, es, strict) ==
  CASE eb[1] = "missing" -> {}
    [] eb[1] \in {"empty", "null"} -> IF CT!Present(ab) THEN {S("/")} ELSE {}
    [] ab[1] \in {"missing", "empty"} -> {S("/")}
    [] OTHER -> Contents(eb, ab, ct, es, strict)
Labels(kind, ks) == {<<kind, k>> : k \in ks}
TypeLabel == {<<"type", <<>>>>}
BodyIf(same, eb, ab, ect, es, strict) ==
  IF same THEN Labels("body", BodyPlaces(eb, ab, ect, es, strict))
  ELSE IF CT!Present(eb) THEN TypeLabel ELSE {}
(* HTTP parts look at the whole text, messages at the first bytes *)
Looks(b) == IF CT!Present(b) THEN CT!CtSome(CT!DetectText(TextOf(b))) ELSE CT!CtNone
CtOf(r) == IF CT!IsSome(r) THEN r[2] ELSE CT!UnknownCt
(* a part's own content type: of its body, else the header, else what the body looks like *)
PartType(body, headers) ==
  LET text == IF CT!HasHdr(headers, S("content-type")) THEN <<TRUE, CT!HdrText(headers, S("content-type"))>> ELSE <<FALSE>> IN
  CtOf(CT!PartCt(body, CT!Declared(text), Looks(body)))
(* the types agree, or one is not known, or a rule for the header says that they do *)
TypesAgree(e, a, hes0) ==
  LET hes == LowerEntries(hes0)
      p == Pick(hes, HeaderPath(S("content-type"))) IN
  \/ CT!IsUnknown(e) \/ CT!IsUnknown(a) \/ CT!EquivCt(e, a) \/ CT!EquivCt(e, CT!BaseCt(a))
  \/ (p.rules # <<>> /\ HeaderValue(S("content-type"), 0, CT!ShowCt(e), CT!ShowCt(a), hes))
HttpBody(e, a, strict) ==
  LET ect == PartType(e.body, e.headers) act == PartType(a.body, a.headers) IN
  BodyIf(TypesAgree(ect, act, e.rules.header), e.body, a.body, ect, e.rules.body, strict)

(* ---- the whole ---- *)
RequestM(e, a) ==
  (IF MethodOK(e.method, a.method) THEN {} ELSE {<<"method", <<>>>>})
  \cup (IF PathOK(e.path, a.path, e.rules.path) THEN {} ELSE {<<"path", <<>>>>})
  \cup Labels("query", BadParams(e.query, a.query, e.rules.query, FALSE))
  \cup Labels("header", BadHeaders(e.headers, a.headers, e.rules.header))
  \cup HttpBody(e, a, TRUE)
(* an unexpected key in the body of a response does not matter *)
ResponseM(e, a) ==
  (IF StatusOK(e.status, a.status, e.rules.status) THEN {} ELSE {<<"status", <<>>>>})
  \cup Labels("header", BadHeaders(e.headers, a.headers, e.rules.header))
  \cup HttpBody(e, a, FALSE)
(* one more for every part that matches, one less for every other; a body that matches does not count *)
Clamp(n) == IF n > 127 THEN 127 ELSE IF n < -128 THEN -128 ELSE n
ScoreOf(bad, e, a, places) ==                         \* places: how many of the body are reported
  LET One(l) == IF l \in bad THEN -1 ELSE 1
      Sum(kind, ks) == Cardinality(ks) - 2 * Cardinality({k \in ks : <<kind, k>> \in bad}) IN
  Clamp(One(<<"method", <<>>>>) + One(<<"path", <<>>>>) + Sum("query", Names(e.query) \cup Names(a.query)) + Sum("header", Names(e.headers)) - places)

(* messages: metadata is a sequence of <<name, value>> *)
ContentTypeKey(k) == Lower(k) \in {S("contenttype"), S("content-type")}
MetaText(v) == IF v[1] = "s" THEN v[2] ELSE <<>>
MetaOK(k, e, a, es) ==
  LET p == Pick(es, <<Root, JoinTok(k)>>) IN
  IF p.found THEN RulesOK(p, LAMBDA r : ValueOK(r, e, a, p.casc))
  ELSE IF ContentTypeKey(k) THEN ParameterisedOK(MetaText(e), MetaText(a)) ELSE e = a
BadMeta(e, a, es) == {k \in Names(e) : k \notin Names(a) \/ ~MetaOK(k, ValuesOf(e, k), ValuesOf(a, k), es)}
MetaType(body, meta) ==
  LET ks == {i \in DOMAIN meta : ContentTypeKey(meta[i][1])}
      text == IF ks = {} THEN <<FALSE>> ELSE <<TRUE, Text(meta[CHOOSE i \in ks : TRUE][2])>> IN
  CtOf(CT!PartCt(body, CT!Declared(text), IF CT!Present(body) THEN CT!DetectBytes(body[2]) ELSE CT!CtNone))
MessageM(e, a) ==
  LET ect == MetaType(e.body, e.meta) act == MetaType(a.body, a.meta) IN
  BodyIf(CT!EquivCt(ect, act), e.body, a.body, ect, e.rules.body, FALSE)
  \cup Labels("meta", BadMeta(e.meta, a.meta, e.rules.metadata))
(* the content type of the contents of a V4 message counts as metadata too *)
WithType(m) == IF CT!IsSome(CT!BodyCt(m.body)) /\ S("contentType") \notin Names(m.meta)
               THEN [m EXCEPT !.meta = Append(@, <<S("contentType"), <<"s", CT!ShowCt(CT!BodyCt(m.body)[2])>>>>)] ELSE m
(* every response against the one at its place; none expected: anything goes *)
ResponsesM(es, as) ==
  IF Len(es) # Len(as) THEN (IF es = <<>> THEN {} ELSE TypeLabel) ELSE UNION {MessageM(es[i], as[i]) : i \in DOMAIN es}
SyncM(e, a) == MessageM(e.request, a.request) \cup ResponsesM(e.responses, a.responses)
=============================================================================
