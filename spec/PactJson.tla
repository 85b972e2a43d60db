------------------------------ MODULE PactJson -----------------------------
(* Pacts as JSON: what is written for each version of the specification,    *)
(* what any JSON document is read as, and which pacts lose nothing.         *)
(* A pact is a record (kind "http", "message" or "v4"); in it texts are     *)
(* code points, maps are <<key, value>> in order, what may be missing is    *)
(* <<>> or <<x>>, bodies and content types are as in ContentType.           *)
(* Matching rules and generators are tokens: <<>> or <<hash, JSON>>; Rules  *)
(* and Gen specify their JSON, here a table says which token a JSON is.     *)
EXTENDS JsonText, Query, ContentType

Vers == {"V1", "V1.1", "V2"}                             \* before V3
VersionText(v) == CASE v = "V1" -> S("1.0.0") [] v = "V1.1" -> S("1.1.0") [] v = "V2" -> S("2.0.0") [] v = "V3" -> S("3.0.0") [] v = "V4" -> S("4.0") [] OTHER -> S("unknown")
RECURSIVE FoldObj(_, _)
FoldObj(ms, acc) == IF ms = <<>> THEN acc ELSE FoldObj(Tail(ms), JIns(acc, ms[1][1], ms[1][2]))
Obj(ms) == JObj(FoldObj(ms, <<>>))
Opt(b, k, v) == IF b THEN <<<<S(k), v>>>> ELSE <<>>
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Has(j, k) == JHas(j, S(k))
Get(j, k) == JGet(j, S(k))
IsStr(v) == v[1] = "s"
IsObj(v) == v[1] = "o"
IsArr(v) == v[1] = "a"
Disp(v) == IF IsStr(v) THEN v[2] ELSE PrintJson(v)                     \* a text, or the JSON of something else
ToStr(v) == IF v = JNull THEN <<>> ELSE Disp(v)
DispOr(j, k, d) == IF Has(j, k) THEN Disp(Get(j, k)) ELSE d
OptStr(j, k) == IF Has(j, k) THEN <<ToStr(Get(j, k))>> ELSE <<>>
Members(v) == IF IsObj(v) THEN v[2] ELSE <<>>
MembersOf(j, k) == IF Has(j, k) THEN Members(Get(j, k)) ELSE <<>>
Empty(v) == v \in {JNull, JStr(<<>>), JArr(<<>>), JObj(<<>>)}

(* ---------------- content types of parts ---------------- *)
IsCtKey(k) == Lower(k) \in {S("contenttype"), S("content-type")}
CtKeys(ms) == {i \in DOMAIN ms : IsCtKey(ms[i][1])}
MetaText(ms) == IF CtKeys(ms) = {} THEN <<FALSE>> ELSE <<TRUE, ToStr(ms[CHOOSE i \in CtKeys(ms) : TRUE][2])>>
HeaderVals(hs) == IF hs = <<"none">> THEN <<>> ELSE IF HasHdr(hs[2], S("content-type")) THEN HdrVals(hs[2], S("content-type")) ELSE <<>>
HeaderText(hs) == IF hs = <<"none">> THEN <<FALSE>> ELSE IF HasHdr(hs[2], S("content-type")) THEN <<TRUE, HdrText(hs[2], S("content-type"))>> ELSE <<FALSE>>
FirstText(hs) == LET v == HeaderVals(hs) IN IF v = <<>> THEN <<FALSE>> ELSE <<TRUE, v[1]>>
WholeText(b) == LET t == FromUtf8(b) IN IF t[1] THEN t[2] ELSE <<>>
Ct3(b, text) == PartCt(b, Declared(text), IF Present(b) THEN CtSome(DetectText(WholeText(b[2]))) ELSE CtNone)
Ct4(b, text) == PartCt(b, Declared(text), IF Present(b) THEN DetectBytes(b[2]) ELSE CtNone)
OrUnknown(c) == IF IsSome(c) THEN c[2] ELSE UnknownCt

(* ---------------- written: V1 to V3 ---------------- *)
JsonOr64(b) == LET r == ParseBytes(b) IN IF r[1] = "ok" THEN r[2] ELSE JStr(Base64(b))
TextOr64(b) == LET t == FromUtf8(b) IN IF t[1] THEN JStr(t[2]) ELSE JStr(Base64(b))
Body3Json(b, text) ==
  LET ct == OrUnknown(Ct3(b, text))
      d == Declared(text)
      t == FromUtf8(b[2])
  IN IF IsJsonCt(ct) THEN JsonOr64(b[2])
     ELSE IF t[1] /\ IsSome(d) THEN (IF IsBinaryCt(d[2]) /\ IsBase64(t[2]) THEN JStr(Base64(b[2])) ELSE TextOr64(b[2]))
     ELSE TextOr64(b[2])
MsgBody3Json(b, text) ==
  LET ct == OrUnknown(Ct3(b, text)) IN
  IF IsJsonCt(ct) THEN JsonOr64(b[2]) ELSE IF IsBinaryCt(ct) THEN JStr(Base64(b[2])) ELSE TextOr64(b[2])
BodyMember(k, b, v) == CASE b[1] = "missing" -> <<>> [] b[1] = "empty" -> <<<<S(k), JStr(<<>>)>>>> [] b[1] = "null" -> <<<<S(k), JNull>>>> [] OTHER -> <<<<S(k), v>>>>
Rules(t) == Opt(t # <<>>, "matchingRules", t[2])
Gens(t) == Opt(t # <<>>, "generators", t[2])
States3(ss) == Opt(ss # <<>>, "providerStates", JArr(Map(ss, LAMBDA s : Obj(<<<<S("name"), JStr(s[1])>>>> \o Opt(s[2] # <<>>, "params", JObj(s[2]))))))
States1(ss) == IF ss = <<>> THEN <<>> ELSE <<<<S("providerState"), JStr(ss[1][1])>>>>
Headers3(hs) == IF hs = <<"none">> THEN <<>> ELSE <<<<S("headers"), JObj(Map(hs[2], LAMBDA h : <<h[1], JStr(JoinWith(h[2], S(", ")))>>))>>>>
QueryJson(q, spec) == IF q = <<"none">> THEN <<>> ELSE <<<<S("query"), IF spec \in Vers THEN JStr(Build(q[2])) ELSE ToJson34(q[2])>>>>
Request3Json(r, spec) == Obj(<<<<S("method"), JStr(Upper(r.method))>>, <<S("path"), JStr(r.path)>>>> \o QueryJson(r.query, spec) \o Headers3(r.headers)
                             \o BodyMember("body", r.body, IF Present(r.body) THEN Body3Json(r.body, HeaderText(r.headers)) ELSE JNull) \o Rules(r.rules) \o Gens(r.gens))
Response3Json(r) == Obj(<<<<S("status"), JInt(r.status)>>>> \o Headers3(r.headers)
                        \o BodyMember("body", r.body, IF Present(r.body) THEN Body3Json(r.body, HeaderText(r.headers)) ELSE JNull) \o Rules(r.rules) \o Gens(r.gens))
Http3Json(i, spec) == Obj(<<<<S("description"), JStr(i.description)>>, <<S("request"), Request3Json(i.request, spec)>>, <<S("response"), Response3Json(i.response)>>>>
                          \o IF spec \in Vers THEN States1(i.states) ELSE States3(i.states))
Msg3Json(i) == LET c == i.contents IN
  Obj(<<<<S("description"), JStr(i.description)>>, <<S("metadata"), JObj(c.metadata)>>>> \o States3(i.states) \o Rules(c.rules) \o Gens(c.gens)
      \o BodyMember("contents", c.body, IF Present(c.body) THEN MsgBody3Json(c.body, MetaText(c.metadata)) ELSE JNull))

(* ---------------- written: V4 ---------------- *)
Encoded(e) == IF e = "" THEN JBool(FALSE) ELSE JStr(S(e))
Body4Json(b, text) ==
  IF b[1] = "empty" THEN Obj(<<<<S("content"), JStr(<<>>)>>>>)
  ELSE
    LET ct == OrUnknown(Ct4(b, text))
        v == ParseBytes(b[2])
        t == FromUtf8(b[2])
        c == IF IsJsonCt(ct) THEN (IF v[1] # "ok" THEN <<JStr(Base64(b[2])), "base64">>
                                   ELSE IF v[2] \in {JNull, JStr(<<>>)} THEN <<JStr(PrintJson(v[2])), "json">>     \* as a content these are no body, an empty body
                                   ELSE <<v[2], "">>)
             ELSE IF b[4] = "BINARY" \/ IsBinaryCt(ct) \/ ~t[1] THEN <<JStr(Base64(b[2])), "base64">>
             ELSE <<JStr(t[2]), "">>
    IN Obj(<<<<S("content"), c[1]>>, <<S("contentType"), JStr(ShowCt(ct))>>, <<S("encoded"), Encoded(c[2])>>>>
           \o Opt(b[4] # "", "contentTypeHint", JStr(S(b[4]))))
Body4Member(k, b, text) == IF b[1] \in {"missing", "null"} THEN <<>> ELSE <<<<S(k), Body4Json(b, text)>>>>
Headers4(hs) == IF hs = <<"none">> THEN <<>> ELSE <<<<S("headers"), JObj(Map(hs[2], LAMBDA h : <<h[1], JArr(Map(h[2], LAMBDA x : JStr(x)))>>))>>>>
Request4Json(r) == Obj(<<<<S("method"), JStr(Upper(r.method))>>, <<S("path"), JStr(r.path)>>>> \o QueryJson(r.query, "V4") \o Headers4(r.headers)
                       \o Body4Member("body", r.body, FirstText(r.headers)) \o Rules(r.rules) \o Gens(r.gens))
Response4Json(r) == Obj(<<<<S("status"), JInt(r.status)>>>> \o Headers4(r.headers) \o Body4Member("body", r.body, FirstText(r.headers)) \o Rules(r.rules) \o Gens(r.gens))
ContentsMembers(c) == Body4Member("contents", c.body, MetaText(c.metadata)) \o Opt(c.metadata # <<>>, "metadata", JObj(c.metadata)) \o Rules(c.rules) \o Gens(c.gens)
NonEmpty(ms) == SelectSeq(ms, LAMBDA m : ~Empty(m[2]))
TypeOf(kind) == CASE kind = "http4" -> S("Synchronous/HTTP") [] kind = "async4" -> S("Asynchronous/Messages") [] OTHER -> S("Synchronous/Messages")
I4Json(i) ==
  Obj(<<<<S("type"), JStr(TypeOf(i.kind))>>, <<S("description"), JStr(i.description)>>, <<S("pending"), JBool(i.pending)>>>>
      \o (IF i.key = <<>> THEN <<>> ELSE <<<<S("key"), JStr(i.key[1])>>>>)
      \o States3(i.states)
      \o Opt(NonEmpty(i.comments) # <<>>, "comments", JObj(NonEmpty(i.comments)))
      \o Opt(i.plugins # <<>>, "pluginConfiguration", JObj(Map(i.plugins, LAMBDA p : <<p[1], JObj(p[2])>>)))
      \o Opt(i.markup[1] # <<>>, "interactionMarkup", Obj(<<<<S("markup"), JStr(i.markup[1])>>, <<S("markupType"), JStr(i.markup[2])>>>>))
      \o (IF i.transport = <<>> THEN <<>> ELSE <<<<S("transport"), JStr(i.transport[1])>>>>)
      \o CASE i.kind = "http4" -> <<<<S("request"), Request4Json(i.request)>>, <<S("response"), Response4Json(i.response)>>>>
           [] i.kind = "async4" -> ContentsMembers(i.contents)
           [] OTHER -> <<<<S("request"), Obj(ContentsMembers(i.request))>>, <<S("response"), JArr(Map(i.response, LAMBDA c : Obj(ContentsMembers(c))))>>>>)

RECURSIVE InsertBy(_, _), SortByDescription(_)
InsertBy(i, is) == IF is = <<>> THEN <<i>> ELSE IF Cmp(i.description, is[1].description) <= 0 THEN <<i>> \o is ELSE <<is[1]>> \o InsertBy(i, Tail(is))
SortByDescription(is) == IF is = <<>> THEN <<>> ELSE InsertBy(is[1], SortByDescription(Tail(is)))

MdKey(k) == IF k = S("pact-specification") THEN S("pactSpecification") ELSE IF k = S("pact-rust") THEN S("pactRust") ELSE k
(* "models" says which version of the library wrote the file *)
MetadataJson(md, spec, models, plugins) ==
  LET a == FoldObj(Map(md, LAMBDA m : <<MdKey(m[1]), m[2]>>), <<>>)
      b == JIns(a, S("pactSpecification"), Obj(<<<<S("version"), JStr(VersionText(spec))>>>>))
      rust == IF JHas(JObj(b), S("pactRust")) THEN Get(JObj(b), "pactRust") ELSE JObj(<<>>)
      c == JIns(b, S("pactRust"), IF IsObj(rust) THEN JObj(JIns(rust[2], S("models"), JStr(models))) ELSE rust)
  IN JObj(IF plugins = <<>> THEN c ELSE JIns(c, S("plugins"), JArr(Map(plugins, LAMBDA p : Obj(<<<<S("name"), JStr(p[1])>>, <<S("version"), JStr(p[2])>>, <<S("configuration"), JObj(p[3])>>>>)))))
Named(n) == Obj(<<<<S("name"), JStr(n)>>>>)
PactToJson(p, spec, models) ==
  Obj(<<<<S("consumer"), Named(p.consumer)>>, <<S("provider"), Named(p.provider)>>, <<S("metadata"), MetadataJson(p.metadata, spec, models, p.plugins)>>,
        IF p.kind = "message" THEN <<S("messages"), JArr(Map(p.interactions, LAMBDA i : Msg3Json(i)))>>
        ELSE IF p.kind = "http" THEN <<S("interactions"), JArr(Map(p.interactions, LAMBDA i : Http3Json(i, spec)))>>
        ELSE <<S("interactions"), JArr(Map(SortByDescription(p.interactions), LAMBDA i : I4Json(i)))>>>>)

(* ---------------- read ---------------- *)
Tok(j, k, table) ==
  IF ~Has(j, k) THEN <<>>
  ELSE LET v == Get(j, k) IN
       IF ~IsObj(v) \/ v[2] = <<>> THEN <<>>
       ELSE table[CHOOSE i \in DOMAIN table : table[i][2] = v]
(* up to V3, the rules of a request or response have an older name as well *)
OldTok(j, old, spec, table) == IF spec = "V4" \/ Has(j, "matchingRules") THEN Tok(j, "matchingRules", table) ELSE Tok(j, old, table)
LoadState(s) == <<DispOr(s, "name", S("unknown provider states")), MembersOf(s, "params")>>
LoadStates(j) ==
  IF Has(j, "providerStates") THEN LET v == Get(j, "providerStates") IN IF IsArr(v) THEN Map(v[2], LAMBDA s : LoadState(s)) ELSE <<>>
  ELSE LET k == IF Has(j, "providerState") THEN "providerState" ELSE "provider_state" IN
       IF ~Has(j, k) THEN <<>>
       ELSE IF Get(j, k) \in {JNull, JStr(<<>>)} THEN <<>> ELSE <<<<Disp(Get(j, k)), <<>>>>>>
LoadHeaders(j) ==
  IF ~Has(j, "headers") THEN <<"none">>
  ELSE IF ~IsObj(Get(j, "headers")) THEN <<"none">>
  ELSE <<"some", Map(Get(j, "headers")[2], LAMBDA m : <<m[1], CASE IsStr(m[2]) -> ParseHeader(m[1], m[2][2])
                                                               [] IsArr(m[2]) -> Map(m[2][2], LAMBDA x : Disp(x))
                                                               [] OTHER -> <<PrintJson(m[2])>>>>)>>
SomeQuery(m) == IF m = <<>> THEN <<"none">> ELSE <<"some", m>>
QValue(v) == IF v = JNull THEN <<0>> ELSE <<1, Disp(v)>>
LoadQuery(j, spec) ==
  IF ~Has(j, "query") THEN <<"none">>
  ELSE LET v == Get(j, "query") IN
       IF IsStr(v) THEN (IF v[2] = <<>> THEN <<"none">> ELSE <<"some", ParseQuery(v[2])>>)
       ELSE IF IsObj(v) /\ spec \notin Vers THEN
         <<"some", Map(v[2], LAMBDA m : <<m[1], CASE IsStr(m[2]) -> <<<<1, m[2][2]>>>> [] IsArr(m[2]) -> Map(m[2][2], LAMBDA x : QValue(x)) [] OTHER -> <<>>>>)>>
       ELSE <<"none">>
Parsable(s) == LET r == ParseJson(s) IN IF r[1] = "ok" THEN r[2][1] \in {"s", "o"} ELSE FALSE
LoadBody3(j, k, d) ==
  IF ~Has(j, k) THEN <<"missing">>
  ELSE LET v == Get(j, k) IN
       IF v = JNull THEN <<"null">>
       ELSE IF ~IsStr(v) THEN <<"present", Utf8(PrintJson(v)), CtNone, "">>
       ELSE IF v[2] = <<>> THEN <<"empty">>
       ELSE LET ct == IF IsSome(d) THEN d[2] ELSE DetectText(v[2]) IN
            IF IsJsonCt(ct) THEN <<"present", Utf8(IF Parsable(v[2]) THEN v[2] ELSE PrintJson(v)), CtSome(ct), "">>
            ELSE IF IsTextCt(ct) THEN <<"present", Utf8(v[2]), CtSome(ct), "">>
            ELSE <<"present", IF IsBase64(v[2]) THEN FromBase64(v[2]) ELSE Utf8(v[2]), CtNone, "">>
BodyOf(bytes, ct, hint) == IF bytes = <<>> THEN <<"empty">> ELSE <<"present", bytes, ct, hint>>
LoadBody4(j, k, text) ==
  IF ~Has(j, k) THEN <<"missing">>
  ELSE LET b == Get(j, k) IN
       IF b = JNull THEN <<"null">>
       ELSE IF ~IsObj(b) THEN <<"present", Utf8(PrintJson(b)), CtNone, "">>
       ELSE IF ~Has(b, "content") THEN <<"missing">>
       ELSE IF Get(b, "content") = JNull THEN <<"null">>
       ELSE
         LET v == Get(b, "content")
             ct == LET c == IF Has(b, "contentType") THEN ParseCt(ToStr(Get(b, "contentType"))) ELSE Declared(text) IN IF IsSome(c) THEN c ELSE CtNone
             enc == IF Has(b, "encoded") THEN LET e == Get(b, "encoded") IN IF e[1] = "b" THEN (IF e[2] = 1 THEN <<TRUE, <<>>>> ELSE <<FALSE>>)
                                                                            ELSE <<TRUE, IF IsStr(e) THEN Lower(e[2]) ELSE PrintJson(e)>>
                    ELSE <<FALSE>>
             hint == IF ~Has(b, "contentTypeHint") THEN ""
                     ELSE LET h == Get(b, "contentTypeHint") IN IF h = JStr(S("BINARY")) THEN "BINARY" ELSE IF h = JStr(S("TEXT")) THEN "TEXT" ELSE "DEFAULT"
             raw == ToStr(v)
             bytes == IF enc[1] THEN (IF enc[2] = S("base64") /\ IsBase64(raw) THEN FromBase64(raw) ELSE Utf8(raw))
                      ELSE IF IsSome(ct) THEN (IF IsJsonCt(ct[2]) /\ v # JStr(<<>>) THEN Utf8(PrintJson(v)) ELSE Utf8(raw))
                      ELSE Utf8(raw)
         IN BodyOf(bytes, IF IsSome(ct) THEN ct ELSE CtSome(OrUnknown(DetectBytes(bytes))), hint)
Method(j) == Upper(DispOr(j, "method", S("GET")))
LoadRequest(j, spec, table) ==
  LET h == LoadHeaders(j) IN
  [method |-> Method(j), path |-> DispOr(j, "path", S("/")), query |-> LoadQuery(j, spec), headers |-> h,
   body |-> IF spec = "V4" THEN LoadBody4(j, "body", FirstText(h)) ELSE LoadBody3(j, "body", Declared(FirstText(h))),
   rules |-> OldTok(j, "requestMatchingRules", spec, table), gens |-> Tok(j, "generators", table)]
StatusOk(j) == Has(j, "status") => LET s == Get(j, "status") IN s[1] = "i" /\ s[2] >= 0 /\ s[2] <= 65535
LoadResponse(j, spec, table) ==
  LET h == LoadHeaders(j) IN
  [status |-> IF Has(j, "status") THEN Get(j, "status")[2] ELSE 200, headers |-> h,
   body |-> IF spec = "V4" THEN LoadBody4(j, "body", FirstText(h)) ELSE LoadBody3(j, "body", Declared(FirstText(h))),
   rules |-> OldTok(j, "responseMatchingRules", spec, table), gens |-> Tok(j, "generators", table)]
Nothing == JObj(<<>>)
GetOr(j, k) == IF Has(j, k) THEN Get(j, k) ELSE Nothing
Description(j, what, n) == DispOr(j, "description", S(what) \o IntStr(n - 1))
LoadHttp3(j, n, spec, table) ==
  [kind |-> "http3", id |-> OptStr(j, "_id"), description |-> Description(j, "Interaction ", n), states |-> LoadStates(j),
   request |-> LoadRequest(GetOr(j, "request"), spec, table), response |-> LoadResponse(GetOr(j, "response"), spec, table)]
LoadMsg3(j, n, table) ==
  LET k == IF Has(j, "metaData") THEN "metaData" ELSE "metadata"
      md == MembersOf(j, k)
      d == Declared(MetaText(md))
      b == LoadBody3(j, "contents", d)
  IN [kind |-> "msg3", id |-> OptStr(j, "_id"), description |-> Description(j, "Message ", n), states |-> LoadStates(j),
      contents |-> [body |-> IF IsSome(d) THEN WithCt(b, d) ELSE b, metadata |-> md, rules |-> Tok(j, "matchingRules", table), gens |-> Tok(j, "generators", table)]]
LoadContents(j, table) ==
  LET md == MembersOf(j, "metadata") IN
  [body |-> LoadBody4(j, "contents", MetaText(md)), metadata |-> md, rules |-> Tok(j, "matchingRules", table), gens |-> Tok(j, "generators", table)]
KindOf(j) == IF ~Has(j, "type") THEN "none" ELSE LET t == ToStr(Get(j, "type")) IN
  IF t = S("Synchronous/HTTP") THEN "http4" ELSE IF t = S("Asynchronous/Messages") THEN "async4" ELSE IF t = S("Synchronous/Messages") THEN "sync4" ELSE "none"
I4Ok(j) ==
  /\ KindOf(j) # "none"
  /\ (KindOf(j) = "http4" => StatusOk(GetOr(j, "response")))
  /\ (KindOf(j) = "sync4" => IF Has(j, "request") /\ Has(j, "response") THEN IsObj(Get(j, "request")) /\ IsArr(Get(j, "response")) /\ \A i \in DOMAIN Get(j, "response")[2] : IsObj(Get(j, "response")[2][i]) ELSE FALSE)
LoadMarkup(j) == IF ~Has(j, "interactionMarkup") THEN <<<<>>, <<>>>>
                 ELSE LET m == Get(j, "interactionMarkup") IN
                      IF IsObj(m) THEN <<IF Has(m, "markup") THEN ToStr(Get(m, "markup")) ELSE <<>>, IF Has(m, "markupType") THEN ToStr(Get(m, "markupType")) ELSE <<>>>> ELSE <<<<>>, <<>>>>
LoadI4(j, n, table) ==
  LET a == [kind |-> KindOf(j), id |-> OptStr(j, "_id"), key |-> OptStr(j, "key"), description |-> Description(j, "Interaction ", n), states |-> LoadStates(j),
            comments |-> MembersOf(j, "comments"), pending |-> GetOr(j, "pending") = JBool(TRUE),
            plugins |-> Map(MembersOf(j, "pluginConfiguration"), LAMBDA m : <<m[1], Members(m[2])>>), markup |-> LoadMarkup(j),
            transport |-> IF Has(j, "transport") THEN <<Disp(Get(j, "transport"))>> ELSE <<>>]
  IN CASE KindOf(j) = "http4" -> a @@ [request |-> LoadRequest(GetOr(j, "request"), "V4", table), response |-> LoadResponse(GetOr(j, "response"), "V4", table)]
       [] KindOf(j) = "async4" -> a @@ [contents |-> LoadContents(j, table)]
       [] OTHER -> a @@ [request |-> LoadContents(Get(j, "request"), table), response |-> Map(Get(j, "response")[2], LAMBDA c : LoadContents(c, table))]

(* the version of the specification a document is written for *)
Metadata3(j) == FoldObj(Map(MembersOf(j, "metadata"), LAMBDA m : <<MdKey(m[1]), JObj(Map(Members(m[2]), LAMBDA x : <<x[1], JStr(Disp(x[2]))>>))>>), <<>>)
Nums(t) == LET p == Split(t, 46) IN IF Len(p) <= 3 /\ \A i \in DOMAIN p : AllDigits(p[i]) /\ Len(p[i]) < 7 THEN <<TRUE, Map(p, LAMBDA x : NatOf(x))>> ELSE <<FALSE>>
SpecText(j) == LET md == JObj(Metadata3(j)) IN
  IF ~Has(md, "pactSpecification") THEN <<FALSE>> ELSE LET v == Get(md, "pactSpecification") IN IF Has(v, "version") THEN <<TRUE, Get(v, "version")[2]>> ELSE <<FALSE>>
VersionOf(j) ==
  LET t == SpecText(j) IN
  IF ~t[1] THEN "V3"
  ELSE LET n == Nums(t[2]) IN
       IF ~n[1] THEN "Unknown"
       ELSE CASE n[2][1] = 1 -> (IF Len(n[2]) > 1 /\ n[2][2] = 1 THEN "V1.1" ELSE "V1")
              [] n[2][1] = 2 -> "V2" [] n[2][1] = 3 -> "V3" [] n[2][1] = 4 -> "V4" [] OTHER -> "Unknown"
(* texts that are no numbers with dots may still be versions (v2, 3.0.0-beta) *)
VersionVague(j) == LET t == SpecText(j) IN t[1] /\ ~Nums(t[2])[1] /\ t[2] \notin {<<>>, S("unknown"), S("x"), S("{}"), S("[]"), S("null")}

Elements(j, k) == IF Has(j, k) THEN LET v == Get(j, k) IN IF IsArr(v) THEN v[2] ELSE <<>> ELSE <<>>
NameOf(j, k) == LET d == S(k) IN IF ~Has(j, k) THEN d ELSE DispOr(Get(j, k), "name", d)
IsPluginItem(v) == IF Has(v, "name") /\ Has(v, "version") THEN IsStr(Get(v, "name")) /\ IsStr(Get(v, "version")) /\ (Has(v, "configuration") => IsObj(Get(v, "configuration"))) ELSE FALSE
LoadPlugins(j) == Map(SelectSeq(Elements(GetOr(j, "metadata"), "plugins"), LAMBDA v : IsPluginItem(v)), LAMBDA v : <<Get(v, "name")[2], Get(v, "version")[2], MembersOf(v, "configuration")>>)

IsMessages(j) == VersionOf(j) # "V4" /\ Has(j, "messages")
LoadOk(j) ==
  /\ IsObj(j)
  /\ IF VersionOf(j) = "V4" THEN \A i \in DOMAIN Elements(j, "interactions") : I4Ok(Elements(j, "interactions")[i])
     ELSE IF Has(j, "messages") THEN IsArr(Get(j, "messages")) /\ (Get(j, "messages")[2] # <<>> => VersionOf(j) \in {"V3", "Unknown"})
     ELSE \A i \in DOMAIN Elements(j, "interactions") : StatusOk(GetOr(Elements(j, "interactions")[i], "response"))
Load(j, table) ==
  LET v == VersionOf(j)
      is == Elements(j, IF IsMessages(j) THEN "messages" ELSE "interactions")
  IN [kind |-> IF v = "V4" THEN "v4" ELSE IF IsMessages(j) THEN "message" ELSE "http",
      consumer |-> NameOf(j, "consumer"), provider |-> NameOf(j, "provider"), version |-> v,
      metadata |-> IF v = "V4" THEN SelectSeq(MembersOf(j, "metadata"), LAMBDA m : m[1] # S("plugins")) ELSE Metadata3(j),
      plugins |-> IF v = "V4" THEN LoadPlugins(j) ELSE <<>>,
      interactions |-> [n \in DOMAIN is |-> IF v = "V4" THEN LoadI4(is[n], n, table) ELSE IF IsMessages(j) THEN LoadMsg3(is[n], n, table) ELSE LoadHttp3(is[n], n, v, table)]]

(* documents with something in them that the specification does not settle *)
OddNumber(t) == LET r == ParseJson(t) IN r[1] # "ok" \/ (r[1] = "ok" /\ r[2] # <<"f", t>>)
OddText(t) ==
  \/ t # <<>> /\ (DetectVague(t) \/ ParseCt(t) = CtAny \/ ParseJson(t) = VagueJ)
  \/ t # <<>> /\ IsBase64(t) /\ LET x == FromUtf8(FromBase64(t)) IN x[1] /\ DetectVague(x[2])
RuleKeys == {S("matchingRules"), S("generators")}
OldRuleKeys == {S("requestMatchingRules"), S("responseMatchingRules")}
OnlyAscii(s) == \A i \in DOMAIN s : s[i] < 128
RECURSIVE Odd(_, _)
Odd(v, table) ==
  CASE v[1] = "f" -> OddNumber(v[2])
    [] v[1] = "s" -> OddText(v[2])
    [] v[1] = "a" -> \E i \in DOMAIN v[2] : Odd(v[2][i], table)
    [] v[1] = "o" -> \/ Cardinality(CtKeys(v[2])) > 1
                     \/ \E i \in DOMAIN v[2] :
                          IF v[2][i][1] \in RuleKeys \cup OldRuleKeys
                          THEN LET x == v[2][i][2] IN IsObj(x) /\ x[2] # <<>> /\ ~\E t \in DOMAIN table : table[t][2] = x
                          ELSE \/ Odd(v[2][i][2], table)
                               \/ v[2][i][1] = S("method") /\ ~OnlyAscii(Disp(v[2][i][2]))          \* upper case
    [] OTHER -> FALSE
PluginVague(j) == \E i \in DOMAIN Elements(GetOr(j, "metadata"), "plugins") : IsArr(Elements(GetOr(j, "metadata"), "plugins")[i])
Vague(j, table) == IsObj(j) /\ (VersionVague(j) \/ PluginVague(j) \/ Odd(j, table))

(* ---------------- what survives being written and read ---------------- *)
Ascii(s) == OnlyAscii(s)
DistinctKeys(ms) == \A a, b \in DOMAIN ms : a # b => ms[a][1] # ms[b][1]
Headers3Kept(hs) == hs[1] = "some" => \A i \in DOMAIN hs[2] : hs[2][i][2] # <<>> /\ ParseHeader(hs[2][i][1], JoinWith(hs[2][i][2], S(", "))) = hs[2][i][2]
OneCt(hs) == hs[1] = "some" => Cardinality(HdrIdx(hs[2], S("content-type"))) <= 1
QueryKept(q, spec) == spec \in Vers /\ q[1] = "some" => q[2] # <<>> /\ Expressible(q[2]) = q[2] /\ \A i \in DOMAIN q[2] : Ascii(q[2][i][1]) /\ \A k \in DOMAIN q[2][i][2] : Ascii(JoinWith(Tail(q[2][i][2][k]), <<>>))
(* Up to V3 a body has no place for a content type of its own nor for an encoding:
   the content type is the declared one, else what the text looks like; bytes that
   are no text need a declared binary type; and a string under a JSON type is a
   JSON string unless its text is itself a JSON string or object. *)
Body3Kept(b, text) ==
  Present(b) =>
    LET d == Declared(text)
        ct == OrUnknown(Ct3(b, text))
        t == FromUtf8(b[2])
        v == ParseBytes(b[2])
    IN /\ b[2] # <<>> /\ b[4] = "" /\ d # CtAny
       /\ ~DetectVague(WholeText(b[2]))
       /\ (~IsSome(b[3]) \/ b[3] = IF IsSome(d) THEN d ELSE CtSome(DetectText(WholeText(b[2]))))
       /\ IF IsJsonCt(ct) THEN
            /\ v[1] = "ok" /\ v[2] # JNull
            /\ (v[2][1] = "s" => IsSome(d) /\ v[2][2] # <<>> /\ ParseJson(v[2][2]) # VagueJ /\ ~Parsable(v[2][2]))
            /\ (~IsSome(d) => DetectText(PrintJson(v[2])) = JsonCt /\ ~DetectVague(PrintJson(v[2])))
          ELSE t[1] \/ (IsSome(d) /\ IsBinaryCt(d[2]))
Part3Kept(r, spec) ==
  /\ OneCt(r.headers) /\ Headers3Kept(r.headers) /\ Len(HeaderVals(r.headers)) < 2
  /\ Body3Kept(r.body, HeaderText(r.headers)) /\ (spec \in Vers => r.gens = <<>>)
(* V4: a null body is not written *)
Body4Kept(b, text) == /\ b # <<"null">>
                      /\ Present(b) => /\ b[2] # <<>> /\ ~DetectVague(WholeText(b[2])) /\ ~(LET h == Head32(b[2]) IN h[1] /\ DetectVague(h[2]))
                                       /\ Declared(text) # CtAny /\ ParseBytes(b[2]) # VagueJ
                                       /\ LET ct == OrUnknown(Ct4(b, text)) IN ParseCt(ShowCt(ct)) = CtSome(ct)
ContentsKept(c) == Cardinality(CtKeys(c.metadata)) < 2 /\ Body4Kept(c.body, MetaText(c.metadata))
StatesKept(ss, spec) == spec \in Vers => Len(ss) < 2 /\ (ss # <<>> => ss[1][1] # <<>> /\ ss[1][2] = <<>>)
I4Kept(i) ==
  /\ i.comments = NonEmpty(i.comments) /\ (i.markup[1] = <<>> => i.markup[2] = <<>>)
  /\ CASE i.kind = "http4" -> /\ Ascii(i.request.method) /\ OneCt(i.request.headers) /\ OneCt(i.response.headers)
                              /\ Body4Kept(i.request.body, FirstText(i.request.headers)) /\ Body4Kept(i.response.body, FirstText(i.response.headers))
       [] i.kind = "async4" -> ContentsKept(i.contents)
       [] OTHER -> ContentsKept(i.request) /\ \A k \in DOMAIN i.response : ContentsKept(i.response[k])
IKept(i, spec) ==
  CASE i.kind = "http3" -> /\ Ascii(i.request.method) /\ QueryKept(i.request.query, spec) /\ StatesKept(i.states, spec)
                           /\ Part3Kept(i.request, spec) /\ Part3Kept(i.response, spec)
    [] i.kind = "msg3" -> Cardinality(CtKeys(i.contents.metadata)) < 2 /\ Body3Kept(i.contents.body, MetaText(i.contents.metadata))
    [] OTHER -> I4Kept(i)
MetadataKept(p) == /\ Cardinality({MdKey(p.metadata[i][1]) : i \in DOMAIN p.metadata}) = Len(p.metadata)
                   /\ \A i \in DOMAIN p.metadata : p.metadata[i][1] # S("plugins")
(* the kind of pact a version of the specification has a file format for *)
Written(p, spec) == CASE p.kind = "http" -> spec \in Vers \cup {"V3"} [] p.kind = "message" -> spec = "V3" [] OTHER -> spec = "V4"
LossFree(p, spec) == Written(p, spec) /\ MetadataKept(p) /\ \A i \in DOMAIN p.interactions : IKept(p.interactions[i], spec)

(* the same content: the id is not part of the file, methods agree in upper case, a JSON body
   agrees as JSON, and a body's content type is the one its part has *)
SameBody(a, ca, b, cb) ==
  IF Present(a) /\ Present(b) THEN /\ OrUnknown(ca) = OrUnknown(cb) /\ a[4] = b[4]
                                   /\ (a[2] = b[2] \/ (IsJsonCt(OrUnknown(ca)) /\ ParseBytes(a[2])[1] = "ok" /\ ParseBytes(a[2]) = ParseBytes(b[2])))
  ELSE a = b
SamePart(a, b, v4) == a.headers = b.headers /\ a.rules = b.rules /\ a.gens = b.gens
  /\ IF v4 THEN SameBody(a.body, Ct4(a.body, FirstText(a.headers)), b.body, Ct4(b.body, FirstText(b.headers)))
     ELSE SameBody(a.body, Ct3(a.body, HeaderText(a.headers)), b.body, Ct3(b.body, HeaderText(b.headers)))
SameRequest(a, b, v4) == Upper(a.method) = Upper(b.method) /\ a.path = b.path /\ a.query = b.query /\ SamePart(a, b, v4)
SameContents(a, b, v4) == a.metadata = b.metadata /\ a.rules = b.rules /\ a.gens = b.gens
  /\ IF v4 THEN SameBody(a.body, Ct4(a.body, MetaText(a.metadata)), b.body, Ct4(b.body, MetaText(b.metadata)))
     ELSE SameBody(a.body, Ct3(a.body, MetaText(a.metadata)), b.body, Ct3(b.body, MetaText(b.metadata)))
SameI(a, b) ==
  /\ a.kind = b.kind /\ a.description = b.description /\ a.states = b.states
  /\ CASE a.kind = "http3" -> SameRequest(a.request, b.request, FALSE) /\ a.response.status = b.response.status /\ SamePart(a.response, b.response, FALSE)
       [] a.kind = "msg3" -> SameContents(a.contents, b.contents, FALSE)
       [] OTHER ->
         /\ a.key = b.key /\ a.comments = b.comments /\ a.pending = b.pending /\ a.plugins = b.plugins /\ a.markup = b.markup /\ a.transport = b.transport
         /\ CASE a.kind = "http4" -> SameRequest(a.request, b.request, TRUE) /\ a.response.status = b.response.status /\ SamePart(a.response, b.response, TRUE)
              [] a.kind = "async4" -> SameContents(a.contents, b.contents, TRUE)
              [] OTHER -> /\ SameContents(a.request, b.request, TRUE) /\ Len(a.response) = Len(b.response)
                          /\ \A k \in DOMAIN a.response : SameContents(a.response[k], b.response[k], TRUE)
SamePact(p, q, spec) ==
  /\ p.kind = q.kind /\ p.consumer = q.consumer /\ p.provider = q.provider /\ p.plugins = q.plugins /\ q.version = spec
  /\ LET is == IF p.kind = "v4" THEN SortByDescription(p.interactions) ELSE p.interactions IN
     Len(is) = Len(q.interactions) /\ \A i \in DOMAIN is : SameI(is[i], q.interactions[i])
  /\ \A i \in DOMAIN p.metadata : LET k == MdKey(p.metadata[i][1]) IN
       k \in {S("pactSpecification"), S("pactRust")} \/ \E n \in DOMAIN q.metadata : q.metadata[n] = <<k, p.metadata[i][2]>>
(* the query strings of files before V3 are compared by what they mean *)
PlainQuery(i) == IF Has(i, "request") THEN LET r == Get(i, "request") IN
                   IF Has(r, "query") THEN IF IsStr(Get(r, "query")) THEN JObj(JIns(i[2], S("request"), JObj(JIns(r[2], S("query"), ToJson34(ParseQuery(Get(r, "query")[2])))))) ELSE i ELSE i ELSE i
Meaning(j) == IF Has(j, "interactions") THEN JObj(JIns(j[2], S("interactions"), JArr(Map(Get(j, "interactions")[2], LAMBDA i : PlainQuery(i))))) ELSE j
=============================================================================
