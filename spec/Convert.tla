------------------------------ MODULE Convert -----------------------------
(* The forms an interaction and a pact have in the models of the different  *)
(* versions of the specification, and the operations all pacts have.        *)
(* Pacts and interactions are the records of PactJson.                      *)
EXTENDS PactJson

IsV4(i) == i.kind \in {"http4", "async4", "sync4"}
IsHttp(i) == i.kind \in {"http3", "http4"}
IsMsg(i) == i.kind \in {"msg3", "async4"}
Base(i) == [id |-> i.id, description |-> i.description, states |-> i.states]
Own4 == [key |-> <<>>, transport |-> <<>>, comments |-> <<>>, pending |-> FALSE, plugins |-> <<>>, markup |-> <<<<>>, <<>>>>]

(* an interaction in the V4 model, and in the V3 model where that has one: <<>> or <<i>> *)
AsV4(i) == CASE i.kind = "http3" -> Base(i) @@ Own4 @@ [kind |-> "http4", request |-> i.request, response |-> i.response]
             [] i.kind = "msg3" -> Base(i) @@ Own4 @@ [kind |-> "async4", contents |-> i.contents]
             [] OTHER -> i
(* in a V3 message the content type has its place in the metadata *)
WithType(c) == IF Present(c.body) THEN (IF IsSome(c.body[3]) /\ ~JHas(JObj(c.metadata), S("contentType"))
                                        THEN [c EXCEPT !.metadata = JIns(c.metadata, S("contentType"), JStr(ShowCt(c.body[3][2])))] ELSE c) ELSE c
AsHttp3(i) == CASE i.kind = "http3" -> <<i>> [] i.kind = "http4" -> <<Base(i) @@ [kind |-> "http3", request |-> i.request, response |-> i.response]>> [] OTHER -> <<>>
AsMsg3(i) == CASE i.kind = "msg3" -> <<i>> [] i.kind = "async4" -> <<Base(i) @@ [kind |-> "msg3", contents |-> WithType(i.contents)]>> [] OTHER -> <<>>
(* a part of a message on its own *)
PartMessage(c) == [kind |-> "msg3", id |-> <<>>, description |-> S("message"), states |-> <<>>, contents |-> c]

(* ---------------- what an interaction says of itself ---------------- *)
(* is_request_response, is_message, is_v4, is_v4_http, is_v4_async_message, is_v4_sync_message *)
Kinds(i) == <<IsHttp(i), IsMsg(i), IsV4(i), i.kind = "http4", i.kind = "async4", i.kind = "sync4">>
Muts(i) == <<IsV4(i), i.kind = "http4", i.kind = "async4", i.kind = "sync4">>
TypeName(i) == (IF IsV4(i) THEN S("V4 ") ELSE S("V3 ")) \o TypeOf(AsV4(i).kind)
Missing == <<"missing">>
Contents(i) == CASE IsHttp(i) -> i.response.body [] IsMsg(i) -> i.contents.body [] OTHER -> Missing
ForVerification(i) == IF i.kind = "sync4" THEN (IF i.response = <<>> THEN Missing ELSE i.response[1].body) ELSE Contents(i)
RulesOf(i) == IF IsMsg(i) THEN <<i.contents.rules>> ELSE <<>>
Pending(i) == IF IsV4(i) THEN i.pending ELSE FALSE
(* the content type: the body's own, else the declared one, else what it looks like *)
CtOf(i) == CASE i.kind = "http3" -> Ct3(i.response.body, HeaderText(i.response.headers))
             [] i.kind = "http4" -> Ct4(i.response.body, FirstText(i.response.headers))
             [] i.kind = "msg3" -> Ct3(i.contents.body, MetaText(i.contents.metadata))
             [] i.kind = "async4" -> Ct4(i.contents.body, MetaText(i.contents.metadata))
             [] OTHER -> Ct4(i.request.body, MetaText(i.request.metadata))
BodyClear(b, text) == /\ Declared(text) # CtAny
                      /\ Present(b) => ~DetectVague(WholeText(b[2])) /\ ~(LET h == Head32(b[2]) IN h[1] /\ DetectVague(h[2])) /\ ParseBytes(b[2]) # VagueJ
PartClear(r) == OneCt(r.headers) /\ Len(HeaderVals(r.headers)) < 2 /\ BodyClear(r.body, HeaderText(r.headers))
ContentsClear(c) == Cardinality(CtKeys(c.metadata)) < 2 /\ BodyClear(c.body, MetaText(c.metadata))
Clear(i) == CASE IsHttp(i) -> PartClear(i.request) /\ PartClear(i.response) /\ Ascii(i.request.method)
              [] IsMsg(i) -> ContentsClear(i.contents)
              [] OTHER -> ContentsClear(i.request) /\ \A k \in DOMAIN i.response : ContentsClear(i.response[k])
(* the changes an interaction allows *)
Changed(i) ==
  LET a == [i EXCEPT !.id = <<S("new id")>>, !.description = S("new description"), !.states = Append(@, <<S("new state"), <<>>>>)] IN
  IF IsV4(i) THEN [a EXCEPT !.transport = <<S("new transport")>>, !.comments = JIns(@, S("new comment"), JInt(1)), !.plugins = JIns(@, S("new plugin"), <<>>), !.markup = <<S("new markup"), @[2]>>]
  ELSE a

(* ---------------- pacts: <<>> where there is no such form ---------------- *)
StringMap(ms) == Map(ms, LAMBDA m : <<m[1], JStr(ToStr(m[2]))>>)
(* the V3 models keep sections of texts only *)
Sections(md) == LET os == SelectSeq(md, LAMBDA m : IsObj(m[2])) IN Map(os, LAMBDA m : <<m[1], JObj(StringMap(m[2][2]))>>)
V3Metadata(md) == LET ss == Sections(SelectSeq(md, LAMBDA m : m[1] # S("pactSpecification"))) IN
                  IF JHas(JObj(md), S("pactSpecification")) THEN JIns(ss, S("pactSpecification"), Obj(<<<<S("version"), JStr(VersionText("V3"))>>>>)) ELSE ss
V4Form(p) == [p EXCEPT !.kind = "v4", !.version = "V4", !.interactions = Map(@, LAMBDA i : AsV4(i))]
Down(p, kind, is) == [p EXCEPT !.kind = kind, !.version = "V3", !.plugins = <<>>, !.metadata = V3Metadata(@), !.interactions = is]
HttpForm(p) == CASE p.kind = "http" -> <<p>> [] p.kind = "message" -> <<>> [] OTHER -> <<Down(p, "http", Flat(Map(p.interactions, LAMBDA i : AsHttp3(i))))>>
MsgForm(p) == CASE p.kind = "message" -> <<p>> [] p.kind = "http" -> <<>> [] OTHER -> <<Down(p, "message", Flat(Map(p.interactions, LAMBDA i : AsMsg3(i))))>>
KindsIn(p) == {p.interactions[n].kind : n \in DOMAIN p.interactions}
(* the form that is written for a version, if there is one: nothing is left out *)
WrittenForm(p, spec) ==
  CASE spec = "V4" -> <<V4Form(p)>>
    [] p.kind = "message" -> IF spec = "V3" THEN <<p>> ELSE <<>>
    [] p.kind = "http" -> <<p>>
    [] KindsIn(p) \subseteq {"http4"} -> HttpForm(p)
    [] KindsIn(p) = {"async4"} -> IF spec = "V3" THEN MsgForm(p) ELSE <<>>
    [] OTHER -> <<>>
Keeps(p, q) == Len(p.interactions) = Len(q.interactions)

(* ---------------- adding to a pact: whether that is allowed, and what comes of it ---------------- *)
Fits(p, i) == CASE p.kind = "http" -> AsHttp3(i) [] p.kind = "message" -> AsMsg3(i) [] OTHER -> <<AsV4(i)>>
AddI(p, i) == [p EXCEPT !.interactions = @ \o Fits(p, i)]
RECURSIVE DeepMerge(_, _), MergeMembers(_, _)
DeepMerge(a, b) == IF IsArr(a) /\ IsArr(b) THEN JArr(a[2] \o b[2]) ELSE IF IsObj(a) /\ IsObj(b) THEN JObj(MergeMembers(a[2], b[2])) ELSE b
MergeMembers(ms, bs) == IF bs = <<>> THEN ms ELSE MergeMembers(JIns(ms, bs[1][1], IF JHas(JObj(ms), bs[1][1]) THEN DeepMerge(JGet(JObj(ms), bs[1][1]), bs[1][2]) ELSE bs[1][2]), Tail(bs))
SamePlugin(p, n, v) == {k \in DOMAIN p.plugins : p.plugins[k][1] = n /\ p.plugins[k][2] = v}
AddPlugin(p, n, v, conf) == LET same == SamePlugin(p, n, v) IN
  IF same = {} THEN [p EXCEPT !.plugins = Append(@, <<n, v, conf>>)]
  ELSE LET k == CHOOSE k \in same : \A m \in same : k <= m IN [p EXCEPT !.plugins[k] = <<n, v, MergeMembers(@[3], conf)>>]
AddVersion(p, k, v) ==
  LET rust == IF JHas(JObj(p.metadata), S("pactRust")) THEN JGet(JObj(p.metadata), S("pactRust")) ELSE JObj(<<>>) IN
  IF IsObj(rust) THEN [p EXCEPT !.metadata = JIns(@, S("pactRust"), JObj(JIns(rust[2], k, JStr(v))))] ELSE p
(* a step: <<"add", i>>, <<"plugin", name, version, members>>, <<"version", key, version>> *)
Allowed(p, st) == CASE st[1] = "add" -> Fits(p, st[2]) # <<>> [] st[1] = "plugin" -> p.kind = "v4" [] OTHER -> TRUE
Step(p, st) == IF ~Allowed(p, st) THEN p ELSE CASE st[1] = "add" -> AddI(p, st[2]) [] st[1] = "plugin" -> AddPlugin(p, st[2], st[3], st[4]) [] OTHER -> AddVersion(p, st[2], st[3])
RECURSIVE Run(_, _)
Run(p, sts) == IF sts = <<>> THEN <<>> ELSE LET q == Step(p, sts[1]) IN <<<<Allowed(p, sts[1]), q>>>> \o Run(q, Tail(sts))

(* the same as V3 model, whatever way it came there: the content type of a body may now be kept with it
   or in the metadata *)
SameC3(a, b) == LET x == WithType(a) y == WithType(b) IN
  /\ a.rules = b.rules /\ a.gens = b.gens
  /\ SelectSeq(x.metadata, LAMBDA m : ~IsCtKey(m[1])) = SelectSeq(y.metadata, LAMBDA m : ~IsCtKey(m[1]))
  /\ SameBody(a.body, Ct3(a.body, MetaText(a.metadata)), b.body, Ct3(b.body, MetaText(b.metadata)))
SameI3(a, b) == /\ a.kind = b.kind /\ a.description = b.description /\ a.states = b.states
                /\ IF a.kind = "msg3" THEN SameC3(a.contents, b.contents)
                   ELSE SameRequest(a.request, b.request, FALSE) /\ a.response.status = b.response.status /\ SamePart(a.response, b.response, FALSE)
SameP3(p, q) == /\ p.kind = q.kind /\ p.consumer = q.consumer /\ p.provider = q.provider
                (* V4 files are ordered *)
                /\ LET is == SortByDescription(p.interactions) js == SortByDescription(q.interactions) IN
                   Len(is) = Len(js) /\ \A k \in DOMAIN is : SameI3(is[k], js[k])
=============================================================================
