---------------------------- MODULE MC_PactJson ----------------------------
(* Pacts that lose nothing come back the same from their file, and are      *)
(* written again as the same file.  One interaction varies at a time:       *)
(* bodies, content types and headers, query strings, states, metadata.      *)
EXTENDS PactJson
CONSTANTS Texts, Types
Bins == {<<255, 0>>, <<123, 255>>}
VARIABLES p, spec

Txt(n) == CASE n = 1 -> S("hello") [] n = 2 -> S("{\"a\": 1}") [] n = 3 -> S("\"q\"") [] n = 4 -> S("null") [] n = 5 -> S("aGVsbG8=")
             [] n = 6 -> S("<a/>") [] n = 7 -> S("[1,true]") [] n = 8 -> S("\"{}\"") [] n = 9 -> S("\"\"") [] n = 10 -> S("{\"b\":1, \"$a\":2}")
             [] n = 11 -> S("{bad") [] n = 12 -> S(" 1.5") [] OTHER -> <<233, 32, 8364>>
Type(n) == CASE n = 1 -> S("text/plain") [] n = 2 -> S("application/json") [] n = 3 -> S("image/png") [] n = 4 -> S("not a type") [] n = 5 -> S("application/xml") [] OTHER -> S("application/hal+json; q=\"a b\"")
Bodies == {<<"missing">>, <<"empty">>, <<"null">>} \cup
          {<<"present", b, c, h>> : b \in {Utf8(Txt(n)) : n \in Texts} \cup Bins \cup {<<>>}, c \in {CtNone} \cup {Declared(<<TRUE, Type(n)>>) : n \in Types \ {4}}, h \in {"", "TEXT", "BINARY"}}
Hdrs == {<<"none">>, <<"some", <<>>>>} \cup {<<"some", <<<<S("Content-Type"), <<Type(n)>>>>>>>> : n \in Types}
        \cup {<<"some", <<<<S("X"), v>>>>>> : v \in {<<>>, <<S("a"), S("b")>>, <<S("a, b")>>, <<S(" a")>>, <<<<>>>>}}
Metas == {<<>>} \cup {<<<<S("contentType"), JStr(Type(n))>>>> : n \in Types} \cup {<<<<S("k"), JInt(1)>>>>, <<<<S("content-type"), JInt(1)>>>>}
Queries == {<<"none">>, <<"some", <<>>>>, <<"some", <<<<S("a"), <<<<0>>, <<1, S("x y&")>>, <<1, <<>>>>>>>>>>>>, <<"some", <<<<S("a"), <<>>>>>>>>, <<"some", <<<<<<>>, <<<<1, S("v")>>>>>>>>>>}
StateLists == {<<>>, <<<<S("s"), <<>>>>>>, <<<<<<>>, <<>>>>>>, <<<<S("s"), <<<<S("p"), JNull>>>>>>, <<S("s"), <<>>>>>>}

Req(b, h, q) == [method |-> S("get"), path |-> S("/a"), query |-> q, headers |-> h, body |-> b, rules |-> <<>>, gens |-> <<>>]
Resp(b, h) == [status |-> 200, headers |-> h, body |-> b, rules |-> <<>>, gens |-> <<>>]
Cnt(b, m) == [body |-> b, metadata |-> m, rules |-> <<>>, gens |-> <<>>]
Http3(b, h, q, s) == [kind |-> "http3", id |-> <<>>, description |-> S("d"), states |-> s, request |-> Req(b, h, q), response |-> Resp(<<"missing">>, <<"none">>)]
Msg3(b, m) == [kind |-> "msg3", id |-> <<>>, description |-> S("d"), states |-> <<>>, contents |-> Cnt(b, m)]
Common(d) == [id |-> <<>>, key |-> <<>>, description |-> S(d), states |-> <<>>, comments |-> <<>>, pending |-> FALSE, plugins |-> <<>>, markup |-> <<<<>>, <<>>>>, transport |-> <<>>]
Http4(b, h) == Common("b") @@ [kind |-> "http4", request |-> Req(<<"missing">>, <<"none">>, <<"none">>), response |-> Resp(b, h)]
Async4(b, m) == Common("a") @@ [kind |-> "async4", contents |-> Cnt(b, m)]
Sync4(b, m) == Common("c") @@ [kind |-> "sync4", request |-> Cnt(<<"empty">>, <<>>), response |-> <<Cnt(b, m)>>]
Mk4(c, k, mu, t) == [Async4(<<"missing">>, <<>>) EXCEPT !.comments = c, !.key = k, !.markup = mu, !.transport = t, !.pending = TRUE]
Pact(kind, md, is) == [kind |-> kind, consumer |-> S("c"), provider |-> <<>>, version |-> "V3", metadata |-> md, plugins |-> <<>>, interactions |-> is]
SpecOf(md) == Obj(<<<<S("version"), JStr(S(md))>>>>)
Mds == {<<>>, <<<<S("pactSpecification"), SpecOf("9")>>>>, <<<<S("pact-rust"), SpecOf("1")>>>>, <<<<S("own"), SpecOf("1")>>, <<S("pactRust"), SpecOf("1")>>>>, <<<<S("pact-rust"), SpecOf("1")>>, <<S("pactRust"), SpecOf("2")>>>>}
Init ==
  \/ spec = "V3" /\ \E b \in Bodies, h \in Hdrs : p = Pact("http", <<>>, <<Http3(b, h, <<"none">>, <<>>)>>)
  \/ spec = "V3" /\ \E b \in Bodies, m \in Metas : p = Pact("message", <<>>, <<Msg3(b, m)>>)
  \/ spec \in Vers \cup {"V3"} /\ \E q \in Queries, s \in StateLists, md \in Mds : p = Pact("http", md, <<Http3(<<"missing">>, <<"none">>, q, s)>>)
  \/ spec = "V4" /\ \E b \in Bodies, h \in Hdrs : p = Pact("v4", <<>>, <<Http4(b, h)>>)
  \/ spec = "V4" /\ \E b \in Bodies, m \in Metas : p = Pact("v4", <<>>, <<Sync4(b, m), Async4(b, m)>>)
  \/ spec = "V4" /\ \E c \in {<<>>, <<<<S("t"), JArr(<<>>)>>>>, <<<<S("t"), JBool(FALSE)>>>>}, k \in {<<>>, <<S("1")>>, <<<<>>>>}, mu \in {<<S("m"), S("t")>>, <<<<>>, S("t")>>}, t \in {<<>>, <<S("tcp")>>}, md \in Mds :
       p = Pact("v4", md, <<Mk4(c, k, mu, t)>>)
Next == UNCHANGED <<p, spec>>
J == PactToJson(p, spec, S("1"))
Survives == LossFree(p, spec) => /\ ~Vague(J, <<>>) /\ LoadOk(J) /\ VersionOf(J) = spec
                                 /\ LET q == Load(J, <<>>) IN SamePact(p, q, spec) /\ PactToJson(q, spec, S("1")) = J
(* and what does not count as kept really is changed: the conditions are not too strong *)
Exact == Written(p, spec) /\ MetadataKept(p) /\ ~LossFree(p, spec) /\ ~Vague(J, <<>>) => ~(LoadOk(J) /\ LET q == Load(J, <<>>) IN SamePact(p, q, spec) /\ PactToJson(q, spec, S("1")) = J)
=============================================================================
