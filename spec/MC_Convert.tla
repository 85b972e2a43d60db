---------------------------- MODULE MC_Convert -----------------------------
(* Conversions: back to the own model, through the files of both versions,  *)
(* and pacts that are built step by step.                                   *)
EXTENDS MC_PactJson, Convert
CONSTANTS Steps
NextC == UNCHANGED <<p, spec>>
Is == {p.interactions[k] : k \in DOMAIN p.interactions}
Back == \A i \in Is : /\ Kinds(AsV4(i))[3] /\ AsV4(AsV4(i)) = AsV4(i)
                      /\ (i.kind = "http3" => AsHttp3(AsV4(i)) = <<i>>)
                      /\ (i.kind = "msg3" => LET m == AsMsg3(AsV4(i))[1] IN m.contents.body = i.contents.body /\ SameI3(m, i) /\ {i.contents.metadata[k] : k \in DOMAIN i.contents.metadata} \subseteq {m.contents.metadata[k] : k \in DOMAIN m.contents.metadata})
Forms == /\ V4Form(V4Form(p)) = V4Form(p)
         /\ \A s \in {"V1", "V2", "V3", "V4"} : LET w == WrittenForm(p, s) IN w # <<>> => Keeps(p, w[1])
         /\ (HttpForm(p) # <<>> => HttpForm(HttpForm(p)[1]) = HttpForm(p)) /\ (p.kind = "http" => HttpForm(V4Form(p))[1].interactions = p.interactions)
(* written for V3 and read, and written for V4, read and taken back to V3: the same *)
Commutes == p.kind # "v4" /\ LossFree(p, "V3") /\ (\A i \in Is : Clear(i) /\ IKept(AsV4(i), "V4")) =>
  LET j3 == PactToJson(p, "V3", S("1"))
      j4 == PactToJson(V4Form(p), "V4", S("1"))
      a == Load(j3, <<>>)
      b == Load(j4, <<>>)
  IN ~Vague(j3, <<>>) /\ ~Vague(j4, <<>>) => SameP3(a, (IF p.kind = "http" THEN HttpForm(b) ELSE MsgForm(b))[1])

(* ---------------- building a pact ---------------- *)
Kind3(k) == CASE k = "http" -> "http3" [] k = "message" -> "msg3" [] OTHER -> ""
AnI == {Http3(<<"empty">>, <<"none">>, <<"none">>, <<>>), Msg3(<<"missing">>, <<>>), Http4(<<"null">>, <<"none">>), Async4(<<"present", <<123, 125>>, CtSome(JsonCt), "">>, <<>>), Sync4(<<"missing">>, <<>>)}
Confs == {<<>>, <<<<S("a"), JArr(<<JInt(1)>>)>>>>, <<<<S("a"), JObj(<<<<S("b"), JNull>>>>)>>, <<S("c"), JNull>>>>}
AStep == {<<"add", i>> : i \in AnI} \cup {<<"plugin", n, S("1"), c>> : n \in {S("x"), S("y")}, c \in Confs} \cup {<<"version", k, S(v)>> : k \in {S("k"), S("models")}, v \in {"1", "2"}}
InitB == spec = 0 /\ p \in {Pact(k, md, <<>>) : k \in {"http", "message", "v4"}, md \in {<<>>, <<<<S("pactRust"), Obj(<<<<S("k"), JStr(<<>>)>>>>)>>>>, <<<<S("pactRust"), JInt(1)>>>>}}
NextB == spec < Steps /\ spec' = spec + 1 /\ \E st \in AStep : Allowed(p, st) /\ p' = Step(p, st)
Kept == /\ \A i \in Is : p.kind # "v4" => i.kind = Kind3(p.kind)
        /\ (p.kind = "v4" => \A i \in Is : IsV4(i))
        /\ Cardinality({<<p.plugins[k][1], p.plugins[k][2]>> : k \in DOMAIN p.plugins}) = Len(p.plugins)
        /\ (p.kind # "v4" => p.plugins = <<>>)
OneStep == [][\E st \in AStep : /\ Len(p'.interactions) >= Len(p.interactions) /\ SubSeq(p'.interactions, 1, Len(p.interactions)) = p.interactions
                                /\ Len(p'.plugins) >= Len(p.plugins)]_<<p, spec>>
(* adding the same configuration once more changes arrays only; the same version, nothing *)
Again == \A st \in AStep : st[1] = "version" => Step(Step(p, st), st) = Step(p, st)
=============================================================================
