---------------------------- MODULE Tr_Convert -----------------------------
(* Conversions made by the code, forms of pacts and what is added to them.  *)
EXTENDS Convert, Judge
Models(j) == LET m == GetOr(j, "metadata") IN LET r == GetOr(m, "pactRust") IN DispOr(r, "models", <<>>)
(* a content type that a message has under another spelling of the name may be repeated or not *)
Equal(got, want) == Len(got) = Len(want) /\ \A k \in DOMAIN got : got[k] = want[k]
EqualMsg(got, want, i) == \/ Equal(got, want)
                          \/ i.kind = "async4" /\ CtKeys(i.contents.metadata) # {} /\ Equal(got, <<[want[1] EXCEPT !.contents = i.contents]>>)
ConvertOk(e) == LET d == e.d IN
  /\ e.v4 = AsV4(d)
  /\ e.kinds = Kinds(d) /\ e.muts = Muts(d) /\ e.type = TypeName(d) /\ e.type4 = TypeOf(AsV4(d).kind)
  /\ LET k == AsV4(d).kind IN e.v4s = <<IF k = "http4" THEN <<AsV4(d)>> ELSE <<>>, IF k = "async4" THEN <<AsV4(d)>> ELSE <<>>, IF k = "sync4" THEN <<AsV4(d)>> ELSE <<>>>>
  /\ Equal(e.http, AsHttp3(d)) /\ EqualMsg(e.msg, AsMsg3(d), d)
  /\ Equal(e.http4, AsHttp3(AsV4(d))) /\ EqualMsg(e.msg4, AsMsg3(AsV4(d)), AsV4(d))
  /\ e.copies /\ e.shown
  /\ \A k \in DOMAIN e.parts : e.parts[k][2] = PartMessage(e.parts[k][1]) /\ e.parts[k][3] = e.parts[k][1]
  /\ e.id = d.id /\ e.description = d.description /\ e.states = d.states /\ e.pending = Pending(d)
  /\ e.contents = Contents(d) /\ e.verify = ForVerification(d) /\ e.rules = RulesOf(d)
  /\ (Clear(d) => e.ct = CtOf(d))
  /\ e.set = Changed(d)
AsciiQuery(q) == q[1] = "some" => \A n \in DOMAIN q[2] : Ascii(q[2][n][1]) /\ \A k \in DOMAIN q[2][n][2] : Ascii(Flat(Tail(q[2][n][2][k])))
FormsOk(e) == LET d == e.d IN
  /\ e.v4 = <<V4Form(d)>>
  /\ Equal(e.http, HttpForm(d))
  /\ (Equal(e.msg, MsgForm(d)) \/ (e.msg # <<>> /\ d.kind = "v4" /\ LET w == MsgForm(d)[1] IN
        /\ [e.msg[1] EXCEPT !.interactions = <<>>] = [w EXCEPT !.interactions = <<>>] /\ Len(e.msg[1].interactions) = Len(w.interactions)
        /\ \A k \in DOMAIN w.interactions : LET i == SelectSeq(d.interactions, LAMBDA i : i.kind = "async4")[k] IN EqualMsg(<<e.msg[1].interactions[k]>>, <<w.interactions[k]>>, i)))
  /\ e.copies /\ e.equal
  /\ e.metadata = (IF d.kind = "v4" THEN Sections(d.metadata) ELSE d.metadata)
  /\ e.version = d.version /\ e.isv4 = (d.kind = "v4") /\ e.requires = (d.plugins # <<>>) /\ e.plugins = d.plugins
  /\ e.names = <<d.consumer, d.provider>> /\ e.interactions = d.interactions /\ e.muts = d.interactions
  /\ LET v == V4Form(d) IN
       /\ e.mixed = (Cardinality(KindsIn(v)) > 1)
       /\ \A k \in 1..3 : LET kind == <<"http4", "async4", "sync4">>[k] IN
            /\ e.has[k] = (kind \in KindsIn(v)) /\ e.filter[k] = SelectSeq(v.interactions, LAMBDA i : i.kind = kind)
       /\ \A k \in DOMAIN e.ids : LET is == SelectSeq(v.interactions, LAMBDA i : i.id = <<e.ids[k]>>) IN
            e.found[k] = (IF is = <<>> THEN <<>> ELSE <<is[1]>>)
  /\ LET w == WrittenForm(d, e.spec) IN
       IF w = <<>> THEN e.json = <<>>
       ELSE IF e.spec \in Vers /\ \E k \in DOMAIN w[1].interactions : ~AsciiQuery(w[1].interactions[k].request.query) THEN TRUE    \* P08
       ELSE /\ e.json # <<>>
            /\ ((\A k \in DOMAIN w[1].interactions : Clear(w[1].interactions[k])) => Meaning(e.json[1]) = Meaning(PactToJson(w[1], e.spec, Models(e.json[1]))))
  /\ e.after = Run(d, e.steps)
UpgradeOk(e) == LET d == e.d IN LossFree(d, "V3") /\ (\A k \in DOMAIN d.interactions : Clear(d.interactions[k]) /\ IKept(AsV4(d.interactions[k]), "V4")) =>
  e.k = "ok" /\ SameP3(e.from3, e.from4)
AcceptConvert(e) ==
  /\ e.k # "panic"
  /\ CASE e.op = "convert" -> e.k = "ok" /\ ConvertOk(e)
       [] e.op = "forms" -> e.k = "ok" /\ FormsOk(e)
       [] OTHER -> UpgradeOk(e)
=============================================================================
