--------------------------- MODULE Tr_ContentType --------------------------
EXTENDS ContentType, Judge
TextOfBytes(b) == LET t == FromUtf8(b) IN IF t[1] THEN t[2] ELSE <<>>
Vague(b) == Present(b) /\ (DetectVague(TextOfBytes(b[2])) \/ LET h == Head32(b[2]) IN h[1] /\ DetectVague(h[2]))
Near == {CtSome(XmlCt), CtSome(JsonCt), CtSome(TextCt)}
Same(v, got, want) == got = want \/ (v /\ got \in Near /\ want \in Near)
AcceptContentType(e) ==
  e.k = "ok" /\
  CASE e.op = "parse" ->
         LET r == ParseCt(e.s) IN
         CASE r = CtAny -> TRUE
           [] r = CtErr -> e.ct = CtNone /\ e.from = UnknownCt
           [] OTHER -> LET c == r[2] IN
                /\ e.ct = r /\ e.from = c /\ e.text = ShowCt(c) /\ e.again = r /\ e.base = BaseCt(c) /\ e.self = TRUE
                /\ e.classes = <<IsJsonCt(c), IsXmlCt(c), StrictXml(c), IsTextCt(c), IsBinaryCt(c), IsUnknown(c), IsForm(c)>>
    [] e.op = "equiv" -> e.out = <<EquivCt(e.a, e.b), e.a = e.b>>
    [] e.op = "detect" ->
         LET t == FromUtf8(e.b) IN
         /\ Same(Vague(<<"present", e.b>>), e.bytes, DetectBytes(e.b))
         /\ IF t[1] THEN Same(DetectVague(t[2]), e.string, CtSome(DetectText(t[2]))) ELSE e.string = CtNone
    [] e.op = "header" -> e.out = ParseHeader(e.name, e.value)
    [] e.op = "body" ->
         /\ e.text = BodyText(e.body) /\ e.display = BodyDisplay(e.body) /\ e.show = ShowBody(e.body) /\ e.ct = BodyCt(e.body)
         /\ e.with = WithCt(e.body, e.c) /\ e.ifnot = WithCtIfNotSet(e.body, e.c)
         /\ e.set = IF IsSome(e.c) THEN WithCt(e.body, e.c) ELSE e.body
         /\ e.has = <<Present(e.body), IsSome(BodyCt(e.body))>>
         /\ e.value = IF Present(e.body) THEN <<TRUE, e.body[2]>> ELSE <<FALSE>>
    [] e.op = "from" ->     \* a body made from a text, and from the JSON value the text is
         /\ \A i \in DOMAIN e.out : e.out[i] = (IF e.s = <<>> THEN <<"empty">> ELSE <<"present", Utf8(e.s), CtNone, "">>)
         /\ (e.json[1] => \A i \in {2, 3} : e.json[i] = <<"present", Utf8(e.json[4]), ParseCt(S("application/json;charset=UTF-8")), "">>)
    [] e.op = "part" ->
         LET b == e.body
             msg == e.kind \in {"msg3", "msg4"}
             lookup == IF msg THEN LET k == {i \in DOMAIN e.meta : Lower(e.meta[i][1]) \in {S("contenttype"), S("content-type")}} IN
                                   IF k = {} THEN <<FALSE>> ELSE <<TRUE, e.meta[CHOOSE i \in k : TRUE][2]>>
                       ELSE IF HasHdr(e.headers, S("content-type")) THEN <<TRUE, HdrText(e.headers, S("content-type"))>> ELSE <<FALSE>>
             d == Declared(lookup)
             first == IF ~msg /\ lookup[1] THEN LET vs == HdrVals(e.headers, S("content-type")) IN IF vs = <<>> THEN <<FALSE>> ELSE <<TRUE, vs[1]>> ELSE lookup
             d4 == Declared(first)            \* V4 parts go by the first of several values
             v == Vague(b)
             det == IF Present(b) THEN CtSome(DetectText(TextOfBytes(b[2]))) ELSE CtNone
             detb == IF Present(b) THEN DetectBytes(b[2]) ELSE CtNone
             text == BodyText(b)
         IN /\ e.lookup = lookup
            /\ Same(v, e.detected, det)
            /\ (d = CtAny => TRUE)
            /\ (d # CtAny => Same(v, e.ct, PartCt(b, d, det)))
            /\ (e.kind \in {"req4", "resp4", "msg4"} /\ d4 # CtAny => Same(v, e.own, PartCt(b, d4, detb)))
            /\ (e.kind = "msg3" /\ d # CtAny => Same(v, e.own, PartCt(b, d, det)))
            /\ (~msg => e.has = <<HasHdr(e.headers, e.name), IF HasHdr(e.headers, e.name) THEN <<TRUE, HdrText(e.headers, e.name)>> ELSE <<FALSE>>>>)
            /\ e.istext = (text[1] /\ text[2] # <<>> /\ \A i \in DOMAIN text[2] : text[2][i] < 128)
    [] OTHER ->      \* set_header one after the other, then questions
         LET RECURSIVE Go(_, _)
             Go(hs, i) == IF i > Len(e.ops) THEN hs ELSE Go(SetHdr(hs, e.ops[i][1], e.ops[i][2]), i + 1)
             hs == Go(e.start, 1)
         IN /\ {e.out[i] : i \in DOMAIN e.out} = {hs[i] : i \in DOMAIN hs} /\ Len(e.out) = Len(hs)
            /\ e.answers = [i \in DOMAIN e.ask |-> IF HasHdr(hs, e.ask[i]) THEN <<TRUE, <<TRUE, HdrText(hs, e.ask[i])>>>> ELSE <<FALSE, <<FALSE>>>>]
=============================================================================
