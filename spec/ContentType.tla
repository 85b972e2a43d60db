----------------------------- MODULE ContentType ---------------------------
(* Content types: grammar, text, classes, detection from the content, and   *)
(* the content type of a part.  A content type is                           *)
(*   <<main, sub, suffix, attributes>>: suffix is <<>> or <<text>>, the     *)
(* attributes are <<name, value>> in the order of their names.              *)
EXTENDS Utf8

CtNone == <<"none">>                                  \* no content type
CtSome(c) == <<"some", c>>
CtErr == <<"err">>
CtAny == <<"any">>                                    \* the grammar of RFC 9110 has no answer the code must share
Mk(m, s) == <<S(m), S(s), <<>>, <<>>>>
XmlCt == Mk("application", "xml")
HtmlCt == Mk("text", "html")
JsonCt == Mk("application", "json")
TextCt == Mk("text", "plain")
UnknownCt == Mk("*", "*")
JsonUtf8Ct == <<S("application"), S("json"), <<>>, <<<<S("charset"), S("utf-8")>>>>>>

Tchar(c) == IsAlnum(c) \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
Token(s) == s # <<>> /\ \A i \in DOMAIN s : Tchar(s[i])
QChar(c) == c > 31 /\ c # 127

\* end of the run of token characters that starts at i
RECURSIVE TokEnd(_, _)
TokEnd(s, i) == IF i <= Len(s) /\ Tchar(s[i]) THEN TokEnd(s, i + 1) ELSE i
RECURSIVE SkipSp(_, _)
SkipSp(s, i) == IF i <= Len(s) /\ s[i] = 32 THEN SkipSp(s, i + 1) ELSE i
RECURSIVE LastPlus(_, _)
LastPlus(s, i) == IF i <= 1 THEN 0 ELSE IF s[i] = 43 THEN i ELSE LastPlus(s, i - 1)   \* a plus at the start is no suffix

RECURSIVE PutAttr(_, _, _)
PutAttr(as, k, v) ==
  IF as = <<>> THEN <<<<k, v>>>>
  ELSE LET c == Cmp(k, as[1][1]) IN
       IF c = 0 THEN <<<<k, v>>>> \o Tail(as) ELSE IF c < 0 THEN <<<<k, v>>>> \o as ELSE <<as[1]>> \o PutAttr(Tail(as), k, v)

(* attributes from i on, after a ";" *)
RECURSIVE Attrs(_, _, _)
Attrs(s, i0, as) ==
  LET i == SkipSp(s, i0)
      e == TokEnd(s, i)
  IN IF i > Len(s) THEN <<"some", as>>
     ELSE IF e = i \/ e > Len(s) THEN CtErr
     ELSE IF s[e] # 61 THEN CtErr
     ELSE
       LET name == Lower(SubSeq(s, i, e - 1))
           Norm(v) == IF name = S("charset") THEN Lower(v) ELSE v
       IN IF e < Len(s) /\ s[e + 1] = 34 THEN
            LET q == IndexFrom(s, 34, e + 2)
                b == IndexFrom(s, 92, e + 2)
            IN IF q = e + 2 THEN CtAny                                        \* an empty quoted value
               ELSE IF b # 0 /\ (q = 0 \/ b < q) THEN CtAny                   \* a quoted pair
               ELSE IF q = 0 THEN CtErr
               ELSE IF \E j \in e + 2..q - 1 : ~QChar(s[j]) THEN CtErr
               ELSE LET n == SkipSp(s, q + 1)
                        as2 == PutAttr(as, name, Norm(SubSeq(s, e + 2, q - 1)))
                    IN IF n > Len(s) THEN <<"some", as2>> ELSE IF s[n] # 59 THEN CtErr ELSE Attrs(s, n + 1, as2)
          ELSE LET t == TokEnd(s, e + 1)
                   as2 == PutAttr(as, name, Norm(SubSeq(s, e + 1, t - 1)))
               IN IF t > Len(s) THEN (IF t = e + 1 THEN CtAny ELSE <<"some", as2>>)   \* nothing after the "="
                  ELSE IF t = e + 1 \/ s[t] # 59 THEN CtErr
                  ELSE Attrs(s, t + 1, as2)

ParseCt(s) ==
  LET slash == TokEnd(s, 1) IN
  IF slash = 1 \/ slash > Len(s) THEN CtErr
  ELSE IF s[slash] # 47 THEN CtErr
  ELSE
    LET e == TokEnd(s, slash + 1)
        sub == Lower(SubSeq(s, slash + 1, e - 1))
        p == LastPlus(sub, Len(sub))
        Make(as) == <<Lower(SubSeq(s, 1, slash - 1)), IF p = 0 THEN sub ELSE SubSeq(sub, 1, p - 1),
                      IF p = 0 THEN <<>> ELSE <<From(sub, p + 1)>>, as>>
    IN IF e > Len(s) THEN (IF sub = <<>> THEN CtAny ELSE CtSome(Make(<<>>)))           \* "a/": nothing after the slash
       ELSE IF sub = <<>> \/ s[e] # 59 THEN CtErr
       ELSE LET a == Attrs(s, e + 1, <<>>) IN IF a[1] = "some" THEN CtSome(Make(a[2])) ELSE a

IsSome(r) == r[1] = "some"
FromText(s) == LET r == ParseCt(s) IN IF IsSome(r) THEN r[2] ELSE UnknownCt

ShowValue(v) == IF Token(v) THEN v ELSE <<34>> \o v \o <<34>>
ShowCt(c) == c[1] \o <<47>> \o c[2] \o (IF c[3] = <<>> THEN <<>> ELSE <<43>> \o c[3][1])
             \o Flat([i \in DOMAIN c[4] |-> <<59>> \o c[4][i][1] \o <<61>> \o ShowValue(c[4][i][2])])

(* classes *)
HasSuffix(c, t) == c[3] = <<S(t)>>
IsJsonCt(c) == c[1] = S("application") /\ (StartsWith(c[2], S("json")) \/ HasSuffix(c, "json") \/ c[2] = S("graphql"))
StrictXml(c) == c[1] \in {S("application"), S("text")} /\ c[2] = S("xml")
IsXmlCt(c) == c[1] \in {S("application"), S("text")} /\ (c[2] = S("xml") \/ HasSuffix(c, "xml"))
IsForm(c) == c[1] = S("application") /\ c[2] = S("x-www-form-urlencoded")
IsTextCt(c) == c[1] = S("text") \/ IsXmlCt(c) \/ IsJsonCt(c) \/ IsForm(c)
IsBinaryCt(c) == ~IsTextCt(c)
IsUnknown(c) == c[1] = S("*") \/ c[2] = S("*")
BaseCt(c) == <<c[1], IF c[3] = <<>> THEN c[2] ELSE c[3][1], <<>>, <<>>>>
EquivCt(a, b) == LET type == IF StrictXml(a) /\ StrictXml(b) THEN TRUE ELSE a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3]
                 IN type /\ (a[4] = <<>> \/ a[4] = b[4])

(* detection: looks at the first characters only *)
WordC(c) == IsAlnum(c) \/ c = 95
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ IsSpace(s[i]) THEN SkipWs(s, i + 1) ELSE i
At(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
XmlDecl(s, i) == At(s, i, S("<?xml")) /\ At(s, SkipWs(s, i + 5), S("version"))
HtmlStart(s, i) == LET u == Upper(SubSeq(s, i, Min2(Len(s), i + 8))) IN StartsWith(u, S("<!DOCTYPE")) \/ StartsWith(u, S("<HTML>"))
ElemStart(s, i) == i < Len(s) /\ s[i] = 60 /\ WordC(s[i + 1])
JsonStart(s, i) ==
  i <= Len(s) /\
  (\/ At(s, i, S("true")) \/ At(s, i, S("false")) \/ At(s, i, S("null"))
   \/ IsDigit(s[i]) \/ s[i] = 34 \/ s[i] = 91
   \/ (s[i] = 123 /\ LET j == SkipWs(s, i + 1) IN j <= Len(s) /\ (s[j] = 125 \/ (s[j] = 34 /\ j < Len(s) /\ WordC(s[j + 1])))))
DetectText(s) == LET i == SkipWs(s, 1) IN
  IF XmlDecl(s, i) THEN XmlCt ELSE IF HtmlStart(s, i) THEN HtmlCt ELSE IF ElemStart(s, i) THEN XmlCt
  ELSE IF JsonStart(s, i) THEN JsonCt ELSE TextCt
(* names that begin with a letter that is not ASCII are not specified *)
DetectVague(s) == LET i == SkipWs(s, 1) IN
  i < Len(s) /\ (\/ (s[i] = 60 /\ s[i + 1] > 127)
                 \/ (s[i] = 123 /\ LET j == SkipWs(s, i + 1) IN j < Len(s) /\ s[j] = 34 /\ s[j + 1] > 127))

Sub32(b) == SubSeq(b, 1, Min2(32, Len(b)))
(* the characters that are complete in the first 32 bytes *)
CutChar(p) == \E c \in {128, 191}, m \in 1..3 : LET t == FromUtf8(p \o [i \in 1..m |-> c]) IN t[1] /\ Len(t[2]) = 1
Head32(b) == LET h == Sub32(b)
                 cut == {n \in 1..3 : n < Len(h) /\ CutChar(SubSeq(h, Len(h) - n + 1, Len(h)))}
             IN IF Len(b) <= 32 \/ cut = {} THEN FromUtf8(h)
                ELSE FromUtf8(SubSeq(h, 1, 32 - (CHOOSE n \in cut : \A m \in cut : m <= n)))
DetectBytes(b) == LET t == Head32(b) IN IF t[1] THEN CtSome(DetectText(t[2])) ELSE CtNone

(* headers: a sequence of <<name, values>>; names agree when they do so in lower case *)
SingleValue == {S(x) : x \in {"date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"}}
ParseHeader(name, value) == IF Lower(name) \in SingleValue THEN <<Trim(value)>>
                            ELSE LET p == Split(value, 44) IN [i \in DOMAIN p |-> Trim(p[i])]
HdrIdx(hs, name) == {i \in DOMAIN hs : Lower(hs[i][1]) = Lower(name)}
HasHdr(hs, name) == HdrIdx(hs, name) # {}
HdrVals(hs, name) == hs[CHOOSE i \in HdrIdx(hs, name) : TRUE][2]
HdrText(hs, name) == JoinWith(HdrVals(hs, name), S(", "))
RECURSIVE SetHdr(_, _, _)
SetHdr(hs, name, vals) ==
  IF hs = <<>> THEN <<<<name, vals>>>>
  ELSE IF Lower(hs[1][1]) = Lower(name) THEN <<<<hs[1][1], vals>>>> \o Tail(hs)
  ELSE <<hs[1]>> \o SetHdr(Tail(hs), name, vals)

(* bodies: <<"missing">>, <<"empty">>, <<"null">>, <<"present", bytes, ct, hint>>: ct a CtNone/CtSome, hint "", "TEXT", "BINARY", "DEFAULT" *)
Present(b) == b[1] = "present"
BodyCt(b) == IF Present(b) THEN b[3] ELSE CtNone
BodyIsText(b) == IF b[4] # "" THEN b[4] = "TEXT" ELSE IsSome(b[3]) /\ IsTextCt(b[3][2])
BodyText(b) == IF ~Present(b) THEN <<FALSE>> ELSE IF BodyIsText(b) THEN FromUtf8(b[2]) ELSE <<FALSE>>
HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexBytes(b) == Flat([i \in DOMAIN b |-> <<HexUp(b[i] \div 16), HexUp(b[i] % 16)>>])
BytesText(b, n) == (IF Len(b) <= n THEN HexBytes(b) ELSE HexBytes(SubSeq(b, 1, n)) \o S("...")) \o S(" (") \o IntStr(Len(b)) \o S(" bytes)")
BodyDisplay(b) == IF ~Present(b) THEN <<>> ELSE LET t == BodyText(b) IN IF t[1] THEN t[2] ELSE BytesText(b[2], 32)
WithCt(b, c) == IF Present(b) THEN <<"present", b[2], c, b[4]>> ELSE b
WithCtIfNotSet(b, c) == IF Present(b) /\ ~IsSome(b[3]) THEN <<"present", b[2], c, b[4]>> ELSE b
ShowBody(b) == IF b[1] = "missing" THEN S("Missing") ELSE IF b[1] = "empty" THEN S("Empty") ELSE IF b[1] = "null" THEN S("Null")
               ELSE S("Present(") \o IntStr(Len(b[2])) \o S(" bytes") \o (IF IsSome(b[3]) THEN S(", ") \o ShowCt(b[3][2]) ELSE <<>>) \o S(")")

(* the content type of a part: of its body, else of its header, else detected *)
Declared(text) == IF text[1] THEN ParseCt(text[2]) ELSE CtNone
PartCt(body, declared, detected) ==
  IF IsSome(BodyCt(body)) THEN BodyCt(body)
  ELSE IF IsSome(declared) THEN declared
  ELSE IF Present(body) THEN detected ELSE CtNone
=============================================================================
