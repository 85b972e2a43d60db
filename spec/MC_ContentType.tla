--------------------------- MODULE MC_ContentType --------------------------
(* Content types and contents typed fragment by fragment.                    *)
EXTENDS ContentType, Json
CONSTANTS MaxCt, MaxText
CtFrags == {S("a"), S("B"), S("json"), S("application"), S("text"), S("/"), S("+"), S("xml"), S(";"), S(" "), S("charset"), S("="), S("UTF-8"), <<34>>, S(","), <<233>>, S("\\")}
TextFrags == {S(" "), <<10>>, S("<"), S("?xml"), S("version"), S("!doctype"), S("html"), S(">"), S("a"), S("{"), S("}"), <<34>>, S("["), S("true"), S("1"), <<233>>, S("-")}
VARIABLES s, n, kind
vars == <<s, n, kind>>
Init == s = <<>> /\ n = 0 /\ kind \in {"ct", "text"}
Completions == {<<>>, S("a"), S("/a"), S("=a"), S("a=a"), S("a\"")}
Viable == \E c \in Completions : ParseCt(s \o c) # CtErr
TypeCt == kind = "ct" /\ n < MaxCt /\ Viable /\ \E f \in CtFrags : s' = s \o f
TypeText == kind = "text" /\ n < MaxText /\ \E f \in TextFrags : s' = s \o f
Next == (TypeCt \/ TypeText) /\ n' = n + 1 /\ UNCHANGED kind
(* what is read prints to a text that is read the same *)
Back == (kind = "ct" /\ IsSome(ParseCt(s))) => LET c == ParseCt(s)[2] IN
          /\ ParseCt(ShowCt(c)) = CtSome(c)
          /\ EquivCt(c, c) /\ EquivCt(<<c[1], c[2], c[3], <<>>>>, c)
          /\ IsTextCt(c) # IsBinaryCt(c)
          /\ ((IsJsonCt(c) \/ IsXmlCt(c)) => IsTextCt(c))
          /\ BaseCt(BaseCt(c)) = BaseCt(c)
(* type, subtype, suffix and names of attributes do not depend on case, nor on blanks before attributes *)
Caseless == (kind = "ct" /\ IsSome(ParseCt(s))) => LET c == ParseCt(s)[2]  d == ParseCt(Upper(s)) IN
          /\ IsSome(d) /\ SubSeq(d[2], 1, 3) = SubSeq(c, 1, 3) /\ [i \in DOMAIN c[4] |-> c[4][i][1]] = [i \in DOMAIN d[2][4] |-> d[2][4][i][1]]
(* white space before the content does not matter, and few bytes are read like the text *)
Detects == kind = "text" => /\ DetectText(<<32, 9, 10>> \o s) = DetectText(s)
                            /\ (Len(Utf8(s)) <= 32 => DetectBytes(Utf8(s)) = CtSome(DetectText(s)))
                            /\ \A k \in 0..3 : LET long == S("                           1234") \o s IN    \* 31 bytes, and the text cut anywhere
                                 k <= Len(long) => IsSome(DetectBytes(Utf8(From(long, k + 1))))
Emit == PrintT("VEC " \o ToJson([kind |-> kind, s |-> s']))
=============================================================================
