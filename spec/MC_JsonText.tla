---------------------------- MODULE MC_JsonText ----------------------------
(* what is written is read again; base64 as well.  ParseJson accepts no     *)
(* text with a different meaning: printing a parsed text and parsing it     *)
(* once more is the identity.                                               *)
EXTENDS JsonText
CONSTANTS Chars, Depth, MaxText, Bytes
VARIABLES kind, x
Scalars == {JNull, JBool(TRUE), JInt(0), JInt(0 - 12), <<"f", <<49, 46, 53>>>>} \cup {JStr(<<c>>) : c \in Chars} \cup {JStr(<<>>)}
RECURSIVE Values(_)
Values(d) == IF d = 0 THEN Scalars
             ELSE Scalars \cup {JArr(<<>>), JObj(<<>>)} \cup {JArr(<<v>>) : v \in Values(d - 1)} \cup {JArr(<<JInt(1), v>>) : v \in Values(d - 1)}
                  \cup {JObj(<<<<<<c>>, v>>>>) : c \in Chars, v \in Values(d - 1)}
TextChars == {34, 92, 123, 125, 91, 93, 44, 58, 49, 48, 45, 46, 110, 32, 61}
Texts == UNION {[1..n -> TextChars] : n \in 0..MaxText}
BytesUpTo3 == UNION {[1..n -> Bytes] : n \in 0..4}
Init == \/ kind = "value" /\ x \in Values(Depth)
        \/ kind = "text" /\ x \in Texts
        \/ kind = "bytes" /\ x \in BytesUpTo3
Next == UNCHANGED <<kind, x>>
WrittenIsRead == kind = "value" => ParseJson(PrintJson(x)) = <<"ok", x>> /\ ParseBytes(Utf8(PrintJson(x))) = <<"ok", x>>
ReadIsWritten == kind = "text" => LET r == ParseJson(x) IN r[1] = "ok" => ParseJson(PrintJson(r[2])) = r
Base64Back == kind = "bytes" => IsBase64(Base64(x)) /\ FromBase64(Base64(x)) = x
Base64Only == kind = "text" => (IsBase64(x) => Base64(FromBase64(x)) = x)
=============================================================================
