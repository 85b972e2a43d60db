------------------------------ MODULE JsonText -----------------------------
(* JSON text (RFC 8259) and base64 (RFC 4648), on the tagged JSON values of *)
(* Lib.  Numbers that have more than one text (exponents, minus zero, more  *)
(* digits than every reader keeps) are vague: the result does not say which *)
(* value they stand for.                                                    *)
EXTENDS Utf8

(* ---------------- written ---------------- *)
Hex4(n) == <<HexDigit(n \div 4096), HexDigit((n \div 256) % 16), HexDigit((n \div 16) % 16), HexDigit(n % 16)>>
EscChar(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>>
                [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
                [] c < 32 -> <<92, 117>> \o Hex4(c) [] OTHER -> <<c>>
RECURSIVE EscFrom(_, _)
EscFrom(s, i) == IF i > Len(s) THEN <<>> ELSE EscChar(s[i]) \o EscFrom(s, i + 1)
Quote(s) == <<34>> \o EscFrom(s, 1) \o <<34>>
RECURSIVE PrintJson(_)
PrintJson(v) ==
  CASE v[1] = "n" -> <<110, 117, 108, 108>>
    [] v[1] = "b" -> IF v[2] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] v[1] = "i" -> IntStr(v[2])
    [] v[1] = "f" -> v[2]
    [] v[1] = "s" -> Quote(v[2])
    [] v[1] = "a" -> <<91>> \o JoinWith([i \in DOMAIN v[2] |-> PrintJson(v[2][i])], <<44>>) \o <<93>>
    [] OTHER -> <<123>> \o JoinWith([i \in DOMAIN v[2] |-> Quote(v[2][i][1]) \o <<58>> \o PrintJson(v[2][i][2])], <<44>>) \o <<125>>

(* ---------------- read: <<"ok", value, next>>, <<"no">>, <<"vague">> ---------------- *)
No == <<"no">>
VagueJ == <<"vague">>
IsWs(c) == c \in {9, 10, 13, 32}
RECURSIVE Ws(_, _)
Ws(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN Ws(s, i + 1) ELSE i
RECURSIVE DigitEnd(_, _)
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i
C(s, i) == IF i <= Len(s) THEN s[i] ELSE 0-1
HexAt(s, i) == IF i + 3 > Len(s) THEN 0-1
               ELSE IF \E k \in i..i + 3 : HexVal(s[k]) < 0 THEN 0-1
               ELSE HexVal(s[i]) * 4096 + HexVal(s[i+1]) * 256 + HexVal(s[i+2]) * 16 + HexVal(s[i+3])
Unesc(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 0-1
RECURSIVE PStr(_, _, _)
PStr(s, i, acc) ==
  IF i > Len(s) THEN No
  ELSE IF s[i] = 34 THEN <<"ok", acc, i + 1>>
  ELSE IF s[i] < 32 THEN No
  ELSE IF s[i] # 92 THEN PStr(s, i + 1, Append(acc, s[i]))
  ELSE IF C(s, i + 1) # 117 THEN (IF Unesc(C(s, i + 1)) < 0 THEN No ELSE PStr(s, i + 2, Append(acc, Unesc(s[i + 1]))))
  ELSE LET h == HexAt(s, i + 2)
           lo == IF C(s, i + 6) = 92 /\ C(s, i + 7) = 117 THEN HexAt(s, i + 8) ELSE 0-1
       IN IF h < 0 THEN No
          ELSE IF h >= 56320 /\ h < 57344 THEN No
          ELSE IF h < 55296 \/ h >= 57344 THEN PStr(s, i + 6, Append(acc, h))
          ELSE IF lo >= 56320 /\ lo < 57344 THEN PStr(s, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + lo - 56320))
          ELSE No
Lit(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
UpTo(d, m) == Len(d) < Len(m) \/ (Len(d) = Len(m) /\ Cmp(d, m) <= 0)
PNum(s, i) ==
  LET neg == s[i] = 45
      a == IF neg THEN i + 1 ELSE i
      e == DigitEnd(s, a)
      digits == SubSeq(s, a, e - 1)
      fe == DigitEnd(s, e + 1)
      frac == SubSeq(s, e + 1, fe - 1)
  IN IF e = a \/ (e > a + 1 /\ s[a] = 48) THEN No
     ELSE IF C(s, e) = 46 THEN
       IF fe = e + 1 THEN No
       ELSE IF C(s, fe) \in {69, 101} THEN VagueJ
       ELSE IF Len(digits) + Len(frac) > 15 THEN VagueJ
       ELSE IF (Len(frac) > 1 /\ frac[Len(frac)] = 48) \/ (digits = <<48>> /\ (StartsWith(frac, <<48, 48, 48, 48>>) \/ (neg /\ \A k \in DOMAIN frac : frac[k] = 48))) THEN VagueJ
       ELSE <<"ok", <<"f", SubSeq(s, i, fe - 1)>>, fe>>
     ELSE IF C(s, e) \in {69, 101} THEN VagueJ
     ELSE IF neg /\ digits = <<48>> THEN VagueJ
     ELSE IF UpTo(digits, S("2147483647")) THEN <<"ok", JInt(IF neg THEN 0 - NatOf(digits) ELSE NatOf(digits)), e>>
     ELSE IF neg /\ digits = S("2147483648") THEN <<"ok", JInt(0 - 2147483647 - 1), e>>
     ELSE IF ~UpTo(digits, IF neg THEN S("9223372036854775808") ELSE S("18446744073709551615")) THEN VagueJ
     ELSE <<"ok", <<"f", SubSeq(s, i, e - 1)>>, e>>
RECURSIVE PVal(_, _), PArr(_, _, _), PObj(_, _, _)
PVal(s, i0) ==
  LET i == Ws(s, i0) IN
  CASE C(s, i) = 123 -> (LET j == Ws(s, i + 1) IN IF C(s, j) = 125 THEN <<"ok", JObj(<<>>), j + 1>> ELSE PObj(s, j, <<>>))
    [] C(s, i) = 91 -> (LET j == Ws(s, i + 1) IN IF C(s, j) = 93 THEN <<"ok", JArr(<<>>), j + 1>> ELSE PArr(s, j, <<>>))
    [] C(s, i) = 34 -> (LET r == PStr(s, i + 1, <<>>) IN IF r[1] = "ok" THEN <<"ok", JStr(r[2]), r[3]>> ELSE r)
    [] C(s, i) = 110 -> IF Lit(s, i, <<110, 117, 108, 108>>) THEN <<"ok", JNull, i + 4>> ELSE No
    [] C(s, i) = 116 -> IF Lit(s, i, <<116, 114, 117, 101>>) THEN <<"ok", JBool(TRUE), i + 4>> ELSE No
    [] C(s, i) = 102 -> IF Lit(s, i, <<102, 97, 108, 115, 101>>) THEN <<"ok", JBool(FALSE), i + 5>> ELSE No
    [] C(s, i) = 45 \/ IsDigit(C(s, i)) -> PNum(s, i)
    [] OTHER -> No
PArr(s, i, acc) ==
  LET r == PVal(s, i) IN
  IF r[1] # "ok" THEN r
  ELSE LET j == Ws(s, r[3]) IN
       IF C(s, j) = 44 THEN PArr(s, j + 1, Append(acc, r[2]))
       ELSE IF C(s, j) = 93 THEN <<"ok", JArr(Append(acc, r[2])), j + 1>> ELSE No
PObj(s, i0, acc) ==
  LET i == Ws(s, i0) IN
  IF C(s, i) # 34 THEN No
  ELSE LET k == PStr(s, i + 1, <<>>) IN
       IF k[1] # "ok" THEN k
       ELSE LET c == Ws(s, k[3]) IN
            IF C(s, c) # 58 THEN No
            ELSE LET r == PVal(s, c + 1) IN
                 IF r[1] # "ok" THEN r
                 ELSE LET j == Ws(s, r[3])
                          acc2 == JIns(acc, k[2], r[2])                  \* the last of two members with one name counts
                      IN IF C(s, j) = 44 THEN PObj(s, j + 1, acc2)
                         ELSE IF C(s, j) = 125 THEN <<"ok", JObj(acc2), j + 1>> ELSE No
(* a vague number and an error later on: still an error, so vague covers both *)
ParseJson(s) == LET r == PVal(s, 1) IN
  IF r[1] # "ok" THEN r ELSE IF Ws(s, r[3]) > Len(s) THEN <<"ok", r[2]>> ELSE No
ParseBytes(b) == LET t == FromUtf8(b) IN IF t[1] THEN ParseJson(t[2]) ELSE No

(* ---------------- base64 ---------------- *)
B64Char(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64Val(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 0-1
RECURSIVE B64Enc(_, _)
B64Enc(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE IF i = Len(b) THEN <<B64Char(b[i] \div 4), B64Char((b[i] % 4) * 16), 61, 61>>
  ELSE IF i + 1 = Len(b) THEN <<B64Char(b[i] \div 4), B64Char((b[i] % 4) * 16 + b[i+1] \div 16), B64Char((b[i+1] % 16) * 4), 61>>
  ELSE <<B64Char(b[i] \div 4), B64Char((b[i] % 4) * 16 + b[i+1] \div 16), B64Char((b[i+1] % 16) * 4 + b[i+2] \div 64), B64Char(b[i+2] % 64)>> \o B64Enc(b, i + 3)
Base64(b) == B64Enc(b, 1)
RECURSIVE B64Dec(_, _)
B64Dec(s, i) ==
  LET v(k) == B64Val(s[k]) IN
  IF i > Len(s) THEN <<>>
  ELSE IF i + 3 = Len(s) /\ s[i+2] = 61 THEN <<v(i) * 4 + v(i+1) \div 16>>
  ELSE IF i + 3 = Len(s) /\ s[i+3] = 61 THEN <<v(i) * 4 + v(i+1) \div 16, (v(i+1) % 16) * 16 + v(i+2) \div 4>>
  ELSE <<v(i) * 4 + v(i+1) \div 16, (v(i+1) % 16) * 16 + v(i+2) \div 4, (v(i+2) % 4) * 64 + v(i+3)>> \o B64Dec(s, i + 4)
(* padding as written: "=" only in the last places, unused bits zero *)
IsBase64(s) ==
  LET n == Len(s)
      pad == IF n = 0 THEN 0 ELSE IF s[n] # 61 THEN 0 ELSE IF s[n-1] # 61 THEN 1 ELSE 2
  IN /\ n % 4 = 0
     /\ \A i \in 1..n - pad : B64Val(s[i]) >= 0
     /\ (pad = 1 => B64Val(s[n-1]) % 4 = 0)
     /\ (pad = 2 => B64Val(s[n-2]) % 16 = 0)
FromBase64(s) == B64Dec(s, 1)
=============================================================================
