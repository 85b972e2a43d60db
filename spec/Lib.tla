------------------------------- MODULE Lib -------------------------------
(* Strings are sequences of Unicode code points, so that TLC can look into   *)
(* them and order them; S("abc") is the literal for printable ASCII.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdOf == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c]
S(s) == [i \in 1..Len(s) |-> OrdOf[SubSeq(s, i, i)]]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in DOMAIN s}

(* lexicographic order of two sequences of integers: -1, 0, 1 *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE 0-1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN 0-1
  ELSE IF a[i] > b[i] THEN 1
  ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)

RECURSIVE CmpSeqFrom(_, _, _)
CmpSeqFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE 0-1)
  ELSE IF i > Len(b) THEN 1
  ELSE LET c == Cmp(a[i], b[i]) IN IF c # 0 THEN c ELSE CmpSeqFrom(a, b, i + 1)
CmpSeq(a, b) == CmpSeqFrom(a, b, 1)   \* sequences of strings

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> ToLower(s[i])]
Upper(s) == [i \in 1..Len(s) |-> ToUpper(s[i])]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))

(* index of the first c in s at or after i, 0 if none *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexFrom(s, c, i + 1)

RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
ContainsStr(s, p) == FindFrom(s, p, 1) # 0

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = c THEN <<cur>> \o SplitFrom(s, c, i + 1, <<>>)
  ELSE SplitFrom(s, c, i + 1, Append(cur, s[i]))
Split(s, c) == SplitFrom(s, c, 1, <<>>)

IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (c >= 8192 /\ c <= 8202)
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
IntStr(n) == IF n >= 0 THEN DigitsOf(n) ELSE IF n < 0 - 2147483647 THEN S("-2147483648") ELSE <<45>> \o DigitsOf(0 - n)

RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN <<>>
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

CountIn(seq, P(_)) == Cardinality({i \in DOMAIN seq : P(seq[i])})

(* tagged JSON values: <<"n">>, <<"b",0/1>>, <<"i",n>>, <<"f",text>>, <<"s",codes>>,
   <<"a",seq>>, <<"o", seq of <<key, value>> sorted by key>> *)
JNull == <<"n">>
JBool(b) == <<"b", IF b THEN 1 ELSE 0>>
JInt(n) == <<"i", n>>
JStr(s) == <<"s", s>>
JArr(s) == <<"a", s>>
JObj(m) == <<"o", m>>
JHas(o, k) == o[1] = "o" /\ \E i \in DOMAIN o[2] : o[2][i][1] = k
JGet(o, k) == o[2][CHOOSE i \in DOMAIN o[2] : o[2][i][1] = k][2]
JGetOr(o, k, d) == IF JHas(o, k) THEN JGet(o, k) ELSE d

(* insert <<k,v>> into a key-sorted member list, replacing an existing k *)
RECURSIVE JIns(_, _, _)
JIns(ms, k, v) ==
  IF ms = <<>> THEN <<<<k, v>>>>
  ELSE LET c == Cmp(k, Head(ms)[1]) IN
       IF c = 0 THEN <<<<k, v>>>> \o Tail(ms)
       ELSE IF c < 0 THEN <<<<k, v>>>> \o ms
       ELSE <<Head(ms)>> \o JIns(Tail(ms), k, v)
=============================================================================
