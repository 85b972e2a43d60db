---------------------------- MODULE DatePattern --------------------------
(* Patterns for dates and times: how a pattern is read, which texts have    *)
(* the form of a pattern, and which texts an instant is formatted as.       *)
(* An instant: [y, m, d, sec (of the day), nanos, off (seconds of offset)]  *)
EXTENDS Lib, Civil
NotAPattern == <<<<"bad">>>>
IsBad(ts) == Len(ts) = 1 /\ ts[1][1] = "bad"
Known(c) == c \in Range(S("GyYuMLDdQqwWFEecahHkKmsSnANxXZOzV"))
Most(c) ==
  LET is(t) == \E i \in DOMAIN S(t) : S(t)[i] = c IN
  CASE is("ac") -> 1
    [] is("hHkKmsdwWFqV") -> 2
    [] is("Oz") -> 4
    [] is("yYuDSnAN") -> 1000000
    [] OTHER -> 5
RECURSIVE RunEnd(_, _, _)
RunEnd(s, c, i) == IF i <= Len(s) /\ s[i] = c THEN RunEnd(s, c, i + 1) ELSE i
Plain(c) == ~IsAlnum(c) /\ c \notin {39, 123, 125, 91, 93}
RECURSIVE PlainEnd(_, _)
PlainEnd(s, i) == IF i <= Len(s) /\ Plain(s[i]) THEN PlainEnd(s, i + 1) ELSE i
(* the text from i (after an opening quote): <<end, text>>, end = 0 when it is not closed *)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) ==
  IF i > Len(s) THEN <<0, acc>>
  ELSE IF s[i] # 39 THEN Quoted(s, i + 1, Append(acc, s[i]))
  ELSE IF i < Len(s) /\ s[i + 1] = 39 THEN Quoted(s, i + 2, Append(acc, 39))
  ELSE <<i + 1, acc>>
RECURSIVE ReadFrom(_, _, _)
ReadFrom(s, i, acc) ==
  IF i > Len(s) THEN IF acc = <<>> THEN NotAPattern ELSE acc
  ELSE IF s[i] = 39 THEN
    LET q == Quoted(s, i + 1, <<>>) IN
    IF i < Len(s) /\ s[i + 1] = 39 /\ (q[1] = 0 \/ RunEnd(s, 39, i) = i + 2) THEN ReadFrom(s, i + 2, Append(acc, <<"text", <<39>>>>))
    ELSE IF q[1] = 0 \/ q[2] = <<>> THEN NotAPattern
    ELSE ReadFrom(s, q[1], Append(acc, <<"text", q[2]>>))
  ELSE IF IsAlpha(s[i]) THEN
    LET e == RunEnd(s, s[i], i) IN
    IF ~Known(s[i]) \/ e - i > Most(s[i]) THEN NotAPattern
    ELSE ReadFrom(s, e, Append(acc, <<"field", s[i], e - i>>))
  ELSE IF Plain(s[i]) THEN LET e == PlainEnd(s, i) IN ReadFrom(s, e, Append(acc, <<"text", SubSeq(s, i, e - 1)>>))
  ELSE NotAPattern
Read(s) == ReadFrom(s, 1, <<>>)

(* ---- the texts of a field: alternatives (longest first) of sequences of atoms ---- *)
Months == [i \in 1..12 |-> S(<<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>[i])]
Short(t) == SubSeq(t, 1, 3)
DayNames == [i \in 1..7 |-> S(<<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>[i])]
Num(max, lo, hi) == <<"num", max, lo, hi>>
Digits(max) == <<"digits", max>>
AnyCase(ts) == <<"any", {Lower(t) : t \in ts}>>
Exact(ts) == <<"exact", ts>>
Sign == Exact({<<43>>, <<45>>})
Colon == Exact({<<58>>})
Zone == Exact({S("GMT"), S("UTC")})
OH == Num(2, 0, 18)
Min == Num(2, 0, 59)
Sec == Num(2, 0, 60)
ZoneIds == {S("UTC"), S("Europe/Warsaw"), S("America/Los_Angeles"), S("Etc/GMT+5"), S("GMT"), S("Asia/Ho_Chi_Minh"), S("America/Port-au-Prince")}
ZoneNames == {S("PDT"), S("AEST"), S("EST"), S("GMT"), S("CET")}
Offset(n) == CASE n = 1 -> <<<<Sign, OH, Min>>, <<Sign, OH>>>>
               [] n = 2 -> <<<<Sign, OH, Min>>>>
               [] n = 3 -> <<<<Sign, OH, Colon, Min>>>>
               [] n = 4 -> <<<<Sign, OH, Min, Sec>>, <<Sign, OH, Min>>>>
               [] OTHER -> <<<<Sign, OH, Colon, Min, Colon, Sec>>, <<Sign, OH, Colon, Min>>>>
Zulu == <<<<Exact({<<90>>})>>>>
Names(ts) == <<<<AnyCase(Range(ts))>>>>
ShortNames(ts) == <<<<AnyCase({Short(ts[i]) : i \in DOMAIN ts})>>>>
One(a) == <<<<a>>>>
Ch(c) == SubSeq(ASCII, c - 31, c - 31)
Alts(tok) ==
  IF tok[1] = "text" THEN IF tok[2] = <<>> THEN <<<<>>>> ELSE One(Exact({tok[2]}))
  ELSE LET c == Ch(tok[2])
           n == tok[3] IN
  CASE c = "G" -> One(AnyCase({S("AD"), S("BC")}))
    [] c \in {"y", "Y", "u"} -> One(Digits(IF n = 2 THEN 2 ELSE Max2(n, 4)))
    [] c = "M" -> IF n <= 2 THEN One(Num(2, 1, 12)) ELSE IF n = 3 THEN ShortNames(Months) ELSE Names(Months)
    [] c = "L" -> One(Num(2, 1, 12))
    [] c = "D" -> One(Num(3, 1, 366))
    [] c = "d" -> One(Num(2, 1, 31))
    [] c = "Q" -> IF n < 3 THEN One(Num(2, 1, 4)) ELSE IF n = 3 THEN One(AnyCase({S("Q1"), S("Q2"), S("Q3"), S("Q4")}))
                  ELSE One(AnyCase({S("1st quarter"), S("2nd quarter"), S("3rd quarter"), S("4th quarter")}))
    [] c = "q" -> One(Num(2, 1, 4))
    [] c = "w" -> One(Num(2, 1, 56))
    [] c = "W" -> One(Num(2, 1, 5))
    [] c = "F" -> One(Num(2, 0, 4))
    [] c = "E" -> IF n <= 3 THEN ShortNames(DayNames) ELSE Names(DayNames)
    [] c \in {"e", "c"} -> IF n <= 2 THEN One(Num(1, 1, 7)) ELSE IF n = 3 THEN ShortNames(DayNames) ELSE Names(DayNames)
    [] c = "a" -> One(AnyCase({S("AM"), S("PM")}))
    [] c = "h" -> One(Num(2, 1, 12))
    [] c = "H" -> One(Num(2, 0, 23))
    [] c = "k" -> One(Num(2, 1, 24))
    [] c = "K" -> One(Num(2, 0, 11))
    [] c = "m" -> One(Min)
    [] c = "s" -> One(Sec)
    [] c = "S" -> One(Digits(n))
    [] c \in {"n", "A", "N"} -> One(Digits(1000))
    [] c = "x" -> Offset(n)
    [] c = "X" -> Zulu \o Offset(n)
    [] c = "Z" -> IF n <= 3 THEN Offset(2) ELSE IF n = 4 THEN <<<<Zone, Sign, OH, Colon, Min>>, <<Zone>>>> ELSE Offset(3)
    [] c = "O" -> IF n <= 3 THEN <<<<Zone, Sign, OH, Colon, Min>>, <<Zone, Sign, OH>>>> ELSE <<<<Zone, Sign, OH, Colon, Min>>>>
    [] c = "z" -> IF n <= 3 THEN One(Exact(ZoneNames)) ELSE <<>>
    [] OTHER -> One(Exact(ZoneIds)) \o Zulu \o Offset(3)
RECURSIVE DigitRun(_, _)
DigitRun(v, i) == IF i <= Len(v) /\ IsDigit(v[i]) THEN 1 + DigitRun(v, i + 1) ELSE 0
ValueIn(v, i, j, lo, hi) == LET x == NatOf(SubSeq(v, i, j - 1)) IN x >= lo /\ x <= hi
AtomEnds(a, v, i) ==
  CASE a[1] = "num" -> LET r == Min2(a[2], DigitRun(v, i)) IN {j \in i + 1..i + r : ValueIn(v, i, j, a[3], a[4])}
    [] a[1] = "digits" -> i + 1..i + Min2(a[2], DigitRun(v, i))
    [] a[1] = "any" -> {i + Len(t) : t \in {x \in a[2] : i + Len(x) - 1 <= Len(v) /\ Lower(SubSeq(v, i, i + Len(x) - 1)) = x}}
    [] OTHER -> {i + Len(t) : t \in {x \in a[2] : i + Len(x) - 1 <= Len(v) /\ SubSeq(v, i, i + Len(x) - 1) = x}}
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
(* taking as many characters as possible; 0 if there is no match *)
AtomGreedy(a, v, i) ==
  CASE a[1] = "num" -> LET r == Min2(a[2], DigitRun(v, i)) IN IF r > 0 /\ ValueIn(v, i, i + r, a[3], a[4]) THEN i + r ELSE 0
    [] a[1] = "digits" -> LET r == Min2(a[2], DigitRun(v, i)) IN IF r > 0 THEN i + r ELSE 0
    [] OTHER -> LET e == AtomEnds(a, v, i) IN IF e = {} THEN 0 ELSE MaxOf(e)
RECURSIVE SeqEnds(_, _, _)
SeqEnds(as, v, is) == IF as = <<>> THEN is ELSE SeqEnds(Tail(as), v, UNION {AtomEnds(Head(as), v, i) : i \in is})
RECURSIVE SeqGreedy(_, _, _)
SeqGreedy(as, v, i) == IF as = <<>> \/ i = 0 THEN i ELSE SeqGreedy(Tail(as), v, AtomGreedy(Head(as), v, i))
TokEnds(tok, v, is) == LET al == Alts(tok) IN UNION {SeqEnds(al[k], v, is) : k \in DOMAIN al}
RECURSIVE FirstGreedy(_, _, _)
FirstGreedy(al, v, i) == IF al = <<>> THEN 0
  ELSE LET j == SeqGreedy(Head(al), v, i) IN IF j # 0 THEN j ELSE FirstGreedy(Tail(al), v, i)
RECURSIVE MatchEnds(_, _, _)
MatchEnds(ts, v, is) == IF ts = <<>> THEN is ELSE MatchEnds(Tail(ts), v, TokEnds(Head(ts), v, is))
HasForm(ts, v) == Len(v) + 1 \in MatchEnds(ts, v, {1})
(* the texts of the fields, or <<>> *)
RECURSIVE GreedyFrom(_, _, _, _)
GreedyFrom(ts, v, i, acc) ==
  IF ts = <<>> THEN IF i = Len(v) + 1 THEN acc ELSE <<>>
  ELSE LET j == FirstGreedy(Alts(Head(ts)), v, i) IN
       IF j = 0 THEN <<>> ELSE GreedyFrom(Tail(ts), v, j, Append(acc, <<Head(ts), SubSeq(v, i, j - 1)>>))
Greedy(ts, v) == GreedyFrom(ts, v, 1, <<>>)
(* the day must be in the month, in the year if there is one *)
FieldsOf(m, cs) == {i \in DOMAIN m : m[i][1][1] = "field" /\ Ch(m[i][1][2]) \in cs}
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
MonthOf(t) == IF AllDigits(t) THEN NatOf(t) ELSE CHOOSE k \in 1..12 : Lower(Short(Months[k])) = Lower(Short(t))
LastFour(t) == IF Len(t) > 4 THEN SubSeq(t, Len(t) - 3, Len(t)) ELSE t
DateOK(m) ==
  LET ds == FieldsOf(m, {"d"})
      ms == FieldsOf(m, {"M", "L"})
      ys == FieldsOf(m, {"y", "Y", "u"}) IN
  IF ds = {} \/ ms = {} THEN TRUE
  ELSE LET y == IF ys = {} THEN 2000 ELSE NatOf(LastFour(m[MinOf(ys)][2])) IN
       NatOf(m[MinOf(ds)][2]) <= MonthLen(y, MonthOf(m[MinOf(ms)][2]))
MustAccept(ts, v) == LET m == Greedy(ts, v) IN m # <<>> /\ DateOK(m)
MustReject(ts, v) == ~HasForm(ts, v) \/ LET m == Greedy(ts, v) IN m # <<>> /\ ~DateOK(m)

(* ---- the texts an instant may be formatted as, one set per token ---- *)
RECURSIVE Pad(_, _)
Pad(t, n) == IF Len(t) >= n THEN t ELSE Pad(<<48>> \o t, n)
Padded(x, max) == {Pad(IntStr(x), n) : n \in 1..max}
TwoDigits(n) == Pad(IntStr(n), 2)
Unpad(t) == IF Len(t) > 1 /\ t[1] = 48 THEN SubSeq(t, 2, Len(t)) ELSE t
RECURSIVE UnpadAll(_)
UnpadAll(t) == IF Len(t) > 1 /\ t[1] = 48 THEN UnpadAll(Tail(t)) ELSE t
Fraction(x, n) == LET t == Pad(IntStr(x.nanos), 9) IN IF n <= 9 THEN SubSeq(t, 1, n) ELSE t \o [k \in 1..n - 9 |-> 48]
IsoWeek(x) == LET z == DayNum(x.y, x.m, x.d)
                  thursday == z - WeekDay(z) + 3 IN (DayOfYear(thursday) - 1) \div 7 + 1
SundayWeek(x) == LET z == DayNum(x.y, x.m, x.d) IN (DayOfYear(z) - 1 + 7 - ((WeekDay(z) + 1) % 7)) \div 7
Quarter(x) == (x.m - 1) \div 3 + 1
Abs(n) == IF n < 0 THEN 0 - n ELSE n
OffSign(x) == IF x.off < 0 THEN <<45>> ELSE <<43>>
OffH(x) == Abs(x.off) \div 3600
OffM(x) == (Abs(x.off) \div 60) % 60
Compact(x) == OffSign(x) \o TwoDigits(OffH(x)) \o TwoDigits(OffM(x))
Extended(x) == OffSign(x) \o TwoDigits(OffH(x)) \o <<58>> \o TwoDigits(OffM(x))
OffTexts(x, n) == CASE n = 1 -> {Compact(x)} \cup (IF OffM(x) = 0 THEN {OffSign(x) \o TwoDigits(OffH(x))} ELSE {})
                    [] n = 2 \/ n = 4 -> {Compact(x)}
                    [] OTHER -> {Extended(x)}
Z0(x) == IF x.off = 0 THEN {<<90>>} ELSE {}
Prefixed(ts) == {S("GMT") \o t : t \in ts} \cup {S("UTC") \o t : t \in ts}
Texts(tok, x) ==
  IF tok[1] = "text" THEN {tok[2]}
  ELSE LET c == Ch(tok[2])
           n == tok[3]
           hour == x.sec \div 3600
           wd == WeekDay(DayNum(x.y, x.m, x.d)) + 1 IN
  CASE c = "G" -> {S("AD")}
    [] c \in {"y", "Y", "u"} -> IF n = 2 THEN {TwoDigits(x.y % 100)} ELSE {Pad(IntStr(x.y), 4), Pad(IntStr(x.y), n)}
    [] c = "M" -> IF n <= 2 THEN Padded(x.m, 2) ELSE {IF n = 3 THEN Short(Months[x.m]) ELSE Months[x.m]}
    [] c = "L" -> Padded(x.m, 2)
    [] c = "D" -> Padded(DayOfYear(DayNum(x.y, x.m, x.d)), 3)
    [] c = "d" -> Padded(x.d, 2)
    [] c = "Q" -> IF n < 3 THEN Padded(Quarter(x), 2) ELSE IF n = 3 THEN {S("Q") \o IntStr(Quarter(x))}
                  ELSE {S(<<"1st quarter", "2nd quarter", "3rd quarter", "4th quarter">>[Quarter(x)])}
    [] c = "q" -> Padded(Quarter(x), 2)
    [] c = "w" -> Padded(IsoWeek(x), 2) \cup (IF SundayWeek(x) > 0 THEN Padded(SundayWeek(x), 2) ELSE {})
    [] c = "W" -> Padded((x.d - 1) \div 7 + 1, 2)
    [] c = "F" -> Padded((x.d - 1) \div 7, 2)
    [] c = "E" -> {IF n <= 3 THEN Short(DayNames[wd]) ELSE DayNames[wd]}
    [] c \in {"e", "c"} -> {IF n <= 2 THEN IntStr(wd) ELSE IF n = 3 THEN Short(DayNames[wd]) ELSE DayNames[wd]}
    [] c = "a" -> IF hour < 12 THEN {S("AM"), S("am")} ELSE {S("PM"), S("pm")}
    [] c = "h" -> Padded(((hour + 11) % 12) + 1, 2)
    [] c = "H" -> Padded(hour, 2)
    [] c = "k" -> Padded(((hour + 23) % 24) + 1, 2)
    [] c = "K" -> Padded(hour % 12, 2)
    [] c = "m" -> Padded((x.sec \div 60) % 60, 2)
    [] c = "s" -> Padded(x.sec % 60, 2)
    [] c = "S" -> {Fraction(x, n)}
    [] c = "n" -> {IntStr(x.nanos), Pad(IntStr(x.nanos), 9)}
    [] c = "A" -> {IntStr(x.sec * 1000 + x.nanos \div 1000000)}
    [] c = "N" -> {UnpadAll(IntStr(x.sec) \o Pad(IntStr(x.nanos), 9))}
    [] c = "x" -> OffTexts(x, n)
    [] c = "X" -> OffTexts(x, n) \cup Z0(x)
    [] c = "Z" -> IF n <= 3 THEN {Compact(x)} ELSE IF n = 4 THEN Prefixed({Extended(x)}) \cup (IF x.off = 0 THEN {S("GMT"), S("UTC")} ELSE {}) ELSE {Extended(x)}
    [] c = "O" -> Prefixed({Extended(x)} \cup (IF n <= 3 /\ OffM(x) = 0 THEN {OffSign(x) \o IntStr(OffH(x)), OffSign(x) \o TwoDigits(OffH(x))} ELSE {})
                           \cup (IF n <= 3 THEN {OffSign(x) \o IntStr(OffH(x)) \o <<58>> \o TwoDigits(OffM(x))} ELSE {}))
    [] c = "V" -> {Extended(x)} \cup Z0(x)
    [] OTHER -> {}
RECURSIVE Prints(_, _, _, _)
Prints(ts, x, v, is) ==
  IF ts = <<>> THEN Len(v) + 1 \in is
  ELSE Prints(Tail(ts), x, v, UNION {{i + Len(t) : t \in {q \in Texts(Head(ts), x) : i + Len(q) - 1 <= Len(v) /\ SubSeq(v, i, i + Len(q) - 1) = q}} : i \in is})
PrintsAs(ts, x, v) == Prints(ts, x, v, {1})
=============================================================================
