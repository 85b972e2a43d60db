----------------------------- MODULE DateExpr -----------------------------
(* Date, time and date-time expressions relative to a base instant          *)
(* [day, ms]: number of the day and milliseconds since midnight.            *)
EXTENDS Lib, Civil
U64Max == S("18446744073709551615")
(* ---- tokens ---- *)
W(texts, tok) == {<<S(texts[i]), tok>> : i \in DOMAIN texts}
DateWords ==
  W(<<"now", "today">>, <<"base", 1, <<48>>>>) \cup W(<<"yesterday">>, <<"base", 0-1, <<49>>>>) \cup W(<<"tomorrow">>, <<"base", 1, <<49>>>>)
  \cup W(<<"+">>, <<"op", 1>>) \cup W(<<"-">>, <<"op", 0-1>>) \cup W(<<"next">>, <<"dir", 1>>) \cup W(<<"last">>, <<"dir", 0-1>>)
  \cup W(<<"day">>, <<"unit", "day", 1>>) \cup W(<<"days">>, <<"units", "day", 1>>)
  \cup W(<<"week">>, <<"unit", "day", 7>>) \cup W(<<"weeks">>, <<"units", "day", 7>>) \cup W(<<"fortnight">>, <<"two", "day", 14>>)
  \cup W(<<"month">>, <<"unit", "month", 1>>) \cup W(<<"months">>, <<"units", "month", 1>>)
  \cup W(<<"year">>, <<"unit", "year", 1>>) \cup W(<<"years">>, <<"units", "year", 1>>)
  \cup W(<<"mon", "monday">>, <<"wd", 0>>) \cup W(<<"tues", "tuesday">>, <<"wd", 1>>) \cup W(<<"wed", "wednesday">>, <<"wd", 2>>)
  \cup W(<<"thurs", "thursday">>, <<"wd", 3>>) \cup W(<<"fri", "friday">>, <<"wd", 4>>) \cup W(<<"sat", "saturday">>, <<"wd", 5>>)
  \cup W(<<"sun", "sunday">>, <<"wd", 6>>)
  \cup W(<<"jan", "january">>, <<"mo", 1>>) \cup W(<<"feb", "february">>, <<"mo", 2>>) \cup W(<<"mar", "march">>, <<"mo", 3>>)
  \cup W(<<"apr", "april">>, <<"mo", 4>>) \cup W(<<"may">>, <<"mo", 5>>) \cup W(<<"jun", "june">>, <<"mo", 6>>)
  \cup W(<<"jul", "july">>, <<"mo", 7>>) \cup W(<<"aug", "august">>, <<"mo", 8>>) \cup W(<<"sep", "september">>, <<"mo", 9>>)
  \cup W(<<"oct", "october">>, <<"mo", 10>>) \cup W(<<"nov", "november">>, <<"mo", 11>>) \cup W(<<"dec", "december">>, <<"mo", 12>>)
TimeWords ==
  W(<<"now">>, <<"base", "now">>) \cup W(<<"midnight">>, <<"base", "at", 0>>) \cup W(<<"noon">>, <<"base", "at", 12>>)
  \cup W(<<"o'clock">>, <<"oclock">>) \cup W(<<"am">>, <<"half", "am">>) \cup W(<<"pm">>, <<"half", "pm">>)
  \cup W(<<"+">>, <<"op", 1>>) \cup W(<<"-">>, <<"op", 0-1>>) \cup W(<<"next">>, <<"dir", 1>>) \cup W(<<"last">>, <<"dir", 0-1>>)
  \cup W(<<"hour", "hours">>, <<"unit", "ms", 3600000>>) \cup W(<<"minute", "minutes">>, <<"unit", "ms", 60000>>)
  \cup W(<<"second", "seconds">>, <<"unit", "ms", 1000>>) \cup W(<<"millisecond", "milliseconds">>, <<"unit", "ms", 1>>)
Index(words) == [c \in {w[1][1] : w \in words} |-> {w \in words : w[1][1] = c}]
DateIndex == Index(DateWords)
TimeIndex == Index(TimeWords)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZ(Tail(s)) ELSE s
Big == 0-9
Small(t) == IF Len(t) > 9 THEN Big ELSE NatOf(t)
(* an integer: its digits, or an error if it has more than 64 bits *)
IntTok(t0) == LET t == StripZ(t0) IN
  IF Len(t) > 20 \/ (Len(t) = 20 /\ Cmp(t, U64Max) > 0) THEN <<"err">>
  ELSE <<"int", t>>
RECURSIVE LexFrom(_, _, _, _)
LexFrom(s, i, words, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in {32, 9, 10, 12} THEN LexFrom(s, i + 1, words, acc)
  ELSE IF IsDigit(s[i]) THEN LET e == DigitsEnd(s, i) IN LexFrom(s, e, words, Append(acc, IntTok(SubSeq(s, i, e - 1))))
  ELSE IF s[i] \notin DOMAIN words THEN Append(acc, <<"err">>)
  ELSE LET m == {w \in words[s[i]] : i + Len(w[1]) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w[1]) - 1) = w[1]} IN
       IF m = {} THEN Append(acc, <<"err">>)
       ELSE LET w == CHOOSE x \in m : \A y \in m : Len(y[1]) <= Len(x[1]) IN
            LexFrom(s, i + Len(w[1]), words, Append(acc, w[2]))
DateLex(s) == LexFrom(s, 1, DateIndex, <<>>)
TimeLex(s) == LexFrom(s, 1, TimeIndex, <<>>)
(* ---- grammar: an expression is a list of steps ---- *)
Bad == <<"bad">>
Is(t, i, kinds) == i <= Len(t) /\ t[i][1] \in kinds
(* ( op int unit )* from the i-th token *)
RECURSIVE Adjust(_, _, _)
Adjust(t, i, acc) ==
  IF i = Len(t) + 1 THEN <<"steps", acc>>
  ELSE IF Is(t, i, {"op"}) /\ Is(t, i + 1, {"int"}) /\ Is(t, i + 2, {"unit", "units"})
       THEN Adjust(t, i + 3, Append(acc, <<t[i][2], t[i + 1][2], Tail(t[i + 2])>>))
       ELSE Bad
ParseDate(t) ==
  CASE Is(t, 1, {"base"}) -> Adjust(t, 2, <<<<t[1][2], t[1][3], <<"day", 1>>>>>>)
    [] Is(t, 1, {"op"}) -> Adjust(t, 1, <<>>)
    [] Is(t, 1, {"dir"}) /\ Is(t, 2, {"unit", "two"}) -> Adjust(t, 3, <<<<t[1][2], <<49>>, Tail(t[2])>>>>)
    [] Is(t, 1, {"dir"}) /\ Is(t, 2, {"wd", "mo"}) -> Adjust(t, 3, <<<<t[1][2], <<49>>, t[2]>>>>)
    [] OTHER -> Bad
ParseTime(t) ==
  CASE Is(t, 1, {"base"}) -> Adjust(t, 2, <<<<1, <<48>>, Tail(t[1])>>>>)
    [] Is(t, 1, {"int"}) /\ Is(t, 2, {"oclock"}) /\ Small(t[1][2]) \in 1..12 ->
         IF Is(t, 3, {"half"}) THEN Adjust(t, 4, <<<<1, <<48>>, <<t[3][2], Small(t[1][2])>>>>>>) ELSE Adjust(t, 3, <<<<1, <<48>>, <<"either", Small(t[1][2])>>>>>>)
    [] Is(t, 1, {"op"}) -> Adjust(t, 1, <<>>)
    [] Is(t, 1, {"dir"}) /\ Is(t, 2, {"unit"}) -> Adjust(t, 3, <<<<t[1][2], <<49>>, Tail(t[2])>>>>)
    [] OTHER -> Bad
(* ---- meaning: the set of instants an expression may give; {} is an error ---- *)
MaxYear == 262000
Limit == 95000000    \* days, inside of the range of years
At(d, b) == [day |-> d, ms |-> b.ms]
InRange(d) == d > 0 - Limit /\ d < Limit
MonthDay(b, y, m, c) ==   \* the same day of another month, or its first or last day
  IF y > MaxYear \/ y < 0 - MaxYear THEN {}
  ELSE IF c.d <= MonthLen(y, m) THEN {At(DayNum(y, m, c.d), b)}
  ELSE {At(DayNum(y, m, 1), b), At(DayNum(y, m, MonthLen(y, m)), b)}
DateStep(b, sign, digits, u) ==
  LET c == Civil(b.day)
      n == Small(digits) IN
  IF u[1] = "wd" THEN LET k == (sign * (u[2] - WeekDay(b.day))) % 7 IN {At(b.day + sign * (IF k = 0 THEN 7 ELSE k), b)}
  ELSE IF u[1] = "mo" THEN
    LET y == IF sign = 1 THEN (IF u[2] > c.m THEN c.y ELSE c.y + 1) ELSE (IF u[2] < c.m THEN c.y ELSE c.y - 1) IN
    {At(DayNum(y, u[2], 1), b)}
  ELSE IF n = Big \/ n > 100000000 THEN {}
  ELSE IF u[1] = "day" THEN LET d == b.day + sign * n * u[2] IN IF InRange(d) THEN {At(d, b)} ELSE {}
  ELSE IF u[1] = "month" THEN LET k == c.y * 12 + c.m - 1 + sign * n IN
    IF n = 0 THEN {b} ELSE MonthDay(b, k \div 12, (k % 12) + 1, c)
  ELSE LET y == c.y + sign * n IN
    IF y > MaxYear \/ y < 0 - MaxYear THEN {}
    ELSE {At(DayNum(y, c.m, Min2(c.d, MonthLen(y, c.m))), b)}
RECURSIVE DateSteps(_, _, _)
DateSteps(bs, steps, i) ==
  IF i > Len(steps) THEN bs
  ELSE DateSteps(UNION {DateStep(b, steps[i][1], steps[i][2], steps[i][3]) : b \in bs}, steps, i + 1)
(* quotient and remainder of a number given by its digits *)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(t, d, i, q, r) ==
  IF i > Len(t) THEN [q |-> Small(StripZ(q)), r |-> r]
  ELSE LET x == r * 10 + t[i] - 48 IN LongDiv(t, d, i + 1, Append(q, 48 + x \div d), x % d)
Move(b, sign, digits, u) ==
  LET x == LongDiv(digits, 86400000 \div u, 1, <<>>, 0)
      ms == b.ms + sign * x.r * u IN
  IF x.q = Big \/ x.q > 2 * Limit THEN {}
  ELSE {[day |-> b.day + sign * x.q + ms \div 86400000, ms |-> ms % 86400000]}
HourAt(b, h) == {[b EXCEPT !.ms = h * 3600000]}
TimeStep(b, sign, n, u) ==
  CASE u[1] = "now" -> {b}
    [] u[1] = "at" -> HourAt(b, u[2])
    [] u[1] = "am" -> HourAt(b, u[2])              \* 12 o'clock am is documented to be noon
    [] u[1] = "pm" -> HourAt(b, 12 + (u[2] % 12))
    [] u[1] = "either" -> IF b.ms < 12 * 3600000 THEN HourAt(b, 12 + (u[2] % 12)) ELSE HourAt(b, u[2])
    [] OTHER -> {x \in Move(b, sign, n, u[2]) : InRange(x.day)}
RECURSIVE TimeSteps(_, _, _)
TimeSteps(bs, steps, i) ==
  IF i > Len(steps) THEN bs ELSE TimeSteps(UNION {TimeStep(b, steps[i][1], steps[i][2], steps[i][3]) : b \in bs}, steps, i + 1)
Blank(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in {32, 9, 10, 12}
DateExp(s, b) == IF s = <<>> THEN {b}
  ELSE LET p == ParseDate(DateLex(s)) IN IF p = Bad THEN {} ELSE DateSteps({b}, p[2], 1)
TimeExp(s, b) == IF s = <<>> THEN {b}
  ELSE LET p == ParseTime(TimeLex(s)) IN IF p = Bad THEN {} ELSE TimeSteps({b}, p[2], 1)
Parts(s) == LET i == IndexFrom(s, 64, 1) IN
  IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1), From(s, i + 1)>>
DateTimeExp(s, b) == LET p == Parts(s) IN
  IF Len(p) = 1 THEN DateExp(s, b) ELSE UNION {TimeExp(p[2], x) : x \in DateExp(p[1], b)}
Eval(kind, s, b) == CASE kind = "date" -> DateExp(s, b)
                      [] kind = "time" -> TimeExp(s, b)
                      [] OTHER -> DateTimeExp(s, b)
=============================================================================
