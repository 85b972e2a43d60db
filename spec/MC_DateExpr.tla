--------------------------- MODULE MC_DateExpr ---------------------------
(* Expressions typed one word at a time.  The grammar is given a second     *)
(* time, as an automaton, and must agree with the parser of DateExpr.       *)
EXTENDS DateExpr, Json
CONSTANTS Kind, MaxWords, MaxDead
VARIABLES ws, pos     \* the words so far; where in the grammar they end
Words == IF Kind = "date"
  THEN {"now", "tomorrow", "yesterday", "+", "-", "next", "last", "1", "13", "day", "weeks", "months", "year", "fortnight", "mon", "feb", "x"}
  ELSE {"now", "midnight", "noon", "o'clock", "am", "pm", "+", "-", "next", "last", "1", "12", "90", "hour", "minutes", "seconds", "millisecond", "x"}
To(p, w) ==
  LET ops == {"+", "-"}
      ints == {"1", "13", "12", "90"} IN
  IF Kind = "date" THEN
    CASE p = "start" /\ w \in {"now", "tomorrow", "yesterday"} -> "end"
      [] p \in {"start", "end"} /\ w \in ops -> "int"
      [] p = "int" /\ w \in ints -> "unit"
      [] p = "unit" /\ w \in {"day", "weeks", "months", "year"} -> "end"
      [] p = "start" /\ w \in {"next", "last"} -> "offset"
      [] p = "offset" /\ w \in {"day", "year", "fortnight", "mon", "feb"} -> "end"
      [] OTHER -> "dead"
  ELSE
    CASE p = "start" /\ w \in {"now", "midnight", "noon"} -> "end"
      [] p = "start" /\ w \in {"1", "12"} -> "hour"
      [] p = "start" /\ w = "90" -> "badhour"
      [] p = "hour" /\ w = "o'clock" -> "half"
      [] p = "half" /\ w \in {"am", "pm"} -> "end"
      [] p \in {"start", "end", "half"} /\ w \in ops -> "int"
      [] p = "int" /\ w \in ints -> "unit"
      [] p = "unit" /\ w \in {"hour", "minutes", "seconds", "millisecond"} -> "end"
      [] p = "start" /\ w \in {"next", "last"} -> "offset"
      [] p = "offset" /\ w \in {"hour", "minutes", "seconds", "millisecond"} -> "end"
      [] OTHER -> "dead"
Init == ws = <<>> /\ pos = "start"
Next == /\ pos # "dead" /\ Len(ws) < MaxWords
        /\ \E w \in Words : /\ ws' = Append(ws, w) /\ pos' = To(pos, w)
                            /\ (To(pos, w) = "dead" => Len(ws) < MaxDead)
Text == JoinWith([i \in DOMAIN ws |-> S(ws[i])], <<32>>)
Tight == LET letters(w) == w \notin {"+", "-", "1", "13", "12", "90"} IN
         Flat([i \in DOMAIN ws |-> IF i > 1 /\ letters(ws[i]) /\ letters(ws[i - 1]) THEN <<32>> \o S(ws[i]) ELSE S(ws[i])])
Accepted(t) == IF Kind = "date" THEN ParseDate(DateLex(t)) # Bad ELSE ParseTime(TimeLex(t)) # Bad
TwoNumbers == \E i \in 1..Len(ws) - 1 : ws[i] \in {"1", "13", "12", "90"} /\ ws[i + 1] \in {"1", "13", "12", "90"}
Agree == /\ Accepted(Text) = (pos \in {"end", "half"})
         /\ ~TwoNumbers => Accepted(Tight) = (pos \in {"end", "half"})
Bases == {[day |-> d, ms |-> m] : d \in {DayNum(2000, 2, 29), DayNum(2023, 1, 31), DayNum(2024, 12, 31)}, m \in {0, 36000000, 86399999}}
(* every accepted expression has a meaning, and only month ends leave a choice *)
Meaning == pos \in {"end", "half"} => \A b \in Bases : LET r == Eval(Kind, Text, b) IN
   /\ r # {} /\ (Kind = "time" => Cardinality(r) = 1)
   /\ \A x \in r : x.ms >= 0 /\ x.ms < 86400000 /\ (Kind = "date" => x.ms = b.ms)
Emit == PrintT("VEC " \o ToJson([w |-> ws', ok |-> pos' \in {"end", "half"}]))
(* ---- the calendar ---- *)
Days == (0-800..800) \cup (10900..11500) \cup (19000..20000) \cup (0-720000..0-719000)
ASSUME \A z \in Days : LET c == Civil(z) IN DayNum(c.y, c.m, c.d) = z /\ c.d \in 1..MonthLen(c.y, c.m)
ASSUME Civil(0) = [y |-> 1970, m |-> 1, d |-> 1] /\ WeekDay(0) = 3 /\ DayNum(2000, 1, 1) = 10957
ASSUME \A z \in 10957..11400 : \A sign \in {0-1, 1} : \A w \in 0..6 : \A r \in DateStep([day |-> z, ms |-> 0], sign, <<49>>, <<"wd", w>>) :
   WeekDay(r.day) = w /\ sign * (r.day - z) \in 1..7
ASSUME \A z \in 10957..11400 : \A sign \in {0-1, 1} : \A m \in 1..12 : \A r \in DateStep([day |-> z, ms |-> 0], sign, <<49>>, <<"mo", m>>) :
   LET c == Civil(r.day) IN c.d = 1 /\ c.m = m /\ sign * (r.day - z) \in 1..396
ASSUME \A z \in 10957..11400 : \A n \in {1, 5, 12, 13, 40} : \A r \in DateStep([day |-> z, ms |-> 0], 1, DigitsOf(n), <<"month", 1>>) :
   Civil(z).d <= 28 => DateStep(r, 0-1, DigitsOf(n), <<"month", 1>>) = {[day |-> z, ms |-> 0]}
=============================================================================
