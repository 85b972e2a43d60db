------------------------------- MODULE Path -------------------------------
(* Path expressions.  A path is a sequence of tokens                        *)
(*   <<"root">>  <<"field", name>>  <<"index", digits>>  <<"star">>  <<"staridx">> *)
(* An index is kept as its canonical decimal digits.                        *)
EXTENDS Lib
Root == <<"root">>
Field(n) == <<"field", n>>
Index(d) == <<"index", d>>
Star == <<"star">>
StarIdx == <<"staridx">>

Dollar == 36  Dot == 46  LBr == 91  RBr == 93  Quote == 39  BSl == 92  StarC == 42

(* the non-ASCII characters the checks use *)
UAlpha == {233, 20013, 1071, 8544, 223, 8490}     \* e-acute, CJK, Cyrillic, Roman one, sharp s, Kelvin
UNumeric == {178, 1632, 8544}                     \* superscript two, Arabic-Indic zero, Roman one
IsAlphabetic(c) == IsAlpha(c) \/ c \in UAlpha
IsNumeric(c) == IsDigit(c) \/ c \in UNumeric
IsIdChar(c) == IsAlphabetic(c) \/ IsNumeric(c) \/ c \in {95, 45, 58, 35, 64}   \* _ - : # @

Fail == [ok |-> FALSE, toks |-> <<>>]
Ok(t) == [ok |-> TRUE, toks |-> t]

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
MaxIndex == S("18446744073709551615")
FitsIndex(d) == LET c == StripZeros(d) IN Len(c) < 20 \/ (Len(c) = 20 /\ Cmp(c, MaxIndex) <= 0)

(* first position at or after i that is no identifier character, or no digit *)
RECURSIVE IdEnd(_, _)
IdEnd(s, i) == IF i <= Len(s) /\ IsIdChar(s[i]) THEN IdEnd(s, i + 1) ELSE i
RECURSIVE DigitEnd(_, _)
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i

(* a quoted name starting at i (after the quote): <<name, position after the closing quote>>, or 0 *)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, cur) ==
  IF i > Len(s) THEN <<<<>>, 0>>
  ELSE IF s[i] = Quote THEN (IF cur = <<>> THEN <<<<>>, 0>> ELSE <<cur, i + 1>>)
  ELSE IF s[i] = BSl /\ i < Len(s) /\ s[i+1] \in {Quote, BSl} THEN Quoted(s, i + 2, Append(cur, s[i+1]))
  ELSE Quoted(s, i + 1, Append(cur, s[i]))

RECURSIVE Segs(_, _, _)
Segs(s, i, acc) ==
  IF i > Len(s) THEN Ok(acc)
  ELSE IF s[i] = Dot THEN
    IF i = Len(s) THEN Fail
    ELSE IF s[i+1] = StarC THEN Segs(s, i + 2, Append(acc, Star))
    ELSE IF IsIdChar(s[i+1]) THEN
      LET e == IdEnd(s, i + 1) IN
      IF e <= Len(s) /\ s[e] \notin {Dot, LBr} THEN Fail
      ELSE Segs(s, e, Append(acc, Field(SubSeq(s, i + 1, e - 1))))
    ELSE Fail
  ELSE IF s[i] = LBr THEN
    IF i = Len(s) THEN Fail
    ELSE IF s[i+1] = Quote THEN
      LET q == Quoted(s, i + 2, <<>>) IN
      IF q[2] = 0 \/ q[2] > Len(s) THEN Fail
      ELSE IF s[q[2]] # RBr THEN Fail
      ELSE Segs(s, q[2] + 1, Append(acc, Field(q[1])))
    ELSE IF IsDigit(s[i+1]) THEN
      LET e == DigitEnd(s, i + 1)
          d == SubSeq(s, i + 1, e - 1) IN
      IF e > Len(s) THEN Fail
      ELSE IF s[e] # RBr \/ ~FitsIndex(d) THEN Fail
      ELSE Segs(s, e + 1, Append(acc, Index(StripZeros(d))))
    ELSE IF s[i+1] = StarC THEN
      IF i + 2 > Len(s) THEN Fail
      ELSE IF s[i+2] # RBr THEN Fail
      ELSE Segs(s, i + 3, Append(acc, StarIdx))
    ELSE Fail
  ELSE Fail

Parse(s) ==
  IF s = <<>> THEN Ok(<<>>)
  ELSE IF s[1] = Dollar THEN Segs(s, 2, <<Root>>)
  ELSE IF IsAlphabetic(s[1]) \/ IsNumeric(s[1]) THEN
    LET e == IdEnd(s, 1) IN
    IF e <= Len(s) /\ s[e] \notin {Dot, LBr} THEN Fail
    ELSE Segs(s, e, <<Root, Field(SubSeq(s, 1, e - 1))>>)
  ELSE Fail

IsIdent(n) == n # <<>> /\ (IsAlpha(n[1]) \/ n[1] = 95) /\ \A i \in 1..Len(n) : IsAlnum(n[i]) \/ n[i] = 95
RECURSIVE Escape(_)
Escape(n) == IF n = <<>> THEN <<>>
             ELSE (IF n[1] \in {Quote, BSl} THEN <<BSl, n[1]>> ELSE <<n[1]>>) \o Escape(Tail(n))
RenderTok(t) == CASE t[1] = "root" -> <<Dollar>>
                  [] t[1] = "field" -> IF IsIdent(t[2]) THEN <<Dot>> \o t[2]
                                       ELSE <<LBr, Quote>> \o Escape(t[2]) \o <<Quote, RBr>>
                  [] t[1] = "index" -> <<LBr>> \o t[2] \o <<RBr>>
                  [] t[1] = "star" -> <<Dot, StarC>>
                  [] OTHER -> <<LBr, StarC, RBr>>
RECURSIVE Render(_)
Render(ts) == IF ts = <<>> THEN <<>> ELSE RenderTok(Head(ts)) \o Render(Tail(ts))

(* paths that can be written down: they start at the root and have no empty names *)
Printable(ts) == ts # <<>> /\ ts[1] = Root
                 /\ \A i \in 2..Len(ts) : ts[i] # Root /\ (ts[i][1] = "field" => ts[i][2] # <<>>)

RECURSIVE PtrEsc(_)
PtrEsc(n) == IF n = <<>> THEN <<>>
             ELSE (IF n[1] = 126 THEN <<126, 48>> ELSE IF n[1] = 47 THEN <<126, 49>> ELSE <<n[1]>>) \o PtrEsc(Tail(n))
HasStar(ts) == \E i \in DOMAIN ts : ts[i][1] \in {"star", "staridx"}
RECURSIVE Pointer(_)
Pointer(ts) == IF ts = <<>> THEN <<>>
               ELSE (CASE Head(ts)[1] = "field" -> <<47>> \o PtrEsc(Head(ts)[2])
                       [] Head(ts)[1] = "index" -> <<47>> \o Head(ts)[2]
                       [] OTHER -> <<>>) \o Pointer(Tail(ts))
TokStr(t) == CASE t[1] = "root" -> <<Dollar>>
               [] t[1] \in {"field", "index"} -> t[2]
               [] t[1] = "star" -> <<StarC>>
               [] OTHER -> <<LBr, StarC, RBr>>

(* ---- building paths: a path in use is [toks, expr] ---- *)
MkPath(ts) == [toks |-> ts, expr |-> Render(ts)]
Push(p, t) == [toks |-> Append(p.toks, t), expr |-> p.expr \o RenderTok(t)]
Last(ts) == ts[Len(ts)]
ReplaceLast(ts, t) == [ts EXCEPT ![Len(ts)] = t]
JoinTok(part) == IF part = S("*") THEN Star
                 ELSE IF part = S("[*]") THEN StarIdx
                 ELSE IF AllDigits(part) /\ FitsIndex(part) THEN Index(StripZeros(part))
                 ELSE Field(part)
RECURSIVE PushAll(_, _)
PushAll(p, ts) == IF ts = <<>> THEN p
                  ELSE PushAll(IF Head(ts) = Root THEN p ELSE Push(p, Head(ts)), Tail(ts))
Apply(p, op, arg) ==
  CASE op = "field" -> Push(p, Field(arg))
    [] op = "index" -> Push(p, Index(arg))
    [] op = "star" -> Push(p, Star)
    [] op = "staridx" -> Push(p, StarIdx)
    [] op = "push" -> Push(p, arg)
    [] op = "join" -> Push(p, JoinTok(arg))
    [] op = "join_index" -> IF p.toks # <<>> /\ Last(p.toks) \in {Star, StarIdx}
                            THEN MkPath(ReplaceLast(p.toks, Index(arg))) ELSE Push(p, Index(arg))
    [] op = "join_field" -> IF p.toks # <<>> /\ Last(p.toks) = Star
                            THEN MkPath(ReplaceLast(p.toks, Field(arg))) ELSE Push(p, Field(arg))
    [] op = "push_path" -> PushAll(p, Parse(arg).toks)
    [] op = "lower" -> [toks |-> [i \in DOMAIN p.toks |-> IF p.toks[i][1] = "field" THEN Field(Lower(p.toks[i][2])) ELSE p.toks[i]],
                        expr |-> Lower(p.expr)]
    [] op = "drop" -> LET k == Len(p.toks) - arg IN
                      IF k <= 0 THEN MkPath(<<Root>>) ELSE MkPath(SubSeq(p.toks, 1, k))
    [] op = "parent" -> IF Len(p.toks) <= 1 THEN p ELSE MkPath(SubSeq(p.toks, 1, Len(p.toks) - 1))

(* ---- which nodes of a document a path addresses ---- *)
(* how well one token fits one step of the way to a node: 0 no, 1 wildcard, 2 exact *)
Fit(t, f) ==
  CASE t[1] = "root" -> IF f = <<Dollar>> THEN 2 ELSE 0
    [] t[1] = "field" -> IF f = t[2] THEN 2 ELSE 0
    [] t[1] = "index" -> IF AllDigits(f) /\ FitsIndex(f) /\ StripZeros(f) = t[2] THEN 2 ELSE 0
    [] t[1] = "staridx" -> IF f = S("[*]") \/ (AllDigits(f) /\ FitsIndex(f)) THEN 1 ELSE 0
    [] OTHER -> 1
Matches(ts, path) == Len(path) >= Len(ts) /\ \A i \in DOMAIN ts : Fit(ts[i], path[i]) > 0
MatchesExactly(ts, path) == Len(path) = Len(ts) /\ Matches(ts, path)
Exacts(ts, path) == Cardinality({i \in DOMAIN ts : Fit(ts[i], path[i]) = 2})
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Weight(ts, path) == IF Matches(ts, path) THEN Pow2(Exacts(ts, path)) ELSE 0
Score(ts, path) == Weight(ts, path) * Len(ts)
=============================================================================
