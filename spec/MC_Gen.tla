------------------------------- MODULE MC_Gen -----------------------------
(* Regular expressions and documents built step by step, with generators    *)
(* attached one by one.                                                      *)
EXTENDS Gen, Json
CONSTANTS Kind, Depth
Letters == {97, 66, 49, 36, 92}
Atoms == {<<"c", c>> : c \in Letters} \cup {<<"d">>, <<"w">>, <<"set", <<<<97, 99>>, <<45, 45>>>>>>}
Reps == {<<0, 0 - 1>>, <<1, 0 - 1>>, <<0, 1>>, <<2, 2>>, <<1, 3>>, <<2, 0 - 1>>}
VARIABLES re, doc, gens, n
vars == <<re, doc, gens, n>>
Regexes == Kind = "re"
GrowRe == \/ \E a \in Atoms : re' \in {<<"cat", <<re, a>>>>, <<"alt", <<re, a>>>>, <<"cat", <<a, re>>>>}
          \/ \E b \in Reps : re[1] # "rep" /\ re' = <<"rep", re, b[1], b[2]>>
Keys == {S("a"), S("a/b"), S("~1"), <<>>, S("0")}
Leaves == {JNull, JInt(7), JStr(S("x"))}
Small == Leaves \cup {JArr(<<>>), JArr(<<JInt(1), JStr(S("y"))>>), JObj(<<<<S("a"), JInt(1)>>>>), JObj(<<<<S("b"), JNull>>>>)}
GrowDoc == \/ doc[1] \in {"n", "i", "s"} /\ doc' \in {JArr(<<>>), JObj(<<>>)}
           \/ doc[1] = "a" /\ Len(doc[2]) < 2 /\ \E v \in Small : doc' = JArr(Append(doc[2], v))
           \/ doc[1] = "o" /\ Len(doc[2]) < 3 /\ \E k \in Keys, v \in Small : ~JHas(doc, k) /\ doc' = JObj(JIns(doc[2], k, v))
Steps == {Field(k) : k \in Keys \ {<<>>}} \cup {Index(S("0")), Index(S("1")), Star, StarIdx}
GPaths == {<<Root>>} \cup {<<Root, a>> : a \in Steps} \cup {<<Root, a, b>> : a \in {Field(S("a")), Field(S("a/b")), Star, StarIdx, Index(S("0"))}, b \in Steps}
Menu == {<<"ProviderState", S("id"), <<>>>>, <<"RandomInt", 5, 5>>, <<"RandomBoolean">>, <<"ProviderState", S("gone"), <<>>>>}
GrowGens == \E p \in GPaths, g \in Menu : (\A i \in DOMAIN gens : gens[i][1] # p) /\ gens' = Append(gens, <<p, g>>)
Init == re = <<"c", 97>> /\ doc = JNull /\ gens = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ IF Regexes THEN GrowRe /\ UNCHANGED <<doc, gens>>
           ELSE /\ UNCHANGED re
                /\ \/ gens = <<>> /\ GrowDoc /\ UNCHANGED gens
                   \/ Len(gens) < 2 /\ GrowGens /\ UNCHANGED doc
Ctx == [values |-> <<<<S("id"), <<"d", S("42")>>>>>>, nested |-> <<>>, mock |-> <<>>]
(* the words of a regular expression are exactly the texts it matches *)
All2 == {<<>>} \cup {<<a>> : a \in Letters} \cup {<<a, b>> : a, b \in Letters}
Language == Regexes => LET ws == Words(re, Letters, 2) IN \A w \in All2 : FullMatch(re, w) <=> w \in ws
(* addressed places exist, and are those the path matches: a field or index by itself, * only members, [*] only elements *)
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN TRUE
            ELSE IF Head(p)[1] = "k" THEN JHas(v, Head(p)[2]) /\ At(JGet(v, Head(p)[2]), Tail(p))
            ELSE v[1] = "a" /\ Head(p)[2] < Len(v[2]) /\ At(v[2][Head(p)[2] + 1], Tail(p))
FitsTok(t, k) == CASE t[1] = "field" -> k = <<"k", t[2]>>
                   [] t[1] = "index" -> k = <<"i", NatOf(t[2])>>
                   [] t[1] = "star" -> k[1] = "k"
                   [] t[1] = "staridx" -> k[1] = "i"
                   [] OTHER -> FALSE
Places1 == \A i \in DOMAIN gens : \A p \in Addressed(doc, gens[i][1]) :
             /\ At(doc, p) /\ Len(p) = Len(gens[i][1]) - 1
             /\ \A k \in DOMAIN p : FitsTok(gens[i][1][k + 1], p[k])
(* without an active generator for a place of the document it is kept; otherwise something is possible *)
Result(v, g) == IF g[1] = "RandomBoolean" THEN JBool(TRUE)
                ELSE IF g[1] = "RandomInt" THEN (IF v[1] = "s" THEN JStr(IntStr(g[2])) ELSE JInt(g[2]))
                ELSE IF g[2] = S("id") THEN JInt(42) ELSE v
RECURSIVE MakeNew(_, _, _)
MakeNew(v, at, gs) ==
  LET here == {x \in at : x[1] = <<>>}
      under(k) == {<<Tail(x[1]), x[2]>> : x \in {y \in at : y[1] # <<>> /\ y[1][1] = k}} IN
  IF here # {} THEN Result(v, gs[(CHOOSE x \in here : TRUE)[2]][2])
  ELSE IF v[1] = "a" THEN JArr([i \in DOMAIN v[2] |-> MakeNew(v[2][i], under(<<"i", i - 1>>), gs)])
  ELSE IF v[1] = "o" THEN JObj([i \in DOMAIN v[2] |-> <<v[2][i][1], MakeNew(v[2][i][2], under(<<"k", v[2][i][1]>>), gs)>>])
  ELSE v
Possible == \A m \in {"Consumer", "Provider"} :
              LET act == ActiveOnes(gens, m)
                  pl == Places(doc, act) IN
              Apart(pl) => LET new == MakeNew(doc, pl, act) IN
                           /\ DocOK(doc, new, gens, m, Ctx)
                           /\ (new # doc => ~DocOK(doc, doc, gens, m, Ctx))
                           /\ ~DocOK(doc, JArr(<<new, doc>>), gens, m, Ctx)
Emit == IF Regexes THEN PrintT("VEC " \o ToJson([re |-> re', text |-> ReText(re')]))
        ELSE gens' = <<>> \/ PrintT("VEC " \o ToJson([doc |-> doc', gens |-> gens']))
=============================================================================
