---------------------------- MODULE MC_MatchDef ----------------------------
(* Definitions written from their trees: what is written is read back, and  *)
(* no token can be left out.                                                *)
EXTENDS MatchDef, Json
CONSTANTS Depth, Wide
VARIABLES es, n      \* definitions, as trees
vars == <<es, n>>
(* trees: <<"m", rule, config or <<>>, value>>, <<"ref", raw>>, <<"notEmpty", value>>, <<"eachKey" | "eachValue", tree>>,
   <<"atLeast" | "atMost", text>>; values: <<token kind, text>> and <<"state", raw, value>> *)
Strs == {S("a"), S("\\\\"), S("it\\'s"), S("\\n"), <<>>, S("\\u0041,"), S("(\\d)")}
Lits == {<<"str", x>> : x \in Strs} \cup {<<"word", S("null")>>, <<"word", S("true")>>, <<"nat", S("100")>>, <<"neg", S("-1")>>, <<"dec", S("12.50")>>}
Vals == Lits \cup {<<"state", S("e"), v>> : v \in Lits}
Few == {<<"str", S("a")>>, <<"dec", S("1.5")>>, <<"state", S("\\\\"), <<"nat", S("3")>>>>}
Leaves(V) ==
  {<<"m", r, <<>>, v>> : r \in {"equalTo", "type"}, v \in V}
  \cup {<<"m", "number", <<>>, v>> : v \in {x \in V : x[1] \in {"nat", "neg", "dec", "state"}}}
  \cup {<<"m", "decimal", <<>>, v>> : v \in {x \in V : x[1] \in {"nat", "neg", "dec", "state"}}}
  \cup {<<"m", "integer", <<>>, v>> : v \in {x \in V : x[1] \in {"nat", "neg", "state"}}}
  \cup {<<"m", "boolean", <<>>, v>> : v \in {x \in V : x = <<"word", S("true")>>}}
  \cup {<<"m", r, <<c>>, v>> : r \in {"datetime", "date", "time"}, c \in {S("yyyy"), S("\\\\")}, v \in {x \in V : x[1] \in {"str", "state"}}}
  \cup {<<"m", r, <<c>>, v>> : r \in {"regex", "contentType"}, c \in {S("\\w+"), S("\\\\")}, v \in {x \in V : x[1] = "str"}}
  \cup {<<"m", "include", <<>>, v>> : v \in {x \in V : x[1] = "str"}}
  \cup {<<"m", "semver", <<>>, <<"str", S("1.0.0-a.1+x")>>>>, <<"ref", S("a")>>, <<"atLeast", S("2")>>, <<"atMost", S("10")>>}
  \cup {<<"notEmpty", v>> : v \in V}
Menu == IF Wide THEN Leaves(Vals) ELSE Leaves(Few)
Init == es = <<>> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E x \in Menu : es' = Append(es, x)
           \/ \E w \in {"eachKey", "eachValue"} : es # <<>> /\ es' = [es EXCEPT ![Len(es)] = <<w, @>>]
(* the tokens of a tree *)
Sym(c) == <<"p", c>>
Word(w) == <<"word", S(w)>>
RECURSIVE TreeToks(_)
ValToks(v) == IF v[1] = "state" THEN <<Word("fromProviderState"), Sym(40), <<"str", v[2]>>, Sym(44), v[3], Sym(41)>> ELSE <<v>>
TreeToks(x) ==
  CASE x[1] = "m" -> <<Word("matching"), Sym(40), Word(x[2]), Sym(44)>> \o (IF x[3] = <<>> THEN <<>> ELSE <<<<"str", x[3][1]>>, Sym(44)>>) \o ValToks(x[4]) \o <<Sym(41)>>
    [] x[1] = "ref" -> <<Word("matching"), Sym(40), Sym(36), <<"str", x[2]>>, Sym(41)>>
    [] x[1] = "notEmpty" -> <<Word("notEmpty"), Sym(40)>> \o ValToks(x[2]) \o <<Sym(41)>>
    [] x[1] \in {"atLeast", "atMost"} -> <<Word(x[1]), Sym(40), <<"nat", x[2]>>, Sym(41)>>
    [] OTHER -> <<Word(x[1]), Sym(40)>> \o TreeToks(x[2]) \o <<Sym(41)>>
RECURSIVE AllToks(_)
AllToks(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN TreeToks(xs[1]) ELSE TreeToks(xs[1]) \o <<Sym(44)>> \o AllToks(Tail(xs))
(* tokens as text, with blanks or without *)
TokText(t) == IF t[1] = "str" THEN <<39>> \o t[2] \o <<39>> ELSE IF t[1] = "p" THEN <<t[2]>> ELSE t[2]
Write(ts, sep) == JoinWith([i \in DOMAIN ts |-> TokText(ts[i])], sep)
(* the meaning of a tree *)
ValOf(v) == LET l == IF v[1] = "state" THEN v[3] ELSE v IN
            IF l[1] = "str" THEN Text(l[2])[2] ELSE IF l = Word("null") THEN <<>> ELSE l[2]
ValType(v) == LET l == IF v[1] = "state" THEN v[3] ELSE v IN
              CASE l[1] = "str" -> "String" [] l = Word("null") -> "String" [] l[1] = "word" -> "Boolean" [] l[1] = "dec" -> "Decimal" [] OTHER -> "Integer"
ValGen(v) == IF v[1] = "state" THEN <<<<"ProviderState", Text(v[2])[2], <<DT(ValType(v))>>>>>> ELSE <<>>
RECURSIVE TreeDef(_, _)
TreeDef(x, s) ==
  LET T(raw) == Text(raw)[2] IN
  CASE x[1] = "m" ->
         LET r == x[2]
             g == ValGen(x[4]) IN
         <<ValOf(x[4]),
           CASE g # <<>> -> ValType(x[4]) [] r = "number" -> "Number" [] r = "decimal" -> "Decimal" [] r = "contentType" -> "Unknown" [] OTHER -> ValType(x[4]),
           <<CASE r = "equalTo" -> <<"equality">> [] x[3] # <<>> -> <<r, T(x[3][1])>> [] r = "include" -> <<r, ValOf(x[4])>> [] OTHER -> <<r>>>>,
           IF g = <<>> /\ r \in DOMAIN Dated THEN <<<<Dated[r], <<T(x[3][1])>>, <<>>>>>> ELSE g, s>>
    [] x[1] = "ref" -> <<T(x[2]), "Unknown", <<<<"ref", T(x[2])>>>>, <<>>, s>>
    [] x[1] = "notEmpty" -> <<ValOf(x[2]), ValType(x[2]), <<<<"notEmpty">>>>, ValGen(x[2]), s>>
    [] x[1] = "atLeast" -> <<<<>>, "Unknown", <<<<"min", x[2]>>>>, <<>>, s>>
    [] x[1] = "atMost" -> <<<<>>, "Unknown", <<<<"max", x[2]>>>>, <<>>, s>>
    [] OTHER -> <<<<>>, "Unknown", <<<<x[1], TreeDef(x[2], s)>>>>, <<>>, s>>
RECURSIVE AllDef(_, _)
AllDef(xs, s) == IF Len(xs) = 1 THEN TreeDef(xs[1], s) ELSE MergeD(AllDef(SubSeq(xs, 1, Len(xs) - 1), s), TreeDef(xs[Len(xs)], s))
ReadBack == es # <<>> => \A sep \in {<<>>, <<32>>, <<10, 9>>} :
              LET ts == AllToks(es)
                  s == Write(ts, sep) IN
              Lex(s) = ts /\ ParseDef(s) = <<"ok", AllDef(es, s)>> /\ Starts(s)
Without(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
Needed == es # <<>> => LET ts == AllToks(es) IN \A i \in DOMAIN ts : ParseDef(Write(Without(ts, i), <<32>>)) = Fail
Associative == Len(es) = 3 => MergeD(TreeDef(es[1], S("x")), MergeD(TreeDef(es[2], S("x")), TreeDef(es[3], S("x")))) = AllDef(es, S("x"))
Emit == PrintT("VEC " \o ToJson([s |-> Write(AllToks(es'), <<>>)]))
=============================================================================
