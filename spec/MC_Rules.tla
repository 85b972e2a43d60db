----------------------------- MODULE MC_Rules ----------------------------
(* Sets of rules built rule by rule: what is written is read back, in every *)
(* version that can hold it.                                                *)
EXTENDS Rules, Json
CONSTANTS Depth, Menu, SmallMenu
Uuid == O(<<KV("type", JStr(S("Uuid")))>>)
Simple == {<<n>> : n \in Plain}
Texts == {<<>>, S("a"), S("\\d+ \"x\"")}
Flatly == Simple \cup {<<t, x>> : t \in {"regex", "include", "contentType"} \cup HasFormat, x \in Texts}
   \cup {<<t, S(d)>> : t \in {"min", "max"}, d \in {"0", "1", "12", "18446744073709551615"}}
   \cup {<<"minmax", S(a), S(b)>> : a \in {"0", "2"}, b \in {"1", "300"}}
   \cup {<<"statusCode", <<"name", n>>>> : n \in StatusNames} \cup {<<"statusCode", <<"codes", c>>>> : c \in {<<>>, <<200>>, <<404, 65535>>}}
Each(in) == {<<t, v, rs, g>> : t \in {"eachKey", "eachValue"}, v \in {<<>>, S("v")}, rs \in {<<>>} \cup {<<x>> : x \in in}, g \in {<<>>, <<Uuid>>}}
PathMenu == {S("$"), S("$.a"), S("$['x y'][0].*"), S("$.c[*]"), <<>>, S("b.d"), S("$.$.e")}
EntryOf(x, combine, rs) == <<Parse(x).toks, combine, rs, x>>
Good(x) == Parse(x).ok
Variants(in) == {<<S(i), es, g>> : i \in {"0", "7"}, es \in {<<>>} \cup {<<EntryOf(x, "AND", <<r>>)>> : x \in {S("$"), S("$.a")}, r \in in},
                g \in {<<>>, <<<<<<Root, Field(S("a"))>>, Uuid, S("$.a")>>>>}}
Few == {<<"type">>, <<"regex", S("a")>>, <<"minmax", S("0"), S("1")>>}
Pair == {<<"regex", S("a")>>, <<"minmax", S("0"), S("1")>>}
Rich == Flatly \cup Each(Flatly) \cup {<<"arrayContains", <<v>>>> : v \in Variants(Few)} \cup {<<"arrayContains", <<>>>>}
        \cup Each({<<"arrayContains", <<v>>>> : v \in Variants({<<"type">>})} \cup Each({<<"type">>}))
Sample == Flatly \cup Each({<<"type">>}) \cup {<<"arrayContains", <<v>>>> : v \in Variants({<<"regex", S("a")>>})}
NamedPath(n) == EntryOf(Render(<<Root, Field(S(n))>>), "AND", <<>>)
Headers == {"X-A", "q[0]", "matchers", "a", "$filter", "it's"}
PathsFor(c) == CASE c \in {"header", "query"} -> {NamedPath(n) : n \in Headers}
                 [] c \in {"path", "status", "method"} -> {EntryOf(<<>>, "AND", <<>>)}
                 [] OTHER -> {EntryOf(x, "AND", <<>>) : x \in {y \in PathMenu : Good(y)}}
VARIABLES cs, n
vars == <<cs, n>>
Init == cs = <<>> /\ n = 0
Add(c, p, logic, r) == AddRules(cs, <<<<c, <<<<p[1], logic, <<r>>, p[4]>>>>>>>>)
Next == /\ n < Depth
        /\ \E c \in Cats : \E p \in PathsFor(c) : \E logic \in {"AND", "OR"} : \E r \in (IF Depth = 1 THEN Menu ELSE SmallMenu) :
             cs' = Add(c, p, logic, r)
        /\ n' = n + 1
AllRulesSurvive == n > 0 \/ \A r \in Rich : ReadRule(RuleJson(r)) = OkR(r)
ByDeclaration(x) == x.k = "ok" /\ Canon(x.r) = Canon(cs)
V3Survives == V3Fits(cs) => ByDeclaration(ReadRules(V3Json(cs)))
V2Survives == (V2Fits(cs) /\ cs # <<>>) => LET x == ReadRules(V2Json(cs)) IN x.k = "ok" /\ Canon(x.r) = Canon(V2Form(cs))
Emit == PrintT("VEC " \o ToJson(cs'))
=============================================================================
