----------------------------- MODULE MC_Exchange --------------------------
(* Every pair of small requests that differ in one of their parts, under    *)
(* small sets of rules: what the outcome of matching promises.              *)
EXTENDS Exchange, Json
CONSTANTS Focus, MaxEntries, Small
X == S("a")
Y == S("b")
Vals == {X, Y}
Lists == IF Small THEN {<<>>, <<X>>, <<Y>>, <<X, X>>, <<X, Y>>} ELSE {<<>>} \cup {<<v>> : v \in Vals} \cup {<<v, w>> : v, w \in Vals}
Second == IF Small THEN {<<X>>} ELSE {<<>>, <<X>>, <<X, Y>>}
Ordered(n1, n2) == {<<>>} \cup {<<<<n1, v>>>> : v \in Lists} \cup {<<<<n2, v>>>> : v \in Lists} \cup {<<<<n1, v>>, <<n2, w>>>> : v \in Second, w \in Second}
Queries == IF Focus = "query" THEN Ordered(X, Y) ELSE {<<>>}
(* one of the two headers is written in two ways *)
HName == {S("X-A"), S("x-a")}
CTypes == {S("text/plain"), S("text/plain;charset=utf-8"), S("application/json")}
HeaderSets == IF Focus = "header" THEN UNION {Ordered(n, S("B")) : n \in HName} \cup {<<<<S("Content-Type"), <<c>>>>>> : c \in CTypes}
              ELSE IF Focus = "body" THEN {<<>>} \cup {<<<<S("Content-Type"), <<c>>>>>> : c \in IF Small THEN {S("application/json"), S("application/x-www-form-urlencoded")} ELSE CTypes \cup {S("image/png"), S("application/x-www-form-urlencoded")}}
              ELSE {<<>>}
NoCt(t) == <<"present", t, CT!CtNone, "">>
Bodies == IF Focus = "body" THEN {<<"missing">>, <<"empty">>, <<"null">>} \cup {NoCt(S(t)) : t \in IF Small THEN {"a", "a=1&b=2", "[1]", "[1,2]"} ELSE {"", "a", "b", "a=1&b=2", "b=2&a=1", "[1]", "[1,2]", "null"}} ELSE {<<"missing">>}
Methods == IF Focus = "line" THEN {S("GET"), S("get"), S("POST")} ELSE {S("GET")}
Paths == IF Focus = "line" THEN {S("/"), S("/a"), S("/A")} ELSE {S("/")}
Unruled == [path |-> <<>>, query |-> <<>>, header |-> <<>>, body |-> <<>>, status |-> <<>>, metadata |-> <<>>]
Part(m, p, q, h, b) == [method |-> m, path |-> p, query |-> q, headers |-> h, body |-> b, rules |-> Unruled, status |-> 200]
Parts == {Part(m, p, q, h, b) : m \in Methods, p \in Paths, q \in Queries, h \in HeaderSets, b \in Bodies}
Cat == CASE Focus = "line" -> "path" [] OTHER -> Focus
Places == CASE Focus = "line" -> {<<>>}
            [] Focus = "query" -> {<<Root>>, <<Root, Field(X)>>, <<Root, Star>>, <<Root, Field(X), Index(S("0"))>>, <<Root, Field(X), Star>>}
            [] Focus = "header" -> {<<Root>>, <<Root, Field(S("x-a"))>>, <<Root, Field(S("X-A"))>>, <<Root, Field(S("X-A")), Index(S("1"))>>, <<Root, Field(S("content-type"))>>}
            [] OTHER -> {<<Root>>, <<Root, Star>>}
Rules == IF Small THEN {<<"type">>, <<"regex", <<"c", 97>>>>, <<"min", 1>>, <<"eachValue", <<<<"notEmpty">>>>>>} ELSE {<<"type">>, <<"equality">>, <<"notEmpty">>, <<"regex", <<"c", 97>>>>, <<"min", 1>>, <<"max", 1>>, <<"eachValue", <<<<"notEmpty">>>>>>, <<"include", X>>}
RLists == {<<S("AND"), <<r>>>> : r \in Rules} \cup {<<c, <<<<"notEmpty">>, <<"regex", <<"c", 97>>>>>>>> : c \in IF Small THEN {S("OR")} ELSE {S("AND"), S("OR")}} \cup {<<S("AND"), <<>>>>}
VARIABLES e, a
Init == e \in Parts /\ a \in Parts
Entries == e.rules[Cat]
Next == /\ Len(Entries) < MaxEntries
        /\ \E ts \in Places, l \in RLists :
             /\ \A i \in DOMAIN Entries : LowerEntries(Entries)[i].toks # LowerEntries(<<[toks |-> ts]>>)[1].toks
             /\ e' = [e EXCEPT !.rules = [@ EXCEPT ![Cat] = Append(@, [toks |-> ts, combine |-> l[1], rules |-> l[2]])]]
        /\ UNCHANGED a
Bad == RequestM(e, a)
Bare == e.rules = Unruled
Kind(k) == {w \in Bad : w[1] = k}
(* a request matches itself, unless its body is not what its type says *)
Sound(r) == CT!IsJsonCt(PartType(r.body, r.headers)) /\ CT!Present(r.body) => JT!ParseBytes(BytesOf(r.body))[1] = "ok"
Reflexive == Bare /\ Sound(e) => RequestM(e, e) = {}
(* without rules, what matches is the same but for the case of the method and of the names of headers, further headers, space around their values and parameters of the type *)
HMap(hs) == {<<Lower(hs[i][1]), hs[i][2]>> : i \in DOMAIN hs}
Exact == Bare /\ Bad = {} => /\ Lower(e.method) = Lower(a.method) /\ e.path = a.path /\ Range(e.query) = Range(a.query)
                             /\ \A h \in HMap(e.headers) : h[1] # S("content-type") => h \in HMap(a.headers)
                             /\ (BytesOf(e.body) # <<>> => CT!Present(a.body)) /\ (e.body[1] \in {"empty", "null"} => ~CT!Present(a.body))
(* each part is judged on its own *)
Apart == /\ (e.method = a.method => Kind("method") = {})
         /\ (Names(e.query) = {} /\ Names(a.query) = {} => Kind("query") = {})
         /\ (e.headers = <<>> => Kind("header") = {})
         /\ (e.body[1] = "missing" => Kind("body") = {} /\ Kind("type") = {})
         /\ \A w \in Kind("header") : w[2] \in Names(e.headers)
         /\ \A w \in Kind("query") : w[2] \in Names(e.query) \cup Names(a.query)
(* further headers do not matter, further parameters do *)
More == [a EXCEPT !.headers = Append(@, <<S("other"), <<X>>>>)]
ExtraHeader == RequestM(e, More) = Bad
ExtraParam == RequestM(e, [a EXCEPT !.query = Append(@, <<S("other"), <<X>>>>)]) = Bad \cup {<<"query", S("other")>>}
(* neither does the case of the names of headers *)
Recased == RequestM(e, [a EXCEPT !.headers = [i \in DOMAIN @ |-> <<Upper(@[i][1]), @[i][2]>>]]) = Bad
(* one expectation less does not make anything else wrong *)
Fewer == e.headers = <<>> \/ {w \in RequestM([e EXCEPT !.headers = Tail(@)], a) : w[1] = "header"} \subseteq Kind("header")
(* the best score is for what matches *)
Places2 == Cardinality({w \in Bad : w[1] \in {"body", "type"}})
TopScore == LET top == 2 + Cardinality(Names(e.query) \cup Names(a.query)) + Cardinality(Names(e.headers)) IN
            ScoreOf(Bad, e, a, Places2) <= top /\ (ScoreOf(Bad, e, a, Places2) = top <=> Bad = {})
(* the status of a response counts, its body may hold more *)
Resp == LET r == ResponseM(e, a) IN Kind("header") = {w \in r : w[1] = "header"} /\ {w \in r : w[1] \in {"body", "type"}} \subseteq Bad
        /\ ResponseM(e, [a EXCEPT !.status = 201]) = r \cup {<<"status", <<>>>>}
Emit == PrintT("VEC " \o ToJson([e |-> e', a |-> a']))
=============================================================================
