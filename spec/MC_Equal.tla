------------------------------ MODULE MC_Equal -----------------------------
(* Two models are put together step by step, in any order. A hash walks over *)
(* the content in the order of the keys: it never depends on the order in    *)
(* which a model was put together, is the same for equal models, and tells   *)
(* apart what differs in one part. Walking maps in the order in which they   *)
(* were filled (or any other) does not have the first two properties.        *)
EXTENDS Equal
CONSTANTS Kind, Depth, Walk
Str(s) == <<<<"s", s>>>>
Num(n) == <<<<"#", n>>>>
Tag(t) == <<<<"t", t>>>>
Walked(ms) == IF Walk = "sorted" THEN Sorted(ms) ELSE ms
Cat(ms, f(_)) == Flat(Map(ms, f))
FJson(v) == CASE v[1] = "s" -> Str(v[2]) [] v[1] \in {"a", "o", "n"} -> <<>> [] OTHER -> <<NJson(v)>>
RECURSIVE FDeep(_)
FDeep(v) == CASE v[1] = "a" -> Cat(v[2], LAMBDA x : FDeep(x)) [] v[1] = "o" -> Cat(v[2], LAMBDA m : Str(m[1]) \o FDeep(m[2])) [] OTHER -> FJson(v)
FState(s) == Str(s[1]) \o Cat(Walked(s[2]), LAMBDA m : Str(m[1]) \o FJson(m[2]))
FStates(ss) == Num(Len(ss)) \o Cat(ss, LAMBDA s : FState(s))
RECURSIVE FRule(_), FGen(_), FCategory(_)
FVariants(vs) == Cat(vs, LAMBDA v : Str(v[1]) \o FCategory(v[2]) \o Cat(Walked(v[3]), LAMBDA m : Str(m[1]) \o FGen(m[2])))
FRule(r) == Tag(r[1]) \o (CASE r[1] = "arrayContains" -> FVariants(r[2]) [] r[1] = "regex" -> Str(r[2]) [] OTHER -> <<>>)
FGen(g) == Tag(g[1]) \o (CASE g[1] = "ArrayContains" -> FVariants(g[2]) [] g[1] = "Regex" -> Cat(g[2], LAMBDA x : Str(x)) [] OTHER -> <<>>)
FCategory(c) == Str(c[1]) \o Cat(Walked([k \in DOMAIN c[2] |-> <<c[2][k][1], c[2][k]>>]), LAMBDA m : Str(m[1]) \o Tag(m[2][2]) \o Cat(m[2][3], LAMBDA r : FRule(r)))
FRules(cs) == Cat(Walked([k \in DOMAIN cs |-> <<cs[k][1], cs[k]>>]), LAMBDA m : IF m[2][2] = <<>> THEN <<>> ELSE Str(m[1]) \o FCategory(m[2]))
FGens(cs) == Cat(Walked(cs), LAMBDA c : IF c[2] = <<>> THEN <<>> ELSE Str(c[1]) \o Cat(Walked(c[2]), LAMBDA m : Str(m[1]) \o FGen(m[2])))
FBody(b) == Tag(b[1]) \o (IF b[1] = "present" THEN Num(Len(b[2])) \o Str(b[2]) ELSE <<>>)
FOpt(x) == IF x = <<>> THEN Num(0) ELSE Num(1) \o Str(x[1])
FMulti(h, name(_), value(_)) == IF h = <<>> THEN <<>> ELSE Cat(Walked(h[1]), LAMBDA m : Str(name(m[1])) \o Num(Len(m[2])) \o Cat(m[2], value))
Same(s) == s
FHttp(x, name(_)) == FMulti(x.headers, name, Str) \o FBody(x.body) \o FRules(x.rules) \o FGens(x.gens)
FRequest(r, method, name(_)) == Str(method) \o Str(r.path) \o FMulti(r.query, Same, FOpt) \o FHttp(r, name)
FResponse(r, name(_)) == Num(r.status) \o FHttp(r, name)
FContents(c) == FBody(c.body) \o Cat(Walked(c.metadata), LAMBDA m : Str(m[1]) \o FDeep(m[2])) \o FRules(c.rules) \o FGens(c.gens)
Feed(i) ==
  CASE i.kind = "http3" -> FOpt(i.id) \o Str(i.description) \o FStates(i.states) \o FRequest(i.request, i.request.method, Same) \o FResponse(i.response, Same)
    [] i.kind = "http4" -> Str(i.description) \o FStates(i.states) \o FRequest(i.request, Upper(i.request.method), Lower) \o FResponse(i.response, Lower) \o Tag(i.pending)
    [] i.kind = "async4" -> Str(i.description) \o FStates(i.states) \o FContents(i.contents) \o Tag(i.pending)
    [] OTHER -> Str(i.description) \o FStates(i.states) \o FContents(i.request) \o Num(Len(i.response)) \o Cat(i.response, LAMBDA r : FContents(r)) \o Tag(i.pending)

(* ---------------- putting models together ---------------- *)
A == S("a")
B == S("B")
NoBody == <<"missing">>
Contents0 == [body |-> NoBody, metadata |-> <<>>, rules |-> <<>>, gens |-> <<>>]
Request0 == [method |-> S("get"), path |-> A, query |-> <<>>, headers |-> <<>>, body |-> NoBody, rules |-> <<>>, gens |-> <<>>]
Response0 == [status |-> 200, headers |-> <<>>, body |-> NoBody, rules |-> <<>>, gens |-> <<>>]
Base0 == [kind |-> Kind, id |-> <<>>, key |-> <<>>, description |-> A, states |-> <<>>, pending |-> FALSE]
Base == CASE Kind \in {"http3", "http4"} -> Base0 @@ [request |-> Request0, response |-> Response0]
          [] Kind = "async4" -> Base0 @@ [contents |-> Contents0]
          [] OTHER -> Base0 @@ [request |-> Contents0, response |-> <<>>]
Vals == {<<"n">>, <<"i", 1>>, <<"b", 1>>, <<"s", A>>, <<"f", S("-0.0")>>, <<"f", S("0.0")>>, <<"a", <<<<"i", 1>>, <<"n">>>>>>}
Few == {<<"n">>, <<"i", 1>>, <<"s", A>>}
Keys(ms) == {ms[k][1] : k \in DOMAIN ms}
(* what comes of one more entry in a map, or of another value for one it has *)
Put(ms, k, v) == IF k \in Keys(ms) THEN [n \in DOMAIN ms |-> IF ms[n][1] = k THEN <<k, v>> ELSE ms[n]] ELSE Append(ms, <<k, v>>)
Puts(ms, vs) == {Put(ms, k, v) : k \in {A, B}, v \in vs}
Gens1 == {<<"Regex", <<A>>>>, <<"RandomBoolean">>}
Swap == {<<<<A, <<"RandomBoolean">>>>, <<B, <<"Uuid", <<>>>>>>>>, <<<<B, <<"Uuid", <<>>>>>>, <<A, <<"RandomBoolean">>>>>>}
Rules1 == {<<"type">>, <<"regex", A>>, <<"statusCode", <<"codes", <<1>>>>>>, <<"statusCode", <<"codes", <<2>>>>>>} \cup {<<"arrayContains", <<<<S("0"), <<S("body"), <<>>>>, g>>>>>> : g \in Swap}
CatPuts(cs, f(_)) == {LET at == {n \in DOMAIN cs : cs[n][1] = c} IN IF at = {} THEN Append(cs, <<c, es>>) ELSE [cs EXCEPT ![CHOOSE n \in at : TRUE] = <<c, es>>]
                      : c \in {S("body"), S("path")}, es \in {<<>>} \cup f(<<>>)}
RuleEntries(es) == {Append(es, <<k, l, <<r>>>>) : k \in {A, B}, l \in {"AND", "OR"}, r \in Rules1} \cup {<<<<A, "AND", <<>>>>, <<B, "AND", <<<<"type">>>>>>>>, <<<<B, "AND", <<<<"type">>>>>>, <<A, "AND", <<>>>>>>}
GenEntries(es) == {Append(es, <<k, g>>) : k \in {A, B}, g \in Gens1} \cup Swap
Bodies == {NoBody, <<"empty">>, <<"null">>, <<"present", <<>>>>, <<"present", <<1>>>>}
MultiPuts(h, vs) == {<<Put(IF h = <<>> THEN <<>> ELSE h[1], k, v)>> : k \in {A, B, S("b")}, v \in vs} \cup {<<<<>>>>}
PartSteps(p) == {[p EXCEPT !.body = b] : b \in Bodies} \cup {[p EXCEPT !.rules = r] : r \in CatPuts(p.rules, RuleEntries)} \cup {[p EXCEPT !.gens = g] : g \in CatPuts(p.gens, GenEntries)}
HttpSteps(p) == PartSteps(p) \cup {[p EXCEPT !.headers = h] : h \in MultiPuts(p.headers, {<<>>, <<A>>, <<A, B>>})}
RequestSteps(p) == HttpSteps(p) \cup {[p EXCEPT !.method = m] : m \in {S("GET"), S("a")}} \cup {[p EXCEPT !.path = B]} \cup {[p EXCEPT !.query = q] : q \in MultiPuts(p.query, {<<>>, <<<<>>>>, <<<<A>>>>})}
ResponseSteps(p) == HttpSteps(p) \cup {[p EXCEPT !.status = 1]}
ContentsSteps(p) == PartSteps(p) \cup {[p EXCEPT !.metadata = m] : m \in Puts(p.metadata, Vals)}
Steps(i) ==
  {[i EXCEPT !.description = B], [i EXCEPT !.pending = TRUE], [i EXCEPT !.id = <<A>>], [i EXCEPT !.key = <<A>>], [i EXCEPT !.states = Append(@, <<A, <<>>>>)]}
  \cup (IF i.states = <<>> THEN {} ELSE {[i EXCEPT !.states[Len(i.states)] = <<@[1], ps>>] : ps \in Puts(i.states[Len(i.states)][2], Vals)})
  \cup (IF Kind \in {"http3", "http4"} THEN {[i EXCEPT !.request = r] : r \in RequestSteps(i.request)} \cup {[i EXCEPT !.response = r] : r \in ResponseSteps(i.response)}
        ELSE IF Kind = "async4" THEN {[i EXCEPT !.contents = c] : c \in ContentsSteps(i.contents)}
        ELSE {[i EXCEPT !.request = c] : c \in ContentsSteps(i.request)} \cup {[i EXCEPT !.response = Append(@, Contents0)]}
             \cup (IF i.response = <<>> THEN {} ELSE {[i EXCEPT !.response[Len(i.response)] = c] : c \in ContentsSteps(i.response[Len(i.response)])}))
VARIABLES x, y, n
Init == x = Base /\ y = Base /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ x' \in Steps(x) /\ UNCHANGED y
           \/ y' \in Steps(y) /\ UNCHANGED x
SameWhenEqual == SameHash(Kind, x, y) => Feed(x) = Feed(y)
EqualHashTheSame == Equals(Kind, x, y) => SameHash(Kind, x, y)
DifferentWhenApart == Apart(Kind, x, y) => Feed(x) # Feed(y)
(* what may be the same for every hash is never asked to be different *)
Consistent == SameHash(Kind, x, y) => ~Apart(Kind, x, y)
=============================================================================
