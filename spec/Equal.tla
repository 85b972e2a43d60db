------------------------------- MODULE Equal ------------------------------
(* When two models are equal, and what the hash of one may depend on.       *)
(* A model is given as it was put together: maps are sequences of pairs in  *)
(* the order in which they were filled. Its content is what is left when    *)
(* that order is taken away; equality and hashes see only the content.      *)
EXTENDS Lib
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]

(* letters of any script have a case: here, ASCII and Latin-1 *)
ULower(s) == [i \in 1..Len(s) |-> IF s[i] \in 192..222 \ {215} THEN s[i] + 32 ELSE ToLower(s[i])]
UUpper(s) == [i \in 1..Len(s) |-> IF s[i] \in 224..254 \ {247} THEN s[i] - 32 ELSE ToUpper(s[i])]

(* ---------------- content ---------------- *)
RECURSIVE Sorted(_)
Sorted(ms) == IF ms = <<>> THEN <<>> ELSE JIns(Sorted(SubSeq(ms, 1, Len(ms) - 1)), ms[Len(ms)][1], ms[Len(ms)][2])
SortedBy(ms, f(_)) == Sorted([k \in DOMAIN ms |-> <<ms[k][1], f(ms[k])>>])
(* 0.0 and -0.0 are the same number *)
Zero == S("0.0")
RECURSIVE NJson(_)
NJson(v) == CASE v[1] = "f" -> IF v[2] = <<45>> \o Zero THEN <<"f", Zero>> ELSE v
              [] v[1] = "a" -> <<"a", [k \in DOMAIN v[2] |-> NJson(v[2][k])]>>
              [] v[1] = "o" -> <<"o", [k \in DOMAIN v[2] |-> <<v[2][k][1], NJson(v[2][k][2])>>]>>
              [] OTHER -> v
NMembers(ms) == SortedBy(ms, LAMBDA m : NJson(m[2]))
NState(s) == <<s[1], NMembers(s[2])>>
RECURSIVE NRule(_), NGen(_), NCategory(_)
NGenMap(ms) == SortedBy(ms, LAMBDA m : NGen(m[2]))
NVariants(vs) == Map(vs, LAMBDA v : <<v[1], NCategory(v[2]), NGenMap(v[3])>>)
NRule(r) == CASE r[1] = "arrayContains" -> <<r[1], NVariants(r[2])>>
              [] r[1] \in {"eachKey", "eachValue"} -> <<r[1], r[2], r[3], Map(r[4], LAMBDA x : NRule(x)), Map(r[5], LAMBDA x : NGen(x)), r[6]>>
              [] OTHER -> r
NGen(g) == IF g[1] = "ArrayContains" THEN <<g[1], NVariants(g[2])>> ELSE g
NRuleList(l) == <<l[1], Map(l[2], LAMBDA r : NRule(r))>>
NCategory(c) == <<c[1], SortedBy(c[2], LAMBDA m : NRuleList(<<m[2], m[3]>>))>>
(* what is empty is as good as absent *)
NonEmpty(m) == m[2] # <<>>
NRules(cs) == SelectSeq(Sorted(Map(cs, LAMBDA c : NCategory(c))), NonEmpty)
NGens(cs) == SelectSeq(SortedBy(cs, LAMBDA c : NGenMap(c[2])), NonEmpty)
(* the type of a body and the hint are notes about it *)
NBody(b) == IF b[1] = "present" THEN <<"present", b[2]>> ELSE <<b[1]>>
NMulti(h) == Map(h, LAMBDA ms : Sorted(ms))                 \* headers or query: none, or some
NContents(c) == <<NBody(c.body), NMembers(c.metadata), NRules(c.rules), NGens(c.gens)>>
NHttp(x) == <<NMulti(x.headers), NBody(x.body), NRules(x.rules), NGens(x.gens)>>
NRequest(r, method) == <<method, r.path, NMulti(r.query)>> \o NHttp(r)
NResponse(r) == <<r.status>> \o NHttp(r)
NStates(ss) == Map(ss, LAMBDA s : NState(s))
(* a V4 interaction is what it describes: its id, comments, plugin configuration, markup and transport
   do not take part *)
NParts4(i) == CASE i.kind = "http4" -> <<NRequest(i.request, UUpper(i.request.method)), NResponse(i.response)>>
                [] i.kind = "async4" -> <<NContents(i.contents)>>
                [] OTHER -> <<NContents(i.request), Map(i.response, LAMBDA r : NContents(r))>>
Described(i) == <<i.kind, i.description, NStates(i.states), i.pending>> \o NParts4(i)
N4(i) == <<i.key, Described(i)>>
NHttp3(i) == <<i.id, i.description, NStates(i.states), NRequest(i.request, i.request.method), NResponse(i.response)>>
NMsg3(i) == <<i.id, i.description, NStates(i.states), NContents(i.contents)>>
NPlugins(ps) == Map(ps, LAMBDA p : <<p[1], p[2], NMembers(p[3])>>)
NPact(p, f(_)) == <<p.consumer, p.provider, Map(p.interactions, f), NMembers(p.metadata), NPlugins(p.plugins), p.version>>

(* the interaction as the V4 model has it *)
V4Of(i) == CASE i.kind = "http3" -> <<<<>>, <<"http4", i.description, NStates(i.states), FALSE, NRequest(i.request, UUpper(i.request.method)), NResponse(i.response)>>>>
             [] i.kind = "msg3" -> <<<<>>, <<"async4", i.description, NStates(i.states), FALSE, NContents(i.contents)>>>>
             [] OTHER -> N4(i)
(* pacts of any model are compared as V4 pacts *)
NBoxed(p) == <<p.consumer, p.provider, Map(p.interactions, LAMBDA i : V4Of(i)), NMembers(p.metadata), NPlugins(p.plugins)>>

Content(kind, x) ==
  CASE kind = "path" -> x
    [] kind = "state" -> NState(x)
    [] kind = "rule" -> NRule(x)
    [] kind = "rulelist" -> NRuleList(x)
    [] kind = "category" -> NCategory(x)
    [] kind = "rules" -> NRules(x)
    [] kind = "generator" -> NGen(x)
    [] kind = "generators" -> NGens(x)
    [] kind = "ct" -> <<x[1], x[2], x[3], Sorted(x[4])>>
    [] kind = "body" -> NBody(x)
    [] kind = "contents" -> NContents(x)
    [] kind = "request3" -> NRequest(x, x.method)
    [] kind = "request4" -> NRequest(x, UUpper(x.method))
    [] kind \in {"response3", "response4"} -> NResponse(x)
    [] kind = "http3" -> NHttp3(x)
    [] kind = "msg3" -> NMsg3(x)
    [] kind \in {"http4", "async4", "sync4", "v4"} -> N4(x)
    [] kind = "pact4" -> NPact(x, LAMBDA i : N4(i))
    [] kind = "pacthttp" -> NPact(x, LAMBDA i : NHttp3(i))
    [] kind = "pactmessage" -> NPact(x, LAMBDA i : NMsg3(i))
    [] OTHER -> NBoxed(x)
Equals(kind, x, y) == Content(kind, x) = Content(kind, y)

(* ---------------- hashes ---------------- *)
V4Kinds == {"http4", "async4", "sync4"}
(* the key of a V4 interaction is made from what it describes *)
SameHash(kind, x, y) == IF kind \in V4Kinds THEN Described(x) = Described(y) ELSE Equals(kind, x, y)

(* What a hash is sure to tell apart: parts of the content, in which a JSON value counts for the scalars
   in it and some rules for their name only. Values that differ in one part only hash differently.
   (Values that differ in more than one may still be the same row of scalars.)                        *)
RECURSIVE Scalars(_)
Scalars(v) == CASE v[1] = "n" -> <<>>
                [] v[1] = "a" -> Flat(Map(v[2], LAMBDA x : Scalars(x)))
                [] v[1] = "o" -> Flat(Map(v[2], LAMBDA m : <<<<"s", m[1]>>>> \o Scalars(m[2])))
                [] OTHER -> <<v>>
Top(v) == IF v[1] \in {"n", "a", "o"} THEN <<>> ELSE <<v>>
SeenMembers(ms, f(_)) == LET n == NMembers(ms) IN Flat(Map(n, LAMBDA m : <<<<"s", m[1]>>>> \o f(m[2])))
SeenState(s) == <<s[1], SeenMembers(s[2], Top)>>
SeenStates(ss) == Map(ss, LAMBDA s : SeenState(s))
RECURSIVE SeenRule(_), SeenCategory(_)
SeenVariants(vs) == Map(vs, LAMBDA v : <<v[1], SeenCategory(v[2]), NGenMap(v[3])>>)
SeenRule(r) == CASE r[1] = "arrayContains" -> <<r[1], SeenVariants(r[2])>>
                 [] r[1] \in {"eachKey", "eachValue", "statusCode"} -> <<r[1]>>
                 [] OTHER -> r
SeenCategory(c) == <<c[1], SortedBy(c[2], LAMBDA m : <<m[2], Map(m[3], LAMBDA r : SeenRule(r))>>)>>
SeenRules(cs) == SelectSeq(Sorted(Map(cs, LAMBDA c : SeenCategory(c))), NonEmpty)
Multi(h) == IF h = <<>> THEN <<>> ELSE Sorted(h[1])
Lowered(ms) == [k \in DOMAIN ms |-> <<ULower(ms[k][1]), ms[k][2]>>]
SeenContents(c) == <<NBody(c.body), SeenMembers(c.metadata, Scalars), SeenRules(c.rules), NGens(c.gens)>>
SeenHttp(x) == <<NBody(x.body), SeenRules(x.rules), NGens(x.gens)>>
SeenRequest4(r) == <<UUpper(r.method), r.path, Multi(r.query), Lowered(Multi(r.headers))>> \o SeenHttp(r)
SeenResponse4(r) == <<r.status, Lowered(Multi(r.headers))>> \o SeenHttp(r)
SeenRequest3(r) == <<r.method, r.path, Multi(r.query), Multi(r.headers)>> \o SeenHttp(r)
SeenResponse3(r) == <<r.status, Multi(r.headers)>> \o SeenHttp(r)
Parts(kind, x) ==
  CASE kind = "path" -> <<x>>
    [] kind = "state" -> SeenState(x)
    [] kind = "rule" -> <<SeenRule(x)>>
    [] kind = "rulelist" -> <<x[1], Map(x[2], LAMBDA r : SeenRule(r))>>
    [] kind = "category" -> SeenCategory(x)
    [] kind = "rules" -> <<SeenRules(x)>>
    [] kind = "generator" -> <<NGen(x)>>
    [] kind = "generators" -> <<NGens(x)>>
    [] kind = "ct" -> <<x[1], x[2], x[3], Sorted(x[4])>>
    [] kind = "body" -> <<NBody(x)>>
    [] kind = "contents" -> SeenContents(x)
    [] kind = "request3" -> SeenRequest3(x)
    [] kind = "request4" -> SeenRequest4(x)
    [] kind = "response3" -> SeenResponse3(x)
    [] kind = "response4" -> SeenResponse4(x)
    [] kind = "http3" -> <<x.id, x.description, SeenStates(x.states)>> \o SeenRequest3(x.request) \o SeenResponse3(x.response)
    [] kind = "http4" -> <<x.description, SeenStates(x.states), x.pending>> \o SeenRequest4(x.request) \o SeenResponse4(x.response)
    [] kind = "async4" -> <<x.description, SeenStates(x.states), x.pending>> \o SeenContents(x.contents)
    [] OTHER -> <<x.description, SeenStates(x.states), x.pending>> \o SeenContents(x.request) \o <<Map(x.response, LAMBDA r : SeenContents(r))>>
Apart(kind, x, y) == LET p == Parts(kind, x) q == Parts(kind, y) IN Cardinality({k \in DOMAIN p : p[k] # q[k]}) = 1
=============================================================================
