------------------------------- MODULE Verifier ---------------------------
(* Verifying a provider: for every interaction of the pacts the provider    *)
(* states are set up, the request is made, the response is compared and the *)
(* states are torn down. A state machine whose every step makes one call to *)
(* the outside world (or none) and receives the answer.                     *)
EXTENDS Exchange
EX == INSTANCE Expr

(* ---- which interactions ---- *)
(* sources: <<"pact", number>>, <<"bad">> or <<"dir", entries>>, where an entry is one of the first two or <<"sub", entries>> *)
RECURSIVE Within(_)
Within(ns) == Flat([i \in DOMAIN ns |-> IF ns[i][1] = "sub" THEN Within(ns[i][2]) ELSE <<ns[i]>>])
(* of a directory only the pacts with this provider *)
Loaded(e) == Flat([i \in DOMAIN e.sources |->
               IF e.sources[i][1] # "dir" THEN <<e.sources[i]>>
               ELSE SelectSeq(Within(e.sources[i][2]), LAMBDA n : n[1] = "bad" \/ e.pacts[n[2]].provider = e.provider.name)])
NotLoaded(e) == Len(SelectSeq(Loaded(e), LAMBDA n : n[1] = "bad"))
Pacts(e) == LET ns == SelectSeq(Loaded(e), LAMBDA n : n[1] = "pact" /\ (e.consumers = <<>> \/ \E i \in DOMAIN e.consumers : e.consumers[i] = e.pacts[n[2]].consumer)) IN
            [i \in DOMAIN ns |-> ns[i][2]]
Finds(re, t) == RE!Ends(re, t, 1..Len(t) + 1) # {}
Wanted(f, x) == /\ \/ f.desc = <<>> \/ Finds(f.desc[1], x.desc)
                /\ \/ f.state = <<>>
                   \/ f.state[1][1] = "none" /\ x.states = <<>>
                   \/ f.state[1][1] = "re" /\ \E i \in DOMAIN x.states : Finds(f.state[1][2], x.states[i][1])
Chosen(e, p) == SelectSeq([i \in DOMAIN e.pacts[p].interactions |-> <<p, i>>], LAMBDA t : Wanted(e.filter, e.pacts[p].interactions[t[2]]))
Todo(e) == Flat([i \in DOMAIN Pacts(e) |-> Chosen(e, Pacts(e)[i])])
X(e, t) == e.pacts[t[1]].interactions[t[2]]
HttpKind(x) == x.kind \in {"http3", "http4"}

(* ---- calls ---- *)
RECURSIVE TrimSl(_), TrimSlEnd(_)
TrimSl(s) == IF s # <<>> /\ Head(s) = 47 THEN TrimSl(Tail(s)) ELSE s
TrimSlEnd(s) == IF s # <<>> /\ s[Len(s)] = 47 THEN TrimSlEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
JoinPath(base, path) == LET p == IF path \in {<<>>, S("/")} THEN TrimSlEnd(base) ELSE TrimSlEnd(base) \o <<47>> \o TrimSl(path) IN
                        IF p = <<>> THEN <<47>> ELSE p
Pct2(bs) == Flat([i \in DOMAIN bs |-> <<37, CT!HexUp(bs[i] \div 16), CT!HexUp(bs[i] % 16)>>])
PathEnc(s) == Flat([i \in DOMAIN s |-> IF s[i] <= 32 \/ s[i] >= 127 \/ s[i] \in {34, 60, 62, 96, 123, 125} THEN Pct2(CT!Utf8Of(s[i])) ELSE <<s[i]>>])
FormEnc(s) == Flat([i \in DOMAIN s |-> IF s[i] = 32 THEN <<43>> ELSE IF IsAlnum(s[i]) \/ s[i] \in {42, 45, 46, 95} THEN <<s[i]>> ELSE Pct2(CT!Utf8Of(s[i]))])
ByName(m) == SortSeq(m, LAMBDA a, b : Cmp(a[1], b[1]) < 0)
QueryText(q) == JoinWith(Flat([i \in DOMAIN ByName(q) |-> LET kv == ByName(q)[i] IN [j \in DOMAIN kv[2] |-> FormEnc(kv[1]) \o <<61>> \o FormEnc(kv[2][j])]]), <<38>>)
UrlOf(scheme, host, port, base, path, query) ==
  scheme \o S("://") \o host \o (IF port = <<>> \/ port = <<80>> THEN <<>> ELSE <<58>> \o IntStr(port[1])) \o PathEnc(JoinPath(base, path))
  \o (LET q == QueryText(query) IN IF q = <<>> THEN <<>> ELSE <<63>> \o q)
(* over which transport: the one the interaction names, else the usual ones; the provider itself if there is none *)
Usual(x) == IF x.transport # <<>> THEN {x.transport[1]}
            ELSE CASE HttpKind(x) -> {S("http")}
                   [] x.kind = "sync4" -> {S("message"), S("sync-message")}
                   [] OTHER -> {S("message"), S("async-message")}
Target(e, x, path, query) ==
  LET ts == SelectSeq(e.provider.transports, LAMBDA t : t.transport \in Usual(x)) IN
  IF ts = <<>> THEN UrlOf(e.provider.protocol, e.provider.host, e.provider.port, e.provider.path, path, query)
  ELSE UrlOf(IF ts[1].scheme = <<>> THEN S("http") ELSE ts[1].scheme[1], e.provider.host, ts[1].port, IF ts[1].path = <<>> THEN <<>> ELSE ts[1].path[1], path, query)

(* the values provider states give: of their parameters, then of what setting them up returned *)
FromJ(v) == CASE v[1] \in {"i", "f"} -> <<"d", JT!PrintJson(v)>> [] v[1] \in {"a", "o"} -> <<"j", JT!PrintJson(v)>> [] OTHER -> v
ToJ(v) == IF v[1] \in {"d", "j"} THEN JT!ParseJson(v[2])[2] ELSE v
SetVal(ctx, k, v) == Append(SelectSeq(ctx, LAMBDA kv : kv[1] # k), <<k, v>>)
RECURSIVE SetVals(_, _)
SetVals(ctx, kvs) == IF kvs = <<>> THEN ctx ELSE SetVals(SetVal(ctx, Head(kvs)[1], FromJ(Head(kvs)[2])), Tail(kvs))
Params(x) == SetVals(<<>>, Flat([i \in DOMAIN x.states |-> x.states[i][2]]))

(* the request with its generated parts *)
GensIn(x, cat) == SelectSeq(x.request.gens, LAMBDA g : g[1] = cat)
NewText(g, ctx, old) == LET v == EX!Lookup(g[3], ctx) IN IF v = EX!Fail THEN old ELSE EX!TextOf(v[2])
HasKey(m, k) == \E i \in DOMAIN m : m[i][1] = k
GenPath(x, ctx) == LET gs == GensIn(x, "path") IN IF gs = <<>> THEN x.request.path ELSE NewText(gs[1], ctx, x.request.path)
(* names that are not there are added; a generated header has one value *)
RECURSIVE GenNamed(_, _, _, _)
GenNamed(m, gs, ctx, one) ==
  IF gs = <<>> THEN m
  ELSE LET g == Head(gs)
           v == EX!Lookup(g[3], ctx)
           t == EX!TextOf(v[2]) IN
       GenNamed(IF v = EX!Fail THEN m
                ELSE IF HasKey(m, g[2]) THEN [i \in DOMAIN m |-> IF m[i][1] = g[2] THEN <<g[2], IF one THEN <<t>> ELSE [j \in DOMAIN m[i][2] |-> t]>> ELSE m[i]]
                ELSE Append(m, <<g[2], <<t>>>>), Tail(gs), ctx, one)
GenBody(x, ctx) ==
  LET b == x.request.body
      New(kv) == LET gs == SelectSeq(GensIn(x, "body"), LAMBDA g : g[2] = kv[1])
                     v == IF gs = <<>> THEN EX!Fail ELSE EX!Lookup(gs[1][3], ctx) IN
                 IF v = EX!Fail THEN kv ELSE <<kv[1], ToJ(v[2])>> IN
  IF b[1] = "json" /\ b[2][1] = "o" THEN <<"json", <<"o", [i \in DOMAIN b[2][2] |-> New(b[2][2][i])]>>>> ELSE b
(* headers: names in lower case; custom ones take the place of those of the request *)
LowerName(m) == [i \in DOMAIN m |-> <<Lower(m[i][1]), m[i][2]>>]
Kept(e, hs) == SelectSeq(hs, LAMBDA h : h[2] # <<>> /\ ~HasKey(LowerName(e.custom), Lower(h[1])))
AllHeaders(e, hs) == ByName(LowerName(Kept(e, hs)) \o [i \in DOMAIN e.custom |-> <<Lower(e.custom[i][1]), <<e.custom[i][2]>>>>])
ValueChar(c) == c = 9 \/ (c >= 32 /\ c # 127)
GoodHeader(n, vs) == CT!Token(n) /\ \A j \in DOMAIN vs : \A k \in DOMAIN vs[j] : ValueChar(vs[j][k])
GoodCustom(e) == \A i \in DOMAIN e.custom : GoodHeader(e.custom[i][1], <<e.custom[i][2]>>)
(* to a request of the verifier itself they are only added *)
OwnHeaders(e, hs) == ByName(hs \o SelectSeq([i \in DOMAIN e.custom |-> <<Lower(e.custom[i][1]), <<e.custom[i][2]>>>>], LAMBDA h : ~HasKey(hs, h[1])))
(* a filter that adds a header with the method it sees *)
Filtered(e, hs, method) == IF e.reqfilter THEN Append(hs, <<S("X-Seen"), <<method>>>>) ELSE hs
Json == <<"s", S("application/json")>>
JsonHeader == <<S("content-type"), <<S("application/json")>>>>
ObjOf(ms) == <<"o", SelectSeq(ms, LAMBDA kv : kv # <<>>)>>
StatesJson(x) == <<"a", [i \in DOMAIN x.states |-> ObjOf(<<<<S("name"), <<"s", x.states[i][1]>>>>, IF x.states[i][2] = <<>> THEN <<>> ELSE <<S("params"), <<"o", x.states[i][2]>>>>>>)]>>
AskBody(x) == <<"json", ObjOf(<<<<S("description"), <<"s", x.desc>>>>,
                               IF x.states = <<>> THEN <<>> ELSE <<S("providerStates"), StatesJson(x)>>,
                               IF x.kind = "sync4" THEN <<S("request"), x.ask>> ELSE <<>>>>)>>
HttpHeaders(e, x, ctx) == Filtered(e, GenNamed(x.request.headers, GensIn(x, "header"), ctx, TRUE), Upper(x.request.method))
Requestable(e, x, ctx) == HttpKind(x) => \A i \in DOMAIN Kept(e, HttpHeaders(e, x, ctx)) : LET h == Kept(e, HttpHeaders(e, x, ctx))[i] IN GoodHeader(h[1], h[2])
RequestCall(e, x, ctx) ==
  IF HttpKind(x)
  THEN <<"request", Upper(x.request.method), Target(e, x, GenPath(x, ctx), GenNamed(x.request.query, GensIn(x, "query"), ctx, FALSE)),
         AllHeaders(e, HttpHeaders(e, x, ctx)), GenBody(x, ctx)>>
  ELSE <<"request", S("POST"), Target(e, x, S("/"), <<>>), AllHeaders(e, Filtered(e, <<JsonHeader>>, S("POST"))), AskBody(x)>>

(* provider states: a handler that is called, or one behind a URL *)
StatesOf(x) == IF x.states = <<>> THEN <<<<<<>>, <<>>>>>> ELSE x.states
Action(setup) == IF setup THEN S("setup") ELSE S("teardown")
SplitUrl(e) == e.states.url[1]            \* host, port and path of the URL
StateQuery(st, setup) == [i \in DOMAIN st[2] |-> <<st[2][i][1], <<IF st[2][i][2][1] = "s" THEN st[2][i][2][2] ELSE JT!PrintJson(st[2][i][2])>>>>]
                         \o <<<<S("action"), <<Action(setup)>>>>, <<S("state"), <<st[1]>>>>>>
StateCall(e, x, k, setup) ==
  LET st == StatesOf(x)[k] IN
  IF ~e.states.http THEN <<"state", x.id, st[1], st[2], setup>>
  ELSE IF e.states.url = <<>> THEN <<"none">>
  ELSE LET u == SplitUrl(e) IN
       IF e.states.body
       THEN <<"request", S("POST"), UrlOf(S("http"), u.host, u.port, u.path, <<>>, <<>>), OwnHeaders(e, <<JsonHeader>>),
              <<"json", <<"o", <<<<S("action"), <<"s", Action(setup)>>>>, <<S("params"), <<"o", st[2]>>>>, <<S("state"), <<"s", st[1]>>>>>>>>>>>>
       ELSE <<"request", S("POST"), UrlOf(S("http"), u.host, u.port, u.path, <<>>, StateQuery(st, setup)), OwnHeaders(e, <<>>), <<"none">>>>
(* what a reply to it means: <<"ok", values>>, <<"again">> or <<"err">> *)
HasType(hs) == HasKey(LowerName(hs), S("content-type"))
TypeText(hs) == LET l == LowerName(hs) IN l[CHOOSE i \in DOMAIN l : l[i][1] = S("content-type")][2][1]
JsonReply(r) == HasType(r[3]) /\ LET c == CT!ParseCt(TypeText(r[3])) IN CT!IsSome(c) /\ CT!IsJsonCt(c[2])
StateAnswer(e, a, sent) ==
  IF ~e.states.http THEN a
  ELSE IF a[1] = "err" THEN <<"err">>
  ELSE IF a[2] \in 500..599 THEN (IF sent + 1 < Max2(e.states.retries, 1) THEN <<"again">> ELSE <<"err">>)
  ELSE IF a[2] \notin 200..299 THEN <<"err">>
  ELSE LET v == IF JsonReply(a) THEN JT!ParseBytes(a[4]) ELSE <<"no">> IN
       <<"ok", IF v[1] = "ok" /\ v[2][1] = "o" THEN v[2][2] ELSE <<>>>>

(* ---- the outcome: <<"ok">>, <<"bad", parts>>, <<"error", text>> or <<"refused">> with a text that is left open ---- *)
Split1(n, vs) == Flat([i \in DOMAIN vs |-> LET ts == CT!ParseHeader(n, vs[i]) IN [j \in DOMAIN ts |-> Trim(ts[j])]])
ActualHeaders(hs) == [i \in DOMAIN hs |-> <<Lower(hs[i][1]), Split1(hs[i][1], hs[i][2])>>]
Unruled == [path |-> <<>>, query |-> <<>>, header |-> <<>>, body |-> <<>>, status |-> <<>>, metadata |-> <<>>]
TypeOfHeaders(hs) == LET t == IF CT!HasHdr(hs, S("content-type")) THEN <<TRUE, CT!HdrText(hs, S("content-type"))>> ELSE <<FALSE>> IN t
ActualBody(r) == IF r[4] = <<>> THEN <<"empty">> ELSE <<"present", r[4], CT!Declared(TypeOfHeaders(ActualHeaders(r[3]))), "">>
ActualResponse(r) == [status |-> r[2], headers |-> ActualHeaders(r[3]), body |-> ActualBody(r), rules |-> Unruled]
MetaHeader == S("pact-message-metadata")
GivenMeta(hs) ==
  IF ~CT!HasHdr(hs, MetaHeader) \/ CT!HdrVals(hs, MetaHeader) = <<>> THEN <<>>
  ELSE LET t == CT!HdrVals(hs, MetaHeader)[1]
           v == IF JT!IsBase64(t) THEN JT!ParseBytes(JT!FromBase64(t)) ELSE <<"no">> IN
       IF v[1] = "ok" /\ v[2][1] = "o" THEN v[2][2] ELSE <<>>
ActualMessage(r) ==
  LET hs == ActualHeaders(r[3])
      ct == <<S("contentType"), <<"s", IF TypeOfHeaders(hs)[1] THEN TypeOfHeaders(hs)[2] ELSE <<>>>>>>
      given == GivenMeta(hs) IN
  [body |-> ActualBody(r), meta |-> IF HasKey(given, S("contentType")) THEN given ELSE Append(given, ct), rules |-> Unruled]
Verdict(bad) == IF bad = {} THEN <<"ok">> ELSE <<"bad", bad>>
Outcome(x, a) ==
  IF a[1] = "err" THEN <<"error", a[2]>>
  ELSE CASE HttpKind(x) -> Verdict(ResponseM(x.response, ActualResponse(a)))
         [] x.kind = "async3" -> Verdict(MessageM(x.contents, ActualMessage(a)))
         [] x.kind = "async4" -> Verdict(MessageM(WithType(x.contents), ActualMessage(a)))
         [] OTHER -> IF a[2] \in 200..399 THEN Verdict(ResponsesM(x.responses, <<ActualMessage(a)>>))
                     ELSE <<"error", S("Request to fetch message from provider failed: status ") \o IntStr(a[2])>>
Failed(setup) == <<"error", S("One or more of the ") \o Action(setup) \o S(" state change handlers has failed")>>

(* ---- the machine ---- *)
(* n: interaction; ph: phase; k: provider state; sent: requests sent for it; fine: no state has failed *)
Start(e) == [todo |-> Todo(e), n |-> 1, ph |-> "begin", k |-> 1, sent |-> 0, fine |-> TRUE, got |-> <<>>, out |-> <<"none">>, calls |-> <<>>, outcomes |-> <<>>]
Over(e, m) == m.n > Len(m.todo)
Now(e, m) == X(e, m.todo[m.n])
Ctx(x, m) == SetVals(Params(x), m.got)
Call(e, m) ==
  LET x == Now(e, m) IN
  CASE m.ph = "begin" -> <<"none">>
    [] m.ph \in {"setup", "teardown"} -> StateCall(e, x, m.k, m.ph = "setup")
    [] OTHER -> IF Requestable(e, x, Ctx(x, m)) THEN RequestCall(e, x, Ctx(x, m)) ELSE <<"none">>
Finish(m, out) == [m EXCEPT !.n = @ + 1, !.ph = "begin", !.outcomes = Append(@, out), !.got = <<>>]
Enter(m, ph) == [m EXCEPT !.ph = ph, !.k = 1, !.sent = 0, !.fine = TRUE]
(* one provider state is done *)
StateDone(e, m, x, r) ==
  LET fine == m.fine /\ r[1] = "ok"
      got == IF r[1] = "ok" /\ m.ph = "setup" THEN m.got \o r[2] ELSE m.got
      m2 == [m EXCEPT !.fine = fine, !.got = got, !.sent = 0] IN
  IF m.k < Len(StatesOf(x)) THEN [m2 EXCEPT !.k = @ + 1]
  ELSE IF ~fine THEN Finish(m2, Failed(m.ph = "setup"))
  ELSE IF m.ph = "setup" THEN Enter(m2, "request") ELSE Finish(m2, m.out)
Advance(e, m0, a) ==
  LET x == Now(e, m0)
      c == Call(e, m0)
      m == IF c[1] = "none" THEN m0 ELSE [m0 EXCEPT !.calls = Append(@, c)] IN
  CASE m.ph = "begin" -> IF GoodCustom(e) THEN Enter(m, "setup") ELSE Finish(m, <<"refused">>)
    [] m.ph \in {"setup", "teardown"} ->
         LET r == IF c[1] = "none" THEN <<"ok", <<>>>> ELSE StateAnswer(e, a, m.sent) IN
         IF r[1] = "again" THEN [m EXCEPT !.sent = @ + 1] ELSE StateDone(e, m, x, r)
    [] OTHER -> LET out == IF c[1] = "none" THEN <<"refused">> ELSE Outcome(x, a) IN
                IF e.teardown THEN [Enter(m, "teardown") EXCEPT !.out = out] ELSE Finish(m, out)
(* its run when the answers are given: those of the handler of provider states, and those to requests *)
Given(e, c, na, nr) == IF c[1] = "state" THEN (IF na < Len(e.answers) THEN e.answers[na + 1] ELSE <<"ok", <<>>>>)
                       ELSE IF c[1] = "none" THEN <<"none">>
                       ELSE IF nr < Len(e.replies) THEN e.replies[nr + 1] ELSE <<"err", S("no more answers")>>
RECURSIVE Go(_, _, _, _)
Go(e, m, na, nr) ==
  IF Over(e, m) THEN m
  ELSE LET c == Call(e, m) IN
       Go(e, Advance(e, m, Given(e, c, na, nr)), na + (IF c[1] = "state" THEN 1 ELSE 0), nr + (IF c[1] = "request" THEN 1 ELSE 0))
Run(e) == Go(e, Start(e), 0, 0)

(* ---- the report ---- *)
Between(e, p) == S("Verifying a pact between ") \o e.pacts[p].consumer \o S(" and ") \o e.pacts[p].provider
StateText(x) == Flat([i \in DOMAIN x.states |-> (IF i = 1 THEN S(" Given ") ELSE S(" And ")) \o x.states[i][1]])
Title(e, t) == Between(e, t[1]) \o StateText(X(e, t)) \o S(" - ") \o X(e, t).desc
Passed(o) == o[1] = "ok"
(* the interactions that failed and count, and those that failed and are pending *)
FailedOnes(e, m, pending) == SelectSeq([i \in DOMAIN m.outcomes |-> i], LAMBDA i : ~Passed(m.outcomes[i]) /\ X(e, m.todo[i]).pending = pending)
Success(e, m) == NotLoaded(e) = 0 /\ FailedOnes(e, m, FALSE) = <<>>

(* the lines for one interaction *)
Mark(ok) == IF ok THEN S("OK") ELSE S("FAILED")
InQuotes(t) == <<34>> \o t \o <<34>>
BadIn(o, kinds) == o[1] = "bad" /\ \E w \in o[2] : w[1] \in kinds
BadName(o, kind, name) == o[1] = "bad" /\ \E w \in o[2] : w[1] = kind /\ Lower(w[2]) = Lower(name)
Lines(ls) == SortSeq(ls, LAMBDA a, b : Cmp(a, b) < 0)
HeaderLines(hs, o) == Lines([i \in DOMAIN hs |-> S("        ") \o InQuotes(hs[i][1]) \o S(" with value ") \o InQuotes(JoinWith(hs[i][2], S(", "))) \o S(" (") \o Mark(~BadName(o, "header", hs[i][1])) \o S(")")])
MetaLines(ms, o) == Lines([i \in DOMAIN ms |-> S("        ") \o InQuotes(ms[i][1]) \o S(" with value ") \o JT!PrintJson(ms[i][2]) \o S(" (") \o Mark(~BadName(o, "meta", ms[i][1])) \o S(")")])
BodyLine(o) == S("      has a matching body (") \o Mark(~BadIn(o, {"body", "type"})) \o S(")")
MessageLines(ms, o) == <<S("    generates a message which")>> \o (IF ms = <<>> THEN <<>> ELSE <<S("      includes metadata")>> \o MetaLines(ms, o)) \o <<BodyLine(o)>>
OutcomeLines(x, o) ==
  IF o[1] = "error" THEN <<S("      Request Failed - ") \o o[2]>>
  ELSE CASE HttpKind(x) -> <<S("    returns a response which"), S("      has status code ") \o IntStr(x.response.status) \o S(" (") \o Mark(~BadIn(o, {"status"})) \o S(")")>>
                           \o (IF x.response.headers = <<>> THEN <<>> ELSE <<S("      includes headers")>> \o HeaderLines(x.response.headers, o)) \o <<BodyLine(o)>>
         [] x.kind = "sync4" -> IF Passed(o) THEN Flat([i \in DOMAIN x.responses |-> MessageLines(x.responses[i].meta, o)])
                                ELSE MessageLines(IF x.responses = <<>> THEN <<>> ELSE x.responses[1].meta, o)
         [] OTHER -> MessageLines((IF x.kind = "async4" THEN WithType(x.contents) ELSE x.contents).meta, o)
InteractionLines(x, o) ==
  <<<<>>, S("  ") \o x.desc \o (IF x.pending THEN S(" [PENDING]") ELSE <<>>)>>
  \o [i \in DOMAIN x.states |-> (IF i = 1 THEN S("     Given ") ELSE S("     And ")) \o x.states[i][1]]
  \o (IF x.testname = <<>> THEN <<>> ELSE <<<<10>> \o S("  Test Name: ") \o x.testname>>)
  \o (IF x.comments = <<>> THEN <<>> ELSE <<<<10>> \o S("  Comments:")>> \o x.comments \o <<<<>>>>)
  \o OutcomeLines(x, o)
First(e, i) == Len(Flat([j \in 1..i - 1 |-> Chosen(e, Pacts(e)[j])]))
PactLines(e, m, i) ==
  LET p == Pacts(e)[i]
      ts == Chosen(e, p) IN
  <<<<10>> \o Between(e, p)>>
  \o (IF e.pacts[p].interactions = <<>> THEN <<S("WARNING: Pact file has no interactions")>>
      ELSE Flat([j \in DOMAIN ts |-> InteractionLines(X(e, ts[j]), m.outcomes[First(e, i) + j])]) \o <<<<>>>>)
Report(e, m) == Flat([i \in DOMAIN Pacts(e) |-> PactLines(e, m, i)])
=============================================================================
