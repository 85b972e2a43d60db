---------------------------- MODULE Tr_Exchange ---------------------------
EXTENDS Exchange, Judge
Labelled(ms) == {<<ms[i][1], ms[i][2]>> : i \in DOMAIN ms}
(* where in a form is left open *)
Form == <<"body", FormLabel>>
Same(ms, want) ==
  LET got == Labelled(ms) IN
  IF Form \notin want THEN got = want
  ELSE want \ {Form} \subseteq got /\ (\E w \in got : w[1] = "body") /\ \A w \in got \ want : w[1] = "body"
(* a header is named as in its rules: in lower case, as a path *)
HName(k) == LET x == Lower(k) IN IF StartsWith(x, S("$.")) THEN From(x, 3) ELSE IF StartsWith(x, S("$['")) THEN SubSeq(x, 4, Len(x) - 2) ELSE x
Lowered(ls) == {IF w[1] = "header" THEN <<"header", HName(w[2])>> ELSE w : w \in ls}
LoweredSeq(ms) == [i \in DOMAIN ms |-> IF ms[i][1] = "header" THEN <<"header", HName(ms[i][2])>> ELSE ms[i]]
AcceptExchange(e) ==
  e.k = "ok" /\
  CASE e.op = "request" ->
         LET want == RequestM(e.expected, e.actual)
             places == Cardinality({w \in Labelled(e.wrong) : w[1] \in {"body", "type"}}) IN
         /\ Same(e.wrong, want)
         /\ e.all = (want = {})
         /\ e.mp = (\E w \in want : w[1] \in {"method", "path"})
         /\ e.score = ScoreOf(want, e.expected, e.actual, places)
    [] e.op = "response" -> Same(LoweredSeq(e.wrong), Lowered(ResponseM(e.expected, e.actual)))
    [] e.op = "message3" -> Same(e.wrong, MessageM(e.expected, e.actual))
    [] e.op = "message4" -> Same(e.wrong, MessageM(WithType(e.expected), WithType(e.actual)))
    [] e.op = "sync" -> /\ Same(e.request, MessageM(e.expected.request, e.actual.request))
                        /\ Same(e.responses, ResponsesM(e.expected.responses, e.actual.responses))
                        /\ Same(e.wrong, SyncM(e.expected, e.actual))
=============================================================================
