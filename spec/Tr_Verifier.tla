---------------------------- MODULE Tr_Verifier ----------------------------
EXTENDS Verifier, Judge
(* labels as in Tr_Exchange *)
Labelled(ms) == {<<ms[i][1], ms[i][2]>> : i \in DOMAIN ms}
HName(k) == LET x == Lower(k) IN IF StartsWith(x, S("$.")) THEN From(x, 3) ELSE IF StartsWith(x, S("$['")) THEN SubSeq(x, 4, Len(x) - 2) ELSE x
LoweredL(ls) == {IF w[1] = "header" THEN <<"header", HName(w[2])>> ELSE w : w \in ls}
Form == <<"body", FormLabel>>
SameParts(got, want) == IF Form \notin want THEN got = want
                        ELSE want \ {Form} \subseteq got /\ (\E w \in got : w[1] = "body") /\ \A w \in got \ want : w[1] = "body"
SameOutcome(o, want) ==
  CASE want[1] = "refused" -> o[1] = "error"
    [] want[1] = "bad" -> o[1] = "bad" /\ SameParts(LoweredL(Labelled(o[2])), LoweredL(want[2]))
    [] OTHER -> o = want
SameBody(b, want) ==
  CASE want[1] = "none" -> b = <<"none">>
    [] want[1] = "bytes" -> b[1] = "bytes" /\ b[2] = want[2]
    [] OTHER -> b[1] = "bytes" /\ b[3] = <<"ok", want[2]>>
SameCall(c, want) ==
  IF want[1] = "state" THEN c = want
  ELSE c[1] = "request" /\ c[2] = want[2] /\ c[3] = want[3] /\ c[4] = want[4] /\ SameBody(c[5], want[5])
(* a failure in the lists: title, outcome, id; those of pacts that were not loaded are counted *)
NotLoad(fs) == SelectSeq(fs, LAMBDA f : f[1] # S("Failed to load pact"))
SameFailures(e, m, fs, pending) ==
  LET is == FailedOnes(e, m, pending)
      mine == NotLoad(fs) IN
  /\ Len(mine) = Len(is)
  /\ \A i \in DOMAIN is : LET t == m.todo[is[i]] IN
       mine[i][1] = Title(e, t) /\ SameOutcome(mine[i][2], m.outcomes[is[i]]) /\ mine[i][3] = X(e, t).id
  /\ Len(fs) - Len(mine) = IF pending THEN 0 ELSE NotLoaded(e)
(* the JSON form says the same *)
SameJson(js, fs) == /\ Len(js) = Len(fs)
                    /\ \A i \in DOMAIN fs : js[i] = <<fs[i][1], fs[i][2], IF fs[i][3] = <<>> THEN <<>> ELSE fs[i][3][1]>>
(* the failures are printed in their order *)
Heads(hs, fs) == /\ Len(hs) = Len(fs)
                 /\ \A i \in DOMAIN fs : hs[i] = IntStr(i) \o S(") ") \o fs[i][1] \o (IF fs[i][2][1] = "error" THEN S(" - ") \o fs[i][2][2] \o <<10>> ELSE <<>>)
Numbered(n, what) == IF n = 0 THEN <<>> ELSE <<<<10>> \o S("There were ") \o IntStr(n) \o S(what) \o <<10>>>>
Refused(m) == \E i \in DOMAIN m.outcomes : m.outcomes[i][1] = "refused"
AcceptVerifier(e) ==
  e.k = "ok" /\
  LET m == Run(e.env) v == e.env o == e.seen IN
  /\ Len(o.trace) = Len(m.calls) /\ \A i \in DOMAIN m.calls : SameCall(o.trace[i], m.calls[i])
  /\ Len(o.results) = Len(m.outcomes)
  /\ \A i \in DOMAIN m.outcomes :
       LET t == m.todo[i] x == X(v, t) r == o.results[i] IN
       /\ r[1] = x.id /\ r[2] = x.key /\ r[3] = Title(v, t) /\ r[4] = x.desc /\ SameOutcome(r[5], m.outcomes[i]) /\ r[6] = x.pending
  /\ SameFailures(v, m, o.errors, FALSE) /\ SameFailures(v, m, o.pending, TRUE)
  /\ o.result = Success(v, m)
  /\ o.notices = <<>>
  /\ SameJson(o.jsonErrors, o.errors) /\ SameJson(o.jsonPending, o.pending) /\ o.jsonRest
  /\ (Refused(m) \/ o.lines = Report(v, m))
  /\ Heads(o.headsPending, o.pending) /\ Heads(o.headsErrors, o.errors)
  /\ o.numbers = Numbered(Len(o.pending), " non-fatal pact failures on pending pacts or interactions (see docs.pact.io/pending for more information)") \o Numbered(Len(o.errors), " pact failures")
=============================================================================
