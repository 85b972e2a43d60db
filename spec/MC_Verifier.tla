----------------------------- MODULE MC_Verifier --------------------------
(* Every way in which the outside world can answer while a provider is      *)
(* verified, for small pacts of every kind of interaction: what the machine *)
(* promises whatever the answers are.                                       *)
EXTENDS Verifier, Json
CONSTANTS MaxInteractions, MaxStates, Kinds, Modes, Cut, Emit
None == <<>>
Id == S("id")
Key == <<<<S("key"), <<"s", S("v")>>>>>>
Unmatched == [path |-> None, query |-> None, header |-> None, body |-> None, status |-> None, metadata |-> None]
Letter == [body |-> <<"missing">>, meta |-> Key, rules |-> Unmatched]
Base(sh, i) == [kind |-> sh[1], id |-> None, key |-> None, desc |-> <<96 + i>>, pending |-> sh[3], testname |-> None, comments |-> None, transport |-> None,
                states |-> [k \in 1..sh[2] |-> <<<<96 + i, 48 + k>>, <<<<Id, <<"i", k>>>>>>>>]]
Inter(sh, i) ==
  CASE sh[1] = "http4" -> Base(sh, i) @@ [request |-> [method |-> S("GET"), path |-> S("/"), query |-> None, headers |-> None, body |-> <<"none">>, gens |-> <<<<"path", None, S("/u/${id}")>>>>],
                                          response |-> [status |-> 200, headers |-> None, body |-> <<"missing">>, rules |-> Unmatched]]
    [] sh[1] = "sync4" -> Base(sh, i) @@ [ask |-> <<"o", None>>, responses |-> <<Letter>>]
    [] OTHER -> Base(sh, i) @@ [contents |-> Letter]
(* how provider states are set up: by a call, or behind a URL with so many attempts *)
ModeRec(mo) == CASE mo = "call" -> [http |-> FALSE, url |-> None, body |-> FALSE, retries |-> 0]
                 [] mo = "nourl" -> [http |-> TRUE, url |-> None, body |-> FALSE, retries |-> 0]
                 [] mo = "once" -> [http |-> TRUE, url |-> <<[host |-> S("sc"), port |-> <<9000>>, path |-> S("/s")]>>, body |-> FALSE, retries |-> 0]
                 [] OTHER -> [http |-> TRUE, url |-> <<[host |-> S("sc"), port |-> <<9000>>, path |-> S("/s")]>>, body |-> TRUE, retries |-> 2]
Env(shs, mo, td) ==
  [provider |-> [name |-> S("P"), protocol |-> S("http"), host |-> S("h"), port |-> None, path |-> S("/"), transports |-> None],
   sources |-> <<<<"pact", 1>>>>, pacts |-> <<[consumer |-> S("C"), provider |-> S("P"), interactions |-> [i \in DOMAIN shs |-> Inter(shs[i], i)]]>>,
   filter |-> [desc |-> None, state |-> None], consumers |-> None, custom |-> None, reqfilter |-> FALSE, teardown |-> td, states |-> ModeRec(mo), answers |-> None, replies |-> None]
Shapes == {<<kd, n, pe>> : kd \in Kinds, n \in 0..MaxStates, pe \in BOOLEAN}

JsonType == <<<<S("Content-Type"), <<S("application/json")>>>>>>
Meta(v) == <<<<S("Pact-Message-Metadata"), <<S(v)>>>>>>
Right(x) == IF HttpKind(x) THEN <<"ok", 200, None, None>> ELSE <<"ok", 200, Meta("eyJrZXkiOiJ2In0="), None>>
Wrong(x) == IF HttpKind(x) THEN <<"ok", 201, None, None>> ELSE <<"ok", 200, Meta("eyJrZXkiOiJ3In0="), None>>
(* the answers to a call, by name *)
Answer(e, x, ph, nm) ==
  CASE ph = "request" /\ nm = "right" -> Right(x)
    [] ph = "request" /\ nm = "wrong" -> Wrong(x)
    [] nm = "cut" -> <<"err", S("cut")>>
    [] nm = "s404" -> <<"ok", 404, None, None>>
    [] nm = "s503" -> <<"ok", 503, None, None>>
    [] nm = "no" -> <<"err">>
    [] nm = "yes" /\ e.states.http -> <<"ok", 200, JsonType, S("{\"id\":7}")>>
    [] OTHER -> <<"ok", <<<<Id, <<"i", 7>>>>>>>>
AnsNames(e, x, ph) ==
  CASE ph = "request" -> {"right", "wrong"} \cup (IF Cut THEN {"cut"} ELSE {}) \cup (IF x.kind = "sync4" THEN {"s404"} ELSE {})
    [] e.states.http -> {"yes", "s404", "s503"} \cup (IF Cut THEN {"cut"} ELSE {})
    [] OTHER -> {"yes", "no"}

VARIABLES shape, mode, tear, m, log
vars == <<shape, mode, tear, m, log>>
E == Env(shape, mode, tear)
Init == /\ \E len \in 1..MaxInteractions : shape \in [1..len -> Shapes]
        /\ mode \in Modes /\ tear \in BOOLEAN
        /\ m = Start(E) /\ log = <<>>
Do == /\ ~Over(E, m)
      /\ UNCHANGED <<shape, mode, tear>>
      /\ LET c == Call(E, m) IN
         IF c[1] = "none" THEN m' = Advance(E, m, <<"none">>) /\ log' = log
         ELSE \E nm \in AnsNames(E, Now(E, m), m.ph) :
                /\ m' = Advance(E, m, Answer(E, Now(E, m), m.ph, nm))
                /\ log' = Append(log, [n |-> m.n, ph |-> m.ph, k |-> m.k, nm |-> nm])
Next == Do
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == Over(E, m)
Emitting == Done /\ Emit => PrintT("VEC " \o ToJson([shape |-> shape, mode |-> mode, tear |-> tear, log |-> [i \in DOMAIN log |-> <<log[i].n, log[i].ph, log[i].nm>>]]))

Of(n, ph) == SelectSeq(log, LAMBDA r : r.n = n /\ r.ph = ph)
Ks(rs) == {rs[i].k : i \in DOMAIN rs}
LastName(n, ph, k) == LET rs == SelectSeq(Of(n, ph), LAMBDA r : r.k = k) IN rs[Len(rs)].nm
AllK(n) == 1..Max2(shape[n][2], 1)
Calls(n) == mode # "nourl"
Set(n, ph) == IF mode = "nourl" THEN TRUE ELSE \A k \in AllK(n) : k \in Ks(Of(n, ph)) /\ LastName(n, ph, k) = "yes"
Fin == 1..m.n - 1                     \* the interactions that are finished
(* what is asked for, it is asked for in the order of the pact, and for one interaction: set up, request, tear down *)
Rank(ph) == CASE ph = "setup" -> 1 [] ph = "request" -> 2 [] OTHER -> 3
InOrder == \A i \in 1..Len(log) - 1 : LET a == log[i] b == log[i + 1] IN
             \/ a.n < b.n
             \/ a.n = b.n /\ (Rank(a.ph) < Rank(b.ph) \/ (a.ph = b.ph /\ a.ph # "request" /\ a.k <= b.k /\ b.k <= a.k + 1))
(* one result for each interaction, whatever happens to the others *)
OneResult == Len(m.outcomes) = m.n - 1 /\ m.n <= Len(shape) + 1
(* the request is made once if all provider states were set up, and not at all otherwise *)
RequestOnce == \A n \in Fin : Len(Of(n, "request")) = IF Set(n, "setup") THEN 1 ELSE 0
(* every provider state is set up, also when another one failed *)
AllSetUp == \A n \in Fin : mode # "nourl" => Ks(Of(n, "setup")) = AllK(n)
(* every provider state is torn down after the request if that was asked for, and only then *)
AllTornDown == \A n \in Fin : IF tear /\ mode # "nourl" /\ Set(n, "setup") THEN Ks(Of(n, "teardown")) = AllK(n) ELSE Of(n, "teardown") = <<>>
(* attempts: again only after a 5xx, and never more than are allowed *)
Tries == \A i \in DOMAIN log : log[i].ph # "request" =>
           Len(SelectSeq(log, LAMBDA r : r.n = log[i].n /\ r.ph = log[i].ph /\ r.k = log[i].k)) <= Max2(ModeRec(mode).retries, 1)
AgainOnly == \A i \in 1..Len(log) - 1 : (log[i].ph # "request" /\ log[i].n = log[i + 1].n /\ log[i].ph = log[i + 1].ph /\ log[i].k = log[i + 1].k) => log[i].nm = "s503"
(* the outcome says what happened *)
Truth == \A n \in Fin :
  LET o == m.outcomes[n] IN
  /\ Passed(o) <=> Set(n, "setup") /\ Of(n, "request")[1].nm = "right" /\ (tear => Set(n, "teardown"))
  /\ o = Failed(TRUE) <=> ~Set(n, "setup")
  /\ o = Failed(FALSE) <=> Set(n, "setup") /\ tear /\ ~Set(n, "teardown")
(* verification succeeds if every interaction does that is not pending *)
Verdicts == Done => (Success(E, m) <=> \A n \in DOMAIN shape : shape[n][3] \/ Passed(m.outcomes[n]))
(* no pending failure is reported as a failure, and no failure is forgotten *)
Listed == Done => LET f == FailedOnes(E, m, FALSE) p == FailedOnes(E, m, TRUE) IN
            /\ {f[i] : i \in DOMAIN f} \cup {p[i] : i \in DOMAIN p} = {n \in DOMAIN shape : ~Passed(m.outcomes[n])}
            /\ \A i \in DOMAIN p : shape[p[i]][3]
            /\ \A i \in DOMAIN f : ~shape[f[i]][3]
(* what setting up a provider state returned is in the request, else what the state says itself *)
Injected == \A i \in DOMAIN m.calls : (m.calls[i][1] = "request" /\ log[i].ph = "request" /\ shape[log[i].n][1] = "http4") =>
              m.calls[i][3] = S("http://h/") \o (IF mode # "nourl" THEN S("u/7") ELSE IF shape[log[i].n][2] = 0 THEN <<>> ELSE S("u/") \o IntStr(shape[log[i].n][2]))
(* the same answers always make the same run *)
Deterministic == Len(m.calls) = Len(log)
Terminates == <>Done
=============================================================================
