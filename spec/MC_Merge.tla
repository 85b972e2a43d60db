------------------------------ MODULE MC_Merge ----------------------------
(* Test runs keep merging small pacts into one pact file.  Explored: every
   history of up to Depth merges over a small universe of interactions.     *)
EXTENDS Merge, Json
CONSTANTS Model, Depth
St(n, p) == [name |-> S(n), params |-> S(p)]
I(kind, d, sts, key, path, status, body) ==
  [kind |-> kind, desc |-> S(d), states |-> sts, key |-> key,
   mark |-> <<IF kind = "http" THEN S("GET") ELSE <<>>, IF kind = "http" THEN S(path) ELSE <<>>,
              IF kind = "http" THEN status ELSE 0, S(body)>>]
Universe ==
  IF Model = "v3h" THEN
   { I("http", "a", <<>>, <<>>, "/1", 200, ""), I("http", "a", <<St("s", "{}")>>, <<>>, "/1", 200, ""),
     I("http", "b", <<>>, <<>>, "/2", 200, ""), I("http", "b", <<>>, <<>>, "/3", 200, ""),
     I("http", "b", <<>>, <<>>, "/2", 200, "X"), I("http", "c", <<St("s", "{}"), St("t", "{}")>>, <<>>, "/2", 200, "") }
  ELSE IF Model = "v3m" THEN
   { I("async", "a", <<>>, <<>>, "", 0, "m1"), I("async", "a", <<St("s", "{}")>>, <<>>, "", 0, "m2"),
     I("async", "b", <<>>, <<>>, "", 0, "m3"), I("async", "b", <<>>, <<>>, "", 0, "m4"),
     I("async", "c", <<St("s", "{}"), St("t", "{}")>>, <<>>, "", 0, "m5") }
  ELSE
   { I("http", "a", <<>>, <<>>, "/1", 200, ""), I("http", "a", <<St("s", "{}")>>, <<>>, "/1", 200, ""),
     I("async", "a", <<>>, <<>>, "", 0, "m1"), I("http", "b", <<>>, <<S("k1")>>, "/2", 200, ""),
     I("http", "b", <<>>, <<S("k2")>>, "/3", 200, ""), I("http", "c", <<>>, <<S("k1")>>, "/4", 200, ""),
     I("sync", "a", <<>>, <<>>, "", 0, "q") }
Pacts == { [cons |-> S("c"), prov |-> S("p"), model |-> Model, ints |-> s, plugins |-> <<>>] :
           s \in {<<x>> : x \in Universe} \cup {<<x, y>> : x, y \in Universe} }
WellFormed(p) == \A i, j \in DOMAIN p.ints : i # j => ~Same(p.model, p.ints[i], p.ints[j])
Inputs == {p \in Pacts : WellFormed(p)}

VARIABLES hist, file
Init == \E p \in Inputs : hist = <<p>> /\ file = p
MergeStep == /\ Len(hist) < Depth
             /\ \E p \in Inputs :
                  /\ hist' = Append(hist, p)
                  /\ file' = IF MergeFails(p, file) THEN file ELSE MergeFn(p, file)
Next == MergeStep
vars == <<hist, file>>

(* the pact file represents every interaction of every accepted pact, once *)
Accepted(k) == \A j \in 1..k-1 : TRUE
RelHolds == [][ \A p \in Inputs : hist' = Append(hist, p) =>
                  (MergeFails(p, file) \/ MergeRel(p, file, MergeFn(p, file))) ]_vars
NoDuplicates == \A i, j \in DOMAIN file.ints : i # j => ~StrictSame(Model, file.ints[i], file.ints[j])
Idempotent == ~MergeFails(file, file) /\ Range(MergeFn(file, file).ints) = Range(file.ints) /\ Len(MergeFn(file, file).ints) = Len(file.ints)
NothingLost == \A i \in DOMAIN hist[1].ints : Times(Model, file.ints, hist[1].ints[i]) >= 1
Emit == Len(hist') < 2 \/ PrintT("VEC " \o ToJson(hist'))
=============================================================================
