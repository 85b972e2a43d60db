------------------------------- MODULE Merge ------------------------------
(* What merging pacts must guarantee.                                       *)
(*                                                                          *)
(* An interaction is [kind, desc, states, key, mark]:                       *)
(*   kind    "http" | "async" | "sync"                                      *)
(*   states  sequence of [name, params]                                     *)
(*   key     <<>> or <<k>> (V4 unique key)                                  *)
(*   mark    its payload: <<method, path, status, body>>                    *)
(* A pact is [cons, prov, model, ints, plugins], model "v3h"|"v3m"|"v4".    *)
EXTENDS Lib

StateNames(i) == [j \in DOMAIN i.states |-> i.states[j].name]

(* two interactions denote the same entry of a pact file *)
Same(model, a, b) ==
  IF model = "v4"
  THEN IF a.key # <<>> /\ b.key # <<>> THEN a.key = b.key
       ELSE a.kind = b.kind /\ a.desc = b.desc /\ StateNames(a) = StateNames(b)
  ELSE a.desc = b.desc /\ StateNames(a) = StateNames(b)

(* V3 request/response pacts refuse to merge contradictory interactions: the
   same description and provider states, but another method, path or status *)
Conflict(a, b) ==
  /\ a.desc = b.desc /\ a.states = b.states
  /\ \/ a.mark[1] # b.mark[1] \/ a.mark[2] # b.mark[2] \/ a.mark[3] # b.mark[3]

KindFits(model, i) == CASE model = "v3h" -> i.kind = "http"
                        [] model = "v3m" -> i.kind = "async"
                        [] OTHER -> TRUE

MergeFails(self, other) ==
  \/ self.cons # other.cons \/ self.prov # other.prov
  \/ self.model = "v3h" /\ self.ints # <<>> /\ \E j \in DOMAIN other.ints : ~KindFits("v3h", other.ints[j])
  \/ self.model = "v3h" /\ \E i \in DOMAIN self.ints, j \in DOMAIN other.ints : Conflict(self.ints[i], other.ints[j])
  \/ \E j \in DOMAIN other.ints : ~KindFits(self.model, other.ints[j])

(* in which order the merged file lists them *)
Before(model, a, b) == LET c == Cmp(a.desc, b.desc) IN
  c < 0 \/ (c = 0 /\ CmpSeq(StateNames(a), StateNames(b)) <= 0)
Sorted(model, s) == \A i \in 1..Len(s) - 1 : Before(model, s[i], s[i+1])

(* identity without the mixed case (one with, one without a key), which is not transitive *)
StrictSame(model, a, b) == (a.key = <<>>) = (b.key = <<>>) /\ Same(model, a, b)
StrictTimes(model, seq, x) == CountIn(seq, LAMBDA y : StrictSame(model, x, y))
Times(model, seq, x) == CountIn(seq, LAMBDA y : Same(model, x, y))
Exact(seq, x) == CountIn(seq, LAMBDA y : x = y)

(* the interactions of the other pact as they look in this one's model *)
Conv(model, i) == IF model = "v4" THEN i ELSE [i EXCEPT !.key = <<>>]

Winner(self) == IF self.model = "v4" THEN "self" ELSE "other"

MergeRel(self, other, out) ==
  LET m == self.model
      os == [j \in DOMAIN other.ints |-> Conv(m, other.ints[j])]
      both == self.ints \o os
  IN
  /\ out.cons = self.cons /\ out.prov = self.prov
  \* nothing is lost
  /\ \A i \in DOMAIN both : Times(m, out.ints, both[i]) >= 1
  \* nothing is invented
  /\ \A r \in DOMAIN out.ints : Exact(both, out.ints[r]) >= 1
  \* nothing is duplicated
  /\ \A r \in DOMAIN out.ints :
       StrictTimes(m, out.ints, out.ints[r]) <= Max2(StrictTimes(m, self.ints, out.ints[r]), StrictTimes(m, os, out.ints[r]))
  \* V4 keeps the interactions of the pact being written, V3 the ones already there
  /\ LET keep == IF m = "v4" THEN self.ints ELSE os IN
     \A i \in DOMAIN keep : Exact(out.ints, keep[i]) >= Exact(keep, keep[i])
  \* the result is sorted
  /\ Sorted(m, out.ints)
  \* plugins of both sides are kept
  /\ \A i \in DOMAIN self.plugins : \E k \in DOMAIN out.plugins : out.plugins[k] = self.plugins[i]
  /\ m = "v4" => \A i \in DOMAIN other.plugins : \E k \in DOMAIN out.plugins : out.plugins[k] = other.plugins[i]

(* ---- a constructive merge, used to explore the design ---- *)
RECURSIVE PickUnmatched(_, _, _, _, _, _)
PickUnmatched(m, ints, free, x, i, mixed) ==
  IF i > Len(ints) THEN 0
  ELSE IF i \in free /\ Same(m, ints[i], x) /\ (((ints[i].key = <<>>) # (x.key = <<>>)) = mixed) THEN i
  ELSE PickUnmatched(m, ints, free, x, i + 1, mixed)

(* pair the interactions one to one, identical keyedness first; st = [acc, free, rest] *)
RECURSIVE Pair(_, _, _, _, _)
Pair(m, st, os, j, mixed) ==
  IF j > Len(os) THEN st
  ELSE LET p == PickUnmatched(m, st.acc, st.free, os[j], 1, mixed) IN
       IF p = 0 THEN Pair(m, [st EXCEPT !.rest = Append(@, os[j])], os, j + 1, mixed)
       ELSE Pair(m, [st EXCEPT !.acc[p] = IF m = "v4" THEN @ ELSE os[j], !.free = @ \ {p}], os, j + 1, mixed)
Paired(m, ints, os) ==
  LET one == Pair(m, [acc |-> ints, free |-> DOMAIN ints, rest |-> <<>>], os, 1, FALSE)
      two == Pair(m, [one EXCEPT !.rest = <<>>], one.rest, 1, TRUE)
  IN two.acc \o two.rest

Insert(m, s, x) == LET k == CountIn(s, LAMBDA y : Before(m, y, x)) IN
                   SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE SortInts(_, _)
SortInts(m, s) == IF s = <<>> THEN <<>> ELSE Insert(m, SortInts(m, SubSeq(s, 1, Len(s)-1)), s[Len(s)])

MergeFn(self, other) ==
  LET m == self.model
      os == [j \in DOMAIN other.ints |-> Conv(m, other.ints[j])]
  IN [self EXCEPT !.ints = SortInts(m, Paired(m, self.ints, os)),
                  !.plugins = self.plugins \o (IF m = "v4" THEN SelectSeq(other.plugins, LAMBDA p : ~\E k \in DOMAIN self.plugins : self.plugins[k] = p) ELSE <<>>)]
=============================================================================
