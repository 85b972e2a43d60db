------------------------------ MODULE Tr_Merge ----------------------------
(* A recorded history of merges (pact k is merged with the file so far).    *)
EXTENDS Merge, Judge
StepOK(s, prev) ==
  IF MergeFails(s.in, prev) THEN ~s.ok /\ s.out = prev
  ELSE s.ok /\ MergeRel(s.in, prev, s.out)
AcceptHistory(e) ==
  /\ e.k = "ok"
  /\ \A k \in 2..Len(e.steps) : StepOK(e.steps[k], e.steps[k-1].out)
=============================================================================
