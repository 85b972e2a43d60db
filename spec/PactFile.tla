------------------------------ MODULE PactFile ----------------------------
(* The pact file as its users see it: one atomic object.                    *)
(*   file = [full |-> FALSE]-like record while nothing was written,         *)
(*   else the consumer it is for and the set of interactions it holds.      *)
(* op   = [kind |-> "write", cons, ids, overwrite] or [kind |-> "read"]     *)
EXTENDS Naturals, Sequences, FiniteSets
EmptyFile == [full |-> FALSE, cons |-> "", ids |-> {}]

(* what one operation does when nothing else happens: <<new file, result>> *)
Effect(file, op) ==
  IF op.kind = "read"
  THEN <<file, IF file.full THEN "ok" ELSE "err">>
  ELSE IF op.overwrite \/ ~file.full
  THEN <<[full |-> TRUE, cons |-> op.cons, ids |-> op.ids], "ok">>
  ELSE IF op.cons # file.cons
  THEN <<file, "err">>                                       \* can not be merged: file untouched
  ELSE <<[file EXCEPT !.ids = @ \cup op.ids], "ok">>
=============================================================================
