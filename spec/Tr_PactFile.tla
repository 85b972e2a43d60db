----------------------------- MODULE Tr_PactFile --------------------------
(* Is a recorded schedule of processes linearizable to the atomic PactFile? *)
(* Each line of the trace file is one schedule: events begin/end per process,*)
(* kill (a process died before it changed the file) and final (the content).*)
EXTENDS PactFile, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, file, st, op, res, contended
vars == <<t, l, file, st, op, res, contended>>
Evs == Traces[t].events
P == 1..6
SetOf(s) == {s[i] : i \in DOMAIN s}
NoOp == [kind |-> "none"]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ file = EmptyFile
        /\ st = [p \in P |-> "idle"] /\ op = [p \in P |-> NoOp] /\ res = [p \in P |-> <<>>]
        /\ contended = [p \in P |-> FALSE]
E == Evs[l]
Active == {p \in P : st[p] # "idle"}
Begin == /\ E.ev = "begin" /\ st[E.p] = "idle"
         /\ st' = [st EXCEPT ![E.p] = "pending"]
         /\ op' = [op EXCEPT ![E.p] = IF E.op.kind = "read" THEN [kind |-> "read"]
                     ELSE [kind |-> "write", cons |-> E.op.cons, ids |-> SetOf(E.op.ids), overwrite |-> E.op.overwrite]]
         /\ contended' = [p \in P |-> IF p = E.p THEN Active # {} ELSE contended[p] \/ p \in Active]
         /\ l' = l + 1 /\ UNCHANGED <<t, file, res>>
Linearize(p) == /\ st[p] = "pending"
                /\ LET r == Effect(file, op[p]) IN
                   /\ file' = r[1]
                   /\ res' = [res EXCEPT ![p] = <<r[2], file>>]
                /\ st' = [st EXCEPT ![p] = "done"]
                /\ UNCHANGED <<t, l, op, contended>>
End == /\ E.ev = "end"
       /\ \/ /\ st[E.p] = "done" /\ E.res = res[E.p][1]
             /\ (op[E.p].kind = "read" /\ E.res = "ok") =>
                  /\ E.cons = res[E.p][2].cons /\ SetOf(E.ids) = res[E.p][2].ids
                  /\ Len(E.ids) = Cardinality(res[E.p][2].ids)
          \* could not get the lock: only while others are using the file, and without effect
          \/ st[E.p] = "pending" /\ E.res = "err" /\ contended[E.p]
       /\ st' = [st EXCEPT ![E.p] = "idle"] /\ l' = l + 1
       /\ UNCHANGED <<t, file, op, res, contended>>
Kill == /\ E.ev = "kill" /\ st[E.p] = (IF E.wrote THEN "done" ELSE "pending")
        /\ st' = [st EXCEPT ![E.p] = "idle"] /\ l' = l + 1
        /\ UNCHANGED <<t, file, op, res, contended>>
Final == /\ E.ev = "final" /\ E.full = file.full
         /\ file.full => E.cons = file.cons /\ SetOf(E.ids) = file.ids /\ Len(E.ids) = Cardinality(file.ids)
         /\ l' = l + 1 /\ UNCHANGED <<t, file, st, op, res, contended>>
Finish == l = Len(Evs) + 1 /\ PrintT(<<"ACCEPT", t>>) /\ l' = l + 1 /\ UNCHANGED <<t, file, st, op, res, contended>>
Next == \/ (l <= Len(Evs) /\ (Begin \/ End \/ Kill \/ Final \/ \E p \in P : Linearize(p)))
        \/ Finish
=============================================================================
