------------------------------ MODULE WritePact ---------------------------
(* The protocol write_pact and the readers follow on the file system, one   *)
(* action per system call.  Protocol "locked" is what the code does; "split"*)
(* is the earlier protocol (read under a shared lock, update later under an *)
(* exclusive one), kept to show that the invariants can tell them apart.    *)
EXTENDS PactFile, TLC
CONSTANTS Writers, Readers, Protocol, MaxTries, Crashes
VARIABLES file, ex, sh, pc, buf, tries, res, torn, linfile
vars == <<file, ex, sh, pc, buf, tries, res, torn, linfile>>
Procs == Writers \cup Readers
Op(p) == IF p \in Readers THEN [kind |-> "read"]
         ELSE [kind |-> "write", cons |-> "c", ids |-> {p}, overwrite |-> FALSE]
Init == /\ file = EmptyFile /\ ex = 0 /\ sh = {} /\ pc = [p \in Procs |-> "start"]
        /\ buf = [p \in Procs |-> EmptyFile] /\ tries = [p \in Procs |-> 0]
        /\ res = [p \in Procs |-> "none"] /\ torn = FALSE /\ linfile = EmptyFile
Goto(p, s) == pc' = [pc EXCEPT ![p] = s]
Open(p) == pc[p] = "start" /\ Goto(p, IF p \in Readers \/ Protocol = "split" THEN "lock_sh" ELSE "lock_ex")
           /\ UNCHANGED <<file, ex, sh, buf, tries, res, torn, linfile>>
Fail(p) == IF tries[p] + 1 = MaxTries
           THEN Goto(p, "done") /\ res' = [res EXCEPT ![p] = "err"] /\ UNCHANGED tries
           ELSE tries' = [tries EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, res>>
LockSh(p) == /\ pc[p] = "lock_sh"
             /\ IF ex = 0 THEN sh' = sh \cup {p} /\ Goto(p, "read") /\ UNCHANGED <<tries, res>>
                ELSE Fail(p) /\ UNCHANGED sh
             /\ UNCHANGED <<file, ex, buf, torn, linfile>>
LockEx(p) == /\ pc[p] = "lock_ex"
             /\ IF ex = 0 /\ sh = {} THEN ex' = p /\ Goto(p, IF Protocol = "split" THEN "truncate" ELSE "read") /\ UNCHANGED <<tries, res>>
                ELSE Fail(p) /\ UNCHANGED ex
             /\ UNCHANGED <<file, sh, buf, torn, linfile>>
Read(p) == /\ pc[p] = "read"
           /\ buf' = [buf EXCEPT ![p] = file]
           /\ Goto(p, IF p \in Readers \/ Protocol = "split" THEN "unlock_sh" ELSE "truncate")
           /\ UNCHANGED <<file, ex, sh, tries, res, torn, linfile>>
UnlockSh(p) == /\ pc[p] = "unlock_sh" /\ sh' = sh \ {p}
               /\ IF p \in Readers THEN Goto(p, "done") /\ res' = [res EXCEPT ![p] = Effect(buf[p], Op(p))[2]]
                  ELSE Goto(p, "lock_ex") /\ UNCHANGED res
               /\ UNCHANGED <<file, ex, buf, tries, torn, linfile>>
Truncate(p) == pc[p] = "truncate" /\ file' = EmptyFile /\ Goto(p, "write")
               /\ UNCHANGED <<ex, sh, buf, tries, res, torn, linfile>>
Write(p) == /\ pc[p] = "write" /\ file' = Effect(buf[p], Op(p))[1] /\ linfile' = Effect(linfile, Op(p))[1]
            /\ Goto(p, "unlock") /\ UNCHANGED <<ex, sh, buf, tries, res, torn>>
Unlock(p) == /\ pc[p] = "unlock" /\ ex' = 0 /\ Goto(p, "done") /\ res' = [res EXCEPT ![p] = "ok"]
             /\ UNCHANGED <<file, sh, buf, tries, torn, linfile>>
(* a process dies: the kernel drops its locks; dying between truncate and write tears the file *)
Crash(p) == /\ Crashes /\ pc[p] \notin {"done", "dead"} /\ Goto(p, "dead")
            /\ ex' = (IF ex = p THEN 0 ELSE ex) /\ sh' = sh \ {p}
            /\ torn' = (torn \/ pc[p] = "write")
            /\ UNCHANGED <<file, buf, tries, res, linfile>>
Step(p) == \/ Open(p) \/ LockSh(p) \/ LockEx(p) \/ Read(p) \/ UnlockSh(p)
           \/ Truncate(p) \/ Write(p) \/ Unlock(p) \/ Crash(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

Busy == \E p \in Procs : pc[p] = "write"
Exclusive == \A p \in Writers : pc[p] \in {"write", "unlock"} \/ (Protocol = "locked" /\ pc[p] \in {"read", "truncate"}) => ex = p
(* the file is the atomic object PactFile, unless a crash tore it *)
Atomic == ~torn /\ ~Busy => file = linfile
NoLostUpdate == ~torn /\ ~Busy => \A p \in Writers : res[p] = "ok" => p \in file.ids
(* a reader under the lock never sees a half-written file *)
ReadersSeeWhole == ~torn => \A r \in Readers : pc[r] = "unlock_sh" => buf[r] = linfile
Terminates == <>(\A p \in Procs : pc[p] \in {"done", "dead"})
=============================================================================
