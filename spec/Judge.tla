------------------------------- MODULE Judge ------------------------------
(* Trace acceptance: every line of the recorded trace is consumed, and the  *)
(* lines the specification does not allow are reported by number.           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Accept(_)
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, done
JInit == l \in 1..Len(Trace) /\ done = FALSE
JNext == /\ ~done /\ done' = TRUE /\ UNCHANGED l
         /\ IF Accept(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
TraceConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
