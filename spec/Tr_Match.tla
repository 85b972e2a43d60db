------------------------------ MODULE Tr_Match ----------------------------
EXTENDS Match, Judge
AcceptMatch(e) ==
  CASE e.op = "json" -> /\ e.k = "ok" /\ Len(e.answers) = 1
                        /\ Range(e.answers[1]) = Mismatches(e.expected, e.actual, e.entries, e.strict)
=============================================================================
