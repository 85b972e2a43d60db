----------------------------- MODULE Tr_Select ----------------------------
(* An event is one category and one way down, and the distinct answers the  *)
(* code gave over all orders of insertion (and over hash seeds).            *)
EXTENDS Select, Judge
AcceptSelect(e) ==
  CASE e.op = "select" -> e.k = "ok" /\ Len(e.answers) = 1 /\ SelectOK(e.cat, e.entries, e.path, e.answers[1])
    [] e.op = "weight" -> /\ e.k = "ok" /\ e.t = Len(e.toks)
                          /\ e.m = Matches(e.toks, e.path) /\ e.x = MatchesExactly(e.toks, e.path)
                          /\ e.w = (IF Len(e.path) >= Len(e.toks) /\ Len(e.toks) < 30 THEN IntStr(Weight(e.toks, e.path)) ELSE IF e.m THEN e.w ELSE S("0"))
=============================================================================
