---------------------------- MODULE Tr_MatchDef ----------------------------
EXTENDS MatchDef, Judge
AcceptMatchDef(e) ==
  CASE e.op = "parse" ->
         LET r == ParseDef(e.s) IN
         /\ e.starts = Starts(e.s)
         /\ CASE IsOk(r) -> e.k = "ok" /\ e.def = r[2]
              [] r[1] = "any" -> e.k \in {"ok", "err"}
              [] OTHER -> e.k = "err"
    [] OTHER -> e.k = "ok" /\ e.out = MergeD(e.a, e.b)
=============================================================================
