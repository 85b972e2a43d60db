--------------------------- MODULE Tr_DateExpr ---------------------------
EXTENDS DateExpr, Judge
Inst(v) == [day |-> DayNum(v[1], v[2], v[3]), ms |-> v[4]]
(* white space only is neither documented to be empty nor to be wrong *)
Unclear(kind, s) == LET p == IF kind = "datetime" THEN Parts(s) ELSE <<s>> IN \E i \in DOMAIN p : Blank(p[i])
AcceptDateExpr(e) ==
  LET r == Eval(e.kind, e.s, Inst(e.base)) IN
  IF e.k = "crash" \/ e.k = "panic" THEN FALSE
  ELSE IF Unclear(e.kind, e.s) THEN TRUE
  ELSE IF e.k = "err" THEN r = {}
  ELSE Inst(e.out) \in r /\ e.off
=============================================================================
