------------------------------ MODULE Tr_Expr -----------------------------
EXTENDS Expr, Judge
(* a text read as a double: beyond 15 digits the integer part may be rounded *)
IntOK(v, dt, r, o) == \/ SameInt(ToInt(v, dt, r), o)
                      \/ v[1] = "s" /\ dt \in {"DECIMAL", "FLOAT"} /\ IsDecText(v[2]) /\ Len(Dec(v[2]).digs) > 15
AcceptExpr(e) ==
  IF e.op = "type" THEN e.k = "ok" /\ e.out = (IF Upper(e.s) \in {S("STRING"), S("INTEGER"), S("DECIMAL"), S("FLOAT"), S("BOOLEAN")} THEN Upper(e.s) ELSE S("RAW"))
                        /\ e.back = e.out
  ELSE
  LET v == Lookup(e.s, e.ctx)
      p == Subst(e.s, e.ctx) IN
  /\ e.k = "ok"
  /\ e.contains = HasExpr(e.s)
  /\ e.parsed = p
  /\ e.wrapped = v
  /\ IF v = Fail THEN e.json = Fail /\ e.text = Fail /\ e.gjson = Fail /\ e.gtext = Fail /\ e.gu16 = Fail
     ELSE /\ AsJson(v[2], e.dt, e.json) /\ AsJson(v[2], e.dt, e.gjson)
          /\ AsText(v[2], e.dt, e.text) /\ AsText(v[2], e.dt, e.gtext)
          /\ IntOK(v[2], e.dt, U16, e.u16) /\ IntOK(v[2], e.dt, U16, e.gu16)
          /\ IntOK(v[2], e.dt, U64, e.u64)
          /\ IntOK(v[2], e.dt, I64, e.i64)
          /\ LET n == ToFloat(v[2], e.dt) IN
             IF n.ok /\ ~TooBig(n.dec) THEN e.f64 # Fail /\ IsDecText(e.f64[2]) /\ SameFloat(n.dec, Dec(e.f64[2]))
             ELSE IF v[2][1] = "s" /\ (n.ok \/ IsInf(v[2][2])) /\ e.dt \notin {"INTEGER", "BOOLEAN"} THEN e.f64 # Fail
             ELSE e.f64 = Fail
          /\ e.bool = ToBool(v[2])
=============================================================================
