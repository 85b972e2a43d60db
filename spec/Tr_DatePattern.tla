-------------------------- MODULE Tr_DatePattern -------------------------
EXTENDS DatePattern, Judge
DE == INSTANCE DateExpr
Inst(v) == [y |-> v[1], m |-> v[2], d |-> v[3], sec |-> v[4], nanos |-> v[5], off |-> v[6]]
(* the instants meant: the base, moved by the expression of the generator *)
Moved(kind, exp, b) ==
  IF exp = <<>> THEN {b}
  ELSE LET base == [day |-> DayNum(b.y, b.m, b.d), ms |-> b.sec * 1000 + b.nanos \div 1000000] IN
       {LET c == Civil(r.day) IN [y |-> c.y, m |-> c.m, d |-> c.d, sec |-> r.ms \div 1000, nanos |-> (r.ms % 1000) * 1000000, off |-> b.off] : r \in DE!Eval(kind, exp, base)}
Default(kind) == CASE kind = "date" -> S("yyyy-MM-dd")
                   [] kind = "time" -> S("HH:mm:ss")
                   [] OTHER -> S("yyyy-MM-dd'T'HH:mm:ss.SSSZ")
Pattern(e) == IF e.hasp THEN e.p ELSE Default(e.kind)
AcceptDatePattern(e) ==
  LET ts == Read(Pattern(e)) IN
  CASE e.op = "validate" ->
         IF IsBad(ts) THEN e.k = "err"
         ELSE IF MustAccept(ts, e.v) THEN e.k = "ok"
         ELSE IF MustReject(ts, e.v) THEN e.k = "err"
         ELSE e.k \in {"ok", "err"}
    [] OTHER ->     \* an instant formatted by a generator
         LET is == Moved(e.kind, e.exp, Inst(e.base)) IN
         IF IsBad(ts) \/ is = {} THEN e.k = "err"
         ELSE /\ e.k = "ok"
              /\ \E x \in is : x.y < 0 \/ x.y > 9999 \/ PrintsAs(ts, x, e.out)
              /\ (e.hasp /\ MustAccept(ts, e.out)) => e.valid
=============================================================================
