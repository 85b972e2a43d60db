------------------------------ MODULE Tr_Path -----------------------------
EXTENDS Path, Judge
(* one recorded state of a path: everything it says about itself *)
StateOK(p, o) ==
  /\ o.tokens = p.toks
  /\ o.expr = p.expr
  /\ o.len = Len(p.toks)
  /\ o.vec = [i \in DOMAIN p.toks |-> TokStr(p.toks[i])]
  /\ o.pointer = (IF HasStar(p.toks) THEN <<0>> ELSE <<1, Pointer(p.toks)>>)
  /\ o.parent = (IF Len(p.toks) <= 1 THEN <<>>
                 ELSE LET u == SubSeq(p.toks, 1, Len(p.toks) - 1) IN <<u, Render(u)>>)
  /\ LET fs == SelectSeq(p.toks, LAMBDA t : t[1] = "field") IN
     /\ o.first = (IF fs = <<>> THEN <<0>> ELSE <<1, fs[1][2]>>)
     /\ o.last = (IF fs = <<>> THEN <<0>> ELSE <<1, fs[Len(fs)][2]>>)
  /\ o.root = (p.toks = <<Root>>)
  /\ o.wildcard = (p.toks # <<>> /\ Last(p.toks) = Star)
  /\ LET r == Parse(p.expr) IN o.reparse = (IF r.ok THEN <<1, r.toks>> ELSE <<0>>)
  \* a path that can be written down is read back as itself
  /\ Printable(p.toks) => o.reparse = <<1, p.toks>>

RECURSIVE Steps(_, _, _, _)
Steps(p, steps, obs, k) ==
  IF k > Len(steps) THEN TRUE
  ELSE LET q == Apply(p, steps[k][1], steps[k][2]) IN
       StateOK(q, obs[k + 1]) /\ Steps(q, steps, obs, k + 1)

Start(st) == CASE st[1] = "root" -> MkPath(<<Root>>)
               [] st[1] = "empty" -> MkPath(<<>>)
               [] st[1] = "tokens" -> MkPath(st[2])
               [] OTHER -> [toks |-> Parse(st[2]).toks, expr |-> st[2]]

AcceptPath(e) ==
  CASE e.op = "parse" ->
         LET r == Parse(e.s) IN
         IF r.ok THEN e.k = "ok" /\ StateOK([toks |-> r.toks, expr |-> e.s], e.obs[1]) ELSE e.k = "err"
    [] e.op = "build" ->
         IF e.k # "ok" THEN FALSE
         ELSE LET p == Start(e.start) IN
              Len(e.obs) = Len(e.steps) + 1 /\ StateOK(p, e.obs[1]) /\ Steps(p, e.steps, e.obs, 1)
=============================================================================
