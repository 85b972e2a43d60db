------------------------------ MODULE Tr_Gen ------------------------------
EXTENDS Gen, Judge
Agrees(spec, e) == CASE spec.k = "any" -> e.k \in {"ok", "err"}
                     [] spec.k = "err" -> e.k = "err"
                     [] OTHER -> e.k = "ok"
AcceptGen(e) ==
  CASE e.op = "value" ->      \* several values in place of the same text, JSON value and number
         /\ e.k = "ok"
         /\ e.gen[1] = "Regex" => e.gen[2] = e.head \o ReText(e.gen[3]) \o e.tail
         /\ \A i \in DOMAIN e.texts : TextOK(e.gen, e.ctx, e.texts[i])
         /\ \A i \in DOMAIN e.lists : IF e.lists[i] = Miss THEN TextOK(e.gen, e.ctx, Miss)
                                      ELSE Len(e.lists[i][2]) = 1 /\ TextOK(e.gen, e.ctx, Done(e.lists[i][2][1]))
         /\ \A i \in DOMAIN e.jsons : JsonOK(e.gen, e.src, e.ctx, e.jsons[i], <<>>, {})
         /\ \A i \in DOMAIN e.nums : U16OK(e.gen, e.ctx, e.nums[i])
         /\ e.modes = <<Active(e.gen, "Consumer"), Active(e.gen, "Provider")>>
    [] e.op = "json" -> e.k = "ok" /\ DocOK(e.doc, e.out, e.gens, e.mode, e.ctx)
    [] e.op = "form" -> e.k = "ok" /\ FormOK(e.params, e.out, e.gens, e.mode, e.ctx)
    [] e.op = "write" ->
         /\ e.k = "ok"
         /\ IF e.version \in {"V3", "V4"} THEN NoEmpties(e.json) = GensJson(e.gens) /\ Meaning(e.back) = Meaning(e.gens)
            ELSE e.json = JNull
         /\ e.again = e.each
    [] OTHER ->
         LET s == ReadGenerators(e.json) IN Agrees(s, e) /\ (s.k = "ok" => Meaning(e.gens) = s.r)
=============================================================================
