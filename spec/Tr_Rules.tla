----------------------------- MODULE Tr_Rules ----------------------------
EXTENDS Rules, Judge
Agrees(spec, e) == CASE spec.k = "any" -> e.k \in {"ok", "err"}
                     [] spec.k = "err" -> e.k = "err"
                     [] OTHER -> e.k = "ok"
AcceptRules(e) ==
  CASE e.op = "rule.read" ->
         LET s == ReadRule(e.json) IN Agrees(s, e) /\ (s.k = "ok" => e.rule = s.r)
    [] e.op = "rule.write" ->      \* also read back, and made again from its name and values
         e.k = "ok" /\ e.json = RuleJson(e.rule) /\ e.back = <<e.rule>> /\ e.again = <<e.rule>> /\ e.facts = Facts(e.rule)
    [] e.op = "rules.read" ->
         LET s == ReadRules(e.json) IN Agrees(s, e) /\ (s.k = "ok" => Canon(e.rules) = Canon(s.r))
    [] e.op = "rules.write" ->
         LET v2 == e.version \in {"V1", "V1.1", "V2"} IN
         /\ e.k = "ok"
         /\ e.json = IF v2 THEN V2Json(e.rules) ELSE V3Json(e.rules)
         /\ e.back # <<>> /\ Canon(e.back[1]) = Canon(IF v2 THEN V2Form(e.rules) ELSE e.rules)
    [] OTHER ->      \* one set of rules added to another
         e.k = "ok" /\ Canon(e.out) = Canon(AddRules(e.rules, e.other))
=============================================================================
