------------------------------ MODULE Tr_Query ----------------------------
EXTENDS Query, Judge
MapOf(o) == IF o = <<>> THEN <<>> ELSE o[1]      \* no query at all is an empty map
AcceptQuery(e) ==
  CASE e.op = "encode" -> e.k = "ok" /\ EncodingOf(e.s, e.out)
    [] e.op = "decode" -> LET d == Decode(e.s) IN IF d[1] THEN e.k = "ok" /\ e.out = d[2] ELSE e.k = "err"
    [] e.op = "parse" -> e.k = "ok" /\ MapOf(e.out) = ParseQuery(e.s)
    \* one answer for all orders of insertion; each parameter in the answer is encoded
    [] e.op = "build" -> /\ e.k = "ok" /\ Len(e.answers) = 1
                         /\ ParseQuery(e.answers[1]) = Expressible(e.m)
                         /\ MapOf(e.back) = Expressible(e.m)
                         /\ e.v4 = <<e.m>> /\ e.v3 = <<e.m>> /\ e.json3 = ToJson34(e.m) /\ e.json4 = ToJson34(e.m)
                         /\ MapOf(e.v2) = Expressible(e.m) /\ MapOf(e.v1) = Expressible(e.m)
=============================================================================
