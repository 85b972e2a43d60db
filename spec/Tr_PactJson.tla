---------------------------- MODULE Tr_PactJson ----------------------------
(* Pacts written and read again by the code, and documents it reads.        *)
EXTENDS PactJson, Judge
Models(j) == LET m == GetOr(j, "metadata") IN LET r == GetOr(m, "pactRust") IN DispOr(r, "models", <<>>)
(* the models member is the version of the library: a text with digits and dots *)
ModelsOk(j) == IsObj(GetOr(GetOr(j, "metadata"), "pactRust")) => LET t == Models(j) IN t # <<>> /\ \A i \in DOMAIN t : t[i] = 46 \/ (t[i] >= 48 /\ t[i] <= 57) \/ t[i] > 90
PartTokens(r) == (IF r.rules = <<>> THEN <<>> ELSE <<r.rules>>) \o (IF r.gens = <<>> THEN <<>> ELSE <<r.gens>>)
TokensI(i) == CASE i.kind \in {"msg3", "async4"} -> PartTokens(i.contents)
                [] i.kind = "sync4" -> PartTokens(i.request) \o Flat(Map(i.response, LAMBDA c : PartTokens(c)))
                [] OTHER -> PartTokens(i.request) \o PartTokens(i.response)
Table(p) == Flat(Map(p.interactions, LAMBDA i : TokensI(i)))
AcceptPactJson(e) ==
  /\ e.k # "panic"
  /\ CASE e.op = "round" ->
            LossFree(e.d1, e.spec) =>
              /\ e.k = "ok"
              /\ ModelsOk(e.j1)
              /\ Meaning(e.j1) = Meaning(PactToJson(e.d1, e.spec, Models(e.j1)))
              /\ (~Vague(e.j1, Table(e.d1)) =>
                    /\ e.d2 = Load(e.j1, Table(e.d1))
                    /\ SamePact(e.d1, e.d2, e.spec)
                    /\ e.same)
       [] OTHER ->    \* load
            (* the JSON of the rules and generators that were read, by what they were read as; and known ones *)
            LET table == (IF e.k = "ok" THEN Table(e.d) ELSE <<>>) \o e.table IN
            IF e.k = "ok" /\ ~IsObj(e.j) THEN FALSE
            ELSE IF Vague(e.j, table) THEN TRUE
            ELSE IF ~LoadOk(e.j) THEN e.k = "err"
            ELSE /\ e.k = "ok"
                 /\ e.d = Load(e.j, table)
                 /\ (LossFree(e.d, e.spec) => Meaning(e.out) = Meaning(PactToJson(e.d, e.spec, Models(e.out))))
=============================================================================
