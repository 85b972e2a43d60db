------------------------------ MODULE Tr_Verify -----------------------------
(* What the verification of pact files reported, and the schema at hand.    *)
EXTENDS Verify, Judge
AcceptFile(e) ==
  /\ SameBag(e.results, Check(e.kind, e.path, e.j, e.strict, e.spec))
  /\ (e.kind = "http" /\ IsObj(e.j) /\ Settled(e.schema, e.schema) => (Valid(e.schema, e.schema, e.j) <=> SchemaOk(e.j, e.spec)))
AcceptVersion(e) ==
  /\ (e.settled => e.parsed = ParseVersion(e.t))
  /\ \A i \in DOMAIN e.named : e.named[i] = NamedVersion(e.t)
  /\ e.text = VersionText(NamedVersion(e.t))
AcceptVerify(e) == e.k = "ok" /\ (IF e.op = "file" THEN AcceptFile(e) ELSE AcceptVersion(e))
=============================================================================
