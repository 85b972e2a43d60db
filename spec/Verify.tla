------------------------------ MODULE Verify ------------------------------
(* The form of pact files: what the verification of a request/response pact *)
(* reports (path, level and the type found in place of another), which      *)
(* documents the schema has to accept, and the names of versions.           *)
(* Schema is an evaluator for the part of JSON Schema that is used.         *)
EXTENDS PactJson

TypeName(v) == CASE v[1] = "n" -> "Null" [] v[1] = "b" -> "Bool" [] v[1] \in {"i", "f"} -> "Number" [] v[1] = "s" -> "String" [] v[1] = "a" -> "Array" [] OTHER -> "Object"
Level(strict) == IF strict THEN "ERROR" ELSE "WARNING"
Wrong(path, v) == <<<<path, "ERROR", TypeName(v)>>>>
Says(path, level) == <<<<path, level, "">>>>
When(b, s) == IF b THEN s ELSE <<>>
SubPath(path, t) == path \o S("/") \o t
Unknown(o, known, Where(_), strict) == Flat(Map(SelectSeq(o[2], LAMBDA m : m[1] \notin known), LAMBDA m : Says(Where(m[1]), Level(strict))))

CheckNamed(path, j, strict) ==
  IF ~IsObj(j) THEN Wrong(path, j)
  ELSE (IF Has(j, "name") THEN When(~IsStr(Get(j, "name")), Wrong(SubPath(path, S("name")), Get(j, "name"))) ELSE Says(SubPath(path, S("name")), Level(strict)))
       \o Unknown(j, {S("name")}, LAMBDA k : path, strict)
CheckState(path, j, strict) ==
  IF IsStr(j) THEN <<>>
  ELSE IF ~IsObj(j) THEN Wrong(path, j)
  ELSE (IF Has(j, "name") THEN When(~IsStr(Get(j, "name")), Wrong(path, Get(j, "name"))) ELSE Says(path, "ERROR"))
       \o (IF Has(j, "params") THEN When(~IsObj(Get(j, "params")), Wrong(path, Get(j, "params"))) ELSE <<>>)
       \o Unknown(j, {S("name"), S("params")}, LAMBDA k : path, strict)
StatesOf(j) == IF Has(j, "providerStates") THEN Get(j, "providerStates")
               ELSE IF Has(j, "providerState") THEN JArr(<<Get(j, "providerState")>>)
               ELSE IF Has(j, "provider_state") THEN JArr(<<Get(j, "provider_state")>>) ELSE JArr(<<>>)
CheckInteraction(path, j, strict, spec) ==
  IF ~IsObj(j) THEN Wrong(path, j)
  ELSE LET ss == StatesOf(j) IN
    (IF Has(j, "description") THEN When(~IsStr(Get(j, "description")), Wrong(SubPath(path, S("description")), Get(j, "description"))) ELSE Says(path, Level(strict)))
    \o When(~Has(j, "providerStates") /\ (IF Has(j, "providerState") THEN spec \in {"V3", "V4"} ELSE Has(j, "provider_state")), Says(path, "WARNING"))   \* a deprecated name
    \o (IF IsArr(ss) THEN Flat([n \in DOMAIN ss[2] |-> CheckState(SubPath(SubPath(path, S("providerStates")), IntStr(n - 1)), ss[2][n], strict)]) ELSE Wrong(path, ss))
    \o Unknown(j, {S("_id"), S("description"), S("providerState"), S("provider_state"), S("providerStates"), S("request"), S("response")}, LAMBDA k : path, strict)
(* "V1" to "V4", or "error" *)
ParseVersion(t) ==
  LET n == Nums(t) minor == IF Len(n[2]) > 1 THEN n[2][2] ELSE 0 IN
  IF ~n[1] THEN "error"
  ELSE CASE n[2][1] = 1 /\ minor = 0 -> "V1" [] n[2][1] = 1 /\ minor = 1 -> "V1.1" [] n[2][1] = 2 /\ minor = 0 -> "V2"
         [] n[2][1] = 3 /\ minor = 0 -> "V3" [] n[2][1] = 4 /\ minor = 0 -> "V4" [] OTHER -> "error"
MdPath == S("/metadata/pactSpecification")
CheckSpec(v) ==
  IF ~IsObj(v) THEN Wrong(MdPath, v)
  ELSE IF ~Has(v, "version") THEN Says(MdPath, "WARNING")
  ELSE LET x == Get(v, "version") p == SubPath(MdPath, S("version")) IN
       IF x = JNull THEN Says(p, "WARNING")
       ELSE IF IsStr(x) THEN When(ParseVersion(x[2]) = "error", Says(p, "ERROR")) ELSE Wrong(p, x)
CheckMetadata(j) ==
  IF ~IsObj(j) THEN Wrong(S("/metadata"), j)
  ELSE When(~Has(j, "pactSpecification") /\ Has(j, "pact-specification"), Says(S("/metadata"), "WARNING"))
       \o When(Has(j, "pactSpecificationVersion"), Says(S("/metadata"), "WARNING"))
       \o (IF Has(j, "pactSpecification") THEN CheckSpec(Get(j, "pactSpecification")) ELSE IF Has(j, "pact-specification") THEN CheckSpec(Get(j, "pact-specification")) ELSE <<>>)
CheckInteractions(v, strict, spec) ==
  LET p == S("/interactions") IN
  IF ~IsArr(v) THEN Wrong(p, v)
  ELSE IF v[2] = <<>> THEN Says(p, "WARNING")
  ELSE Flat([n \in DOMAIN v[2] |-> CheckInteraction(SubPath(p, IntStr(n - 1)), v[2][n], strict, spec)])
CheckFile(j, strict, spec) ==
  IF ~IsObj(j) THEN Wrong(S("/"), j)
  ELSE (IF Has(j, "consumer") THEN CheckNamed(S("/consumer"), Get(j, "consumer"), strict) ELSE Says(S("/consumer"), Level(strict)))
       \o (IF Has(j, "provider") THEN CheckNamed(S("/provider"), Get(j, "provider"), strict) ELSE Says(S("/provider"), Level(strict)))
       \o (IF Has(j, "interactions") THEN CheckInteractions(Get(j, "interactions"), strict, spec) ELSE Says(S("/interactions"), "WARNING"))
       \o (IF Has(j, "metadata") THEN CheckMetadata(Get(j, "metadata")) ELSE <<>>)
       \o Unknown(j, {S("consumer"), S("provider"), S("interactions"), S("metadata")}, LAMBDA k : SubPath(<<>>, k), strict)
Check(kind, path, j, strict, spec) ==
  CASE kind = "http" -> CheckFile(j, strict, spec)
    [] kind = "message" -> When(~IsObj(j), Wrong(path, j))
    [] OTHER -> When(~IsObj(j), Wrong(S("/"), j))
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)

(* ---------------- schemas ---------------- *)
Keywords == {S("type"), S("properties"), S("required"), S("additionalProperties"), S("items"), S("$ref"), S("definitions"), S("description"), S("title"), S("$schema"), S("$id"), S("$comment")}
RefPrefix == S("#/definitions/")
TypeIs(t, d) ==
  CASE t = S("string") -> IsStr(d) [] t = S("object") -> IsObj(d) [] t = S("array") -> IsArr(d) [] t = S("boolean") -> d[1] = "b"
    [] t = S("null") -> d = JNull [] t = S("number") -> d[1] \in {"i", "f"} [] t = S("integer") -> d[1] = "i" [] OTHER -> FALSE
RECURSIVE Valid(_, _, _), Settled(_, _)
(* only with keywords that Valid knows, and no reference into nothing *)
Settled(root, s) ==
  /\ IsObj(s) /\ \A i \in DOMAIN s[2] : s[2][i][1] \in Keywords
  /\ (Has(s, "$ref") => LET r == Get(s, "$ref") IN IsStr(r) /\ StartsWith(r[2], RefPrefix) /\ Has(root, "definitions") /\ JHas(Get(root, "definitions"), From(r[2], Len(RefPrefix) + 1)))
  /\ (Has(s, "type") => IsStr(Get(s, "type")))
  /\ (Has(s, "additionalProperties") => Get(s, "additionalProperties")[1] = "b")
  /\ \A i \in DOMAIN MembersOf(s, "properties") : Settled(root, MembersOf(s, "properties")[i][2])
  /\ \A i \in DOMAIN MembersOf(s, "definitions") : Settled(root, MembersOf(s, "definitions")[i][2])
  /\ (Has(s, "items") => Settled(root, Get(s, "items")))
Valid(root, s, d) ==
  IF Has(s, "$ref") THEN Valid(root, JGet(Get(root, "definitions"), From(Get(s, "$ref")[2], Len(RefPrefix) + 1)), d)
  ELSE
  /\ (Has(s, "type") => TypeIs(Get(s, "type")[2], d))
  /\ (IsObj(d) => LET ps == MembersOf(s, "properties") IN
       /\ \A i \in DOMAIN ps : JHas(d, ps[i][1]) => Valid(root, ps[i][2], JGet(d, ps[i][1]))
       /\ (Has(s, "required") => \A i \in DOMAIN Get(s, "required")[2] : JHas(d, Get(s, "required")[2][i][2]))
       /\ (Has(s, "additionalProperties") /\ Get(s, "additionalProperties") = JBool(FALSE) => \A i \in DOMAIN d[2] : \E k \in DOMAIN ps : ps[k][1] = d[2][i][1]))
  /\ (IsArr(d) /\ Has(s, "items") => \A i \in DOMAIN d[2] : Valid(root, Get(s, "items"), d[2][i]))
(* the documents that are pacts to the schema *)
NamedOk(j, k) == Has(j, k) /\ IsObj(Get(j, k)) /\ Has(Get(j, k), "name") /\ IsStr(Get(Get(j, k), "name"))
VersionOnly(j, k) == Has(j, k) => LET v == Get(j, k) IN IsObj(v) /\ (IF Has(v, "version") THEN IsStr(Get(v, "version")) ELSE FALSE) /\ Len(v[2]) = 1
SchemaOk(j, spec) ==
  /\ (IF Has(j, "consumer") /\ Has(j, "provider") /\ Has(j, "interactions") THEN NamedOk(j, "consumer") /\ NamedOk(j, "provider") /\ IsArr(Get(j, "interactions")) ELSE FALSE)
  /\ (Has(j, "metadata") => LET m == Get(j, "metadata") IN
       /\ IsObj(m) /\ VersionOnly(m, "pactSpecification")
       /\ (spec \notin {"V3", "V4"} => VersionOnly(m, "pact-specification") /\ (Has(m, "pactSpecificationVersion") => IsStr(Get(m, "pactSpecificationVersion")))))

(* ---------------- names of versions ---------------- *)
NamedVersion(t) == LET u == Upper(t) IN CASE u = S("V1") -> "V1" [] u = S("V1.1") -> "V1.1" [] u = S("V2") -> "V2" [] u = S("V3") -> "V3" [] u = S("V4") -> "V4" [] OTHER -> "unknown"
=============================================================================
