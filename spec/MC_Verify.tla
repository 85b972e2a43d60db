----------------------------- MODULE MC_Verify -----------------------------
(* Documents put together member by member: what is written is in order,    *)
(* strict verification only raises levels, what it finds nothing wrong with *)
(* is accepted by the schema and can be loaded.                              *)
EXTENDS Verify, TLC
CONSTANT Strict
VARIABLES j, spec, written
O(ms) == Obj(ms)
M(k, v) == <<S(k), v>>
T(t) == JStr(S(t))
Absent == <<"absent">>
Parties == {Absent, JNull, T("x"), O(<<>>), O(<<M("name", T("a"))>>), O(<<M("name", JInt(1))>>), O(<<M("name", T("a")), M("x", JNull)>>)}
States == {T("s"), JNull, O(<<>>), O(<<M("name", T("s"))>>), O(<<M("name", JNull)>>), O(<<M("name", T("s")), M("params", JArr(<<>>))>>), O(<<M("name", T("s")), M("x", JInt(1))>>)}
Ins == {JInt(1), O(<<>>), O(<<M("description", JInt(1)), M("key", T("1"))>>)}
       \cup {O(<<M("description", T("d")), M("providerStates", JArr(<<s>>))>>) : s \in States}
       \cup {O(<<M("description", T("d")), M(k, s)>>) : s \in States, k \in {"providerStates", "providerState", "provider_state"}}
Lists == {Absent, JNull, JArr(<<>>), O(<<>>)} \cup {JArr(<<i>>) : i \in Ins} \cup {JArr(<<O(<<M("description", T("d"))>>), i>>) : i \in Ins}
Specs == {JNull, O(<<>>), O(<<M("version", JNull)>>), O(<<M("version", JInt(3))>>), O(<<M("version", T("3.0.0")), M("x", JNull)>>)} \cup {O(<<M("version", T(t))>>) : t \in {"1.1", "2.0.0", "3.1", "x", ""}}
Mds == {Absent, JNull, O(<<>>), O(<<M("pactSpecificationVersion", T("2"))>>), O(<<M("pactSpecificationVersion", JInt(2))>>)}
       \cup {O(<<M(k, s)>>) : s \in Specs, k \in {"pactSpecification", "pact-specification"}}
       \cup {O(<<M("pactSpecification", O(<<M("version", T("3.0.0"))>>)), M("pact-specification", s)>>) : s \in {JNull, O(<<M("version", T("1"))>>)}}
Member(k, v) == IF v = Absent THEN <<>> ELSE <<M(k, v)>>
Good == O(<<M("name", T("a"))>>)
GoodList == JArr(<<O(<<M("description", T("d"))>>)>>)
Doc(c, p, l, m, x) == O(Member("consumer", c) \o Member("provider", p) \o Member("interactions", l) \o Member("metadata", m) \o Member("x", x))
P(q, s, md) == [kind |-> "http", consumer |-> S("c"), provider |-> <<>>, version |-> "V3", metadata |-> md, plugins |-> <<>>, interactions |->
  <<[kind |-> "http3", id |-> <<>>, description |-> S("d"), states |-> s, request |-> [method |-> S("get"), path |-> S("/a"), query |-> q, headers |-> <<"none">>, body |-> <<"missing">>, rules |-> <<>>, gens |-> <<>>],
     response |-> [status |-> 200, headers |-> <<"none">>, body |-> <<"empty">>, rules |-> <<>>, gens |-> <<>>]]>>]
Pacts == {P(q, s, md) : q \in {<<"none">>, <<"some", <<<<S("a"), <<<<1, S("x")>>>>>>>>>>}, s \in {<<>>, <<<<S("s"), <<>>>>>>, <<<<<<>>, <<<<S("p"), JNull>>>>>>, <<S("s"), <<>>>>>>},
                        md \in {<<>>, <<<<S("pact-specification"), O(<<M("version", T("9"))>>)>>>>, <<<<S("own"), O(<<>>)>>>>}}
Files == {<<PactToJson(p, s, S("1")), s>> : p \in Pacts, s \in Vers \cup {"V3"}}
Init ==
  \/ written = FALSE /\ spec \in {"V1", "V3"} /\ \E c \in Parties, p \in Parties, x \in {Absent, JNull} : j = Doc(c, p, GoodList, Absent, x)
  \/ written = FALSE /\ spec \in {"V1", "V2", "V3", "V4"} /\ \E l \in Lists, m \in Mds : j = Doc(Good, Good, l, m, Absent)
  \/ \E w \in Files : j = w[1] /\ spec = w[2] /\ written = TRUE
  \/ written = FALSE /\ spec = "V2" /\ j \in {JNull, JArr(<<>>), T("x"), JInt(1)}
Next == UNCHANGED <<j, spec, written>>
Found(strict) == CheckFile(j, strict, spec)
InOrder == written => Found(TRUE) = <<>> /\ SchemaOk(j, spec)
Raised == LET a == Found(TRUE) b == Found(FALSE) IN
  /\ Len(a) = Len(b)
  /\ \A n \in DOMAIN a : a[n][1] = b[n][1] /\ a[n][3] = b[n][3] /\ (a[n][2] # b[n][2] => a[n][2] = "ERROR" /\ b[n][2] = "WARNING")
Errors(r) == {n \in DOMAIN r : r[n][2] = "ERROR"}
ExtraSpec == IF IsObj(j) /\ Has(j, "metadata") THEN \E k \in {"pactSpecification", "pact-specification"} : Len(MembersOf(Get(j, "metadata"), k)) > 1 ELSE FALSE
Both == IF IsObj(j) /\ Has(j, "metadata") THEN Has(Get(j, "metadata"), "pactSpecification") /\ Has(Get(j, "metadata"), "pact-specification") ELSE FALSE   \* only the first is looked at
Accepted == ~Both /\ Found(Strict) = <<>> /\ ~ExtraSpec => SchemaOk(j, spec)
Loads == Errors(Found(FALSE)) = {} => LoadOk(j)
(* a document the schema does not accept has something reported, the same way round but for the attributes next to the version *)
Rejected == IsObj(j) /\ ~SchemaOk(j, spec) /\ ~ExtraSpec => Found(FALSE) # <<>> \/ Has(Get(j, "metadata"), "pact-specification")
=============================================================================
