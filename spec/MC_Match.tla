----------------------------- MODULE MC_Match -----------------------------
(* Every pair of small documents under every small set of rules: what the   *)
(* outcome of matching promises.                                            *)
EXTENDS Match, Json
CONSTANTS Depth, MaxEntries, Scalars
A == S("a")
B == S("b")
Leaf == IF Scalars = 2 THEN {JInt(1), JStr(S("a"))} ELSE {JInt(1), JInt(2), JStr(S("a"))}
Nest(vs) == {JArr(<<>>), JObj(<<>>)} \cup {JArr(<<x>>) : x \in vs} \cup {JObj(<<<<A, x>>>>) : x \in vs}
Pairs(vs) == {JArr(<<x, y>>) : x, y \in vs} \cup {JObj(<<<<B, x>>>>) : x \in vs} \cup {JObj(<<<<A, x>>, <<B, y>>>>) : x, y \in vs}
Flat1 == Leaf \cup Nest(Leaf) \cup Pairs(Leaf)
Docs == IF Depth = 1 THEN Flat1 ELSE Leaf \cup Nest(Flat1)
Places == {<<Root>>, <<Root, Field(A)>>, <<Root, Star>>, <<Root, Index(S("0"))>>, <<Root, StarIdx>>}
          \cup (IF Depth = 1 THEN {} ELSE {<<Root, Field(A), Star>>, <<Root, Star, Field(A)>>, <<Root, Star, StarIdx>>})
Simple == {<<"type">>, <<"equality">>, <<"integer">>, <<"notEmpty">>, <<"regex", <<"c", 97>>>>}
Rules == Simple \cup {<<"min", 1>>, <<"max", 1>>, <<"minmax", 1, 1>>, <<"values">>, <<"null">>,
          <<"eachKey", <<<<"include", A>>>>>>, <<"eachValue", <<<<"type">>>>>>, <<"eachValue", <<<<"integer">>>>>>, <<"eachKey", <<<<"ref">>>>>>,
          <<"arrayContains", <<>>>>, <<"arrayContains", <<<<0, <<>>>>>>>>, <<"arrayContains", <<<<0, <<[toks |-> <<Root>>, combine |-> S("AND"), rules |-> <<<<"type">>>>]>>>>>>>>}
Lists == {<<S("AND"), <<r>>>> : r \in Rules} \cup {<<c, <<<<"integer">>, <<"regex", <<"c", 97>>>>>>>> : c \in {S("AND"), S("OR")}}
         \cup {<<c, <<<<"min", 1>>, <<"equality">>>>>> : c \in {S("AND"), S("OR")}}
VARIABLES e, a, es
Init == e \in Docs /\ a \in Docs /\ es = <<>>
Next == /\ Len(es) < MaxEntries
        /\ \E ts \in Places, l \in Lists :
             /\ \A i \in DOMAIN es : es[i].toks # ts
             /\ es' = Append(es, [toks |-> ts, combine |-> l[1], rules |-> l[2]])
        /\ UNCHANGED <<e, a>>
Lax == M(<<Root>>, e, a, es, FALSE)
Strict == M(<<Root>>, e, a, es, TRUE)
(* without rules, and strictly, a document matches itself only *)
Exact == es = <<>> => (Strict = {} <=> e = a)
(* without rules, an actual document may have further members, but is the same otherwise *)
RECURSIVE Embeds(_, _)
Embeds(x, y) ==
  CASE x[1] = "o" /\ y[1] = "o" -> \A i \in DOMAIN x[2] : \E j \in DOMAIN y[2] : x[2][i][1] = y[2][j][1] /\ Embeds(x[2][i][2], y[2][j][2])
    [] x[1] = "a" /\ y[1] = "a" -> Len(x[2]) = Len(y[2]) /\ \A i \in DOMAIN x[2] : Embeds(x[2][i], y[2][i])
    [] OTHER -> x = y
Open == es = <<>> => (Lax = {} <=> Embeds(e, a))
(* equality everywhere is equality *)
One(ts, r) == Len(es) = 1 /\ es[1].toks = ts /\ es[1].rules = <<r>>
Equal == One(<<Root>>, <<"equality">>) => (Lax = {} <=> e = a) /\ (Strict = {} <=> e = a)
(* the type rule at the root asks for the shape of the example *)
RECURSIVE Shape(_, _)
Shape(x, y) ==
  CASE x[1] = "o" /\ y[1] = "o" -> \A i \in DOMAIN x[2] : \E j \in DOMAIN y[2] : x[2][i][1] = y[2][j][1] /\ Shape(x[2][i][2], y[2][j][2])
    [] x[1] = "a" /\ y[1] = "a" -> x[2] = <<>> \/ \A j \in DOMAIN y[2] : Shape(IF j <= Len(x[2]) THEN x[2][j] ELSE x[2][1], y[2][j])
    [] OTHER -> x[1] = y[1]
TypeShape == One(<<Root>>, <<"type">>) => (Lax = {} <=> Shape(e, a))
(* strict matching accepts no more than the other *)
Narrower == Strict = {} => Lax = {}
(* a mismatch is at a place of one of the documents *)
RECURSIVE At(_, _)
At(v, ts) == ts = <<>> \/ (CASE v[1] = "o" -> \E i \in DOMAIN v[2] : JoinTok(v[2][i][1]) = Head(ts) /\ At(v[2][i][2], Tail(ts))
                             [] v[1] = "a" -> \E i \in DOMAIN v[2] : Index(IntStr(i - 1)) = Head(ts) /\ At(v[2][i], Tail(ts))
                             [] OTHER -> FALSE)
Placed == \A ts \in Lax \cup Strict : ts[1] = Root /\ (At(e, Tail(ts)) \/ At(a, Tail(ts)))
(* a rule that applies to no place of the documents changes nothing *)
Nodes(v) == IF v[1] \in {"o", "a"} THEN LET ps == IF v[1] = "o" THEN {<<JoinTok(v[2][i][1]), v[2][i][2]>> : i \in DOMAIN v[2]} ELSE {<<Index(IntStr(i - 1)), v[2][i]>> : i \in DOMAIN v[2]} IN ps ELSE {}
RECURSIVE Ways(_)
Ways(v) == {<<>>} \cup UNION {{<<n[1]>> \o w : w \in Ways(n[2])} : n \in Nodes(v)}
Idle == Len(es) = 1 /\ (\A w \in Ways(e) \cup Ways(a) : ~Matches(es[1].toks, Frags(<<Root>> \o w)))
        => Lax = M(<<Root>>, e, a, <<>>, FALSE) /\ Strict = M(<<Root>>, e, a, <<>>, TRUE)
(* an object or list is only accepted for one *)
Kinds == (e[1] \in {"o", "a"} /\ Lax = {}) => a[1] = e[1]
Emit == PrintT("VEC " \o ToJson([e |-> e', a |-> a', es |-> [i \in DOMAIN es' |-> es'[i]]]))
=============================================================================
