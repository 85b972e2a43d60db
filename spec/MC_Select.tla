----------------------------- MODULE MC_Select ----------------------------
(* Every set of up to MaxEntries path expressions over small tokens, every  *)
(* way down a document: what selection promises.                            *)
EXTENDS Select, Json
CONSTANTS MaxEntries
Seg == {Field(S("a")), Field(S("b")), Index(S("0")), Star, StarIdx}
Exprs == {<<Root>>} \cup {<<Root, t>> : t \in Seg} \cup {<<Root, t, u>> : t, u \in Seg}
Ways == {<<S("$")>>} \cup {<<S("$"), x>> : x \in {S("a"), S("b"), S("0")}}
        \cup {<<S("$"), x, y>> : x, y \in {S("a"), S("b"), S("0")}}
        \cup {<<S("$"), x, y, S("a")>> : x, y \in {S("a"), S("0")}}
VARIABLE es
Entry(ts) == [toks |-> ts, expr |-> Render(ts), combine |-> S("AND"), rules |-> <<<<S("regex"), Render(ts)>>>>]
Init == es = <<>>
Add == Len(es) < MaxEntries /\ \E ts \in Exprs :
         /\ (\A i \in DOMAIN es : es[i].toks # ts) /\ es' = Append(es, Entry(ts))
Next == Add
(* an entry that is the very way down wins over all others *)
ExactWins == \A w \in Ways : \A i \in DOMAIN es :
  [k \in DOMAIN es[i].toks |-> TokStr(es[i].toks[k])] = w => Best(es, w) = {i}
(* replacing a wildcard by the exact step never makes an entry lose *)
MoreExact == \A w \in Ways : \A i \in DOMAIN es : \A k \in DOMAIN es[i].toks :
  Matches(es[i].toks, w) => Score([es[i].toks EXCEPT ![k] = IF Fit(@, w[k]) = 2 THEN @ ELSE Field(w[k])], w) >= Score(es[i].toks, w)
(* the selected entry is one that applies; none is selected only if none applies *)
Sound == \A w \in Ways : Best(es, w) \subseteq Applies(es, w) /\ (Best(es, w) = {} <=> Applies(es, w) = {})
Emit == Len(es') < MaxEntries \/ PrintT("VEC " \o ToJson([i \in DOMAIN es' |-> es'[i].toks]))
=============================================================================
