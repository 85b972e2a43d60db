------------------------------ MODULE Select ------------------------------
(* Which matching rules apply to a node.  A category is a sequence of       *)
(* entries [toks, expr, combine, rules] (distinct expr); rules are opaque.  *)
EXTENDS Path
NoRules == [combine |-> S("AND"), rules |-> <<>>]
ListOf(e) == [combine |-> e.combine, rules |-> e.rules]
Applies(es, path) == {i \in DOMAIN es : Matches(es[i].toks, path)}
Best(es, path) == LET ap == Applies(es, path) IN
  {i \in ap : \A j \in ap : Score(es[i].toks, path) >= Score(es[j].toks, path)}
IsCollection(cat) == cat \in {"header", "query", "body", "contents", "metadata"}
ByWeight(cat) == cat \in {"body", "metadata"}
Candidates(cat, es, path) == IF IsCollection(cat) THEN Best(es, path) ELSE DOMAIN es
Resolved(cat, es, path) == IF IsCollection(cat) THEN Applies(es, path) ELSE DOMAIN es
(* an entry that ends above the node cascades down to it *)
Cascades(e, path) == Len(e.toks) # Len(path)

TypeRules == {S("type"), S("min"), S("max"), S("minmax")}
WildcardDefined(cat, es, path) ==
  CASE cat = "body" -> \E i \in DOMAIN es : MatchesExactly(es[i].toks, path) /\ es[i].toks # <<>> /\ Last(es[i].toks) = Star
    [] cat \in {"header", "query"} -> \E i \in DOMAIN es :
          LET fs == SelectSeq(es[i].toks, LAMBDA t : t[1] = "field") IN
          Len(path) = 1 /\ fs # <<>> /\ fs[1][2] = path[1] /\ Last(es[i].toks) = Star
    [] OTHER -> \E i \in DOMAIN es : es[i].toks # <<>> /\ Last(es[i].toks) = Star

SelectOK(cat, es, path, o) ==
  LET c == Candidates(cat, es, path)
      r == Resolved(cat, es, path) IN
  /\ IF c = {} THEN o.best = NoRules /\ ~o.cascaded
     ELSE \E i \in c : o.best = ListOf(es[i]) /\ o.cascaded = (ByWeight(cat) /\ Cascades(es[i], path))
  /\ Range(o.resolved) = {es[i].expr : i \in r} /\ Len(o.resolved) = Cardinality(r)
  /\ o.defined = <<r # {}, r # {}>>
  /\ o.type = (\E i \in r : \E k \in DOMAIN es[i].rules : es[i].rules[k][1] \in TypeRules)
  /\ o.wildcard = WildcardDefined(cat, es, path)
  /\ IF cat # "body" \/ Best(es, path) = {} THEN o.body = NoRules ELSE \E i \in Best(es, path) : o.body = ListOf(es[i])
=============================================================================
