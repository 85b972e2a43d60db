------------------------------ MODULE Match -------------------------------
(* Matching a JSON body against an example with matching rules: the places  *)
(* at which the actual body does not match. Values are the tagged JSON      *)
(* values of Lib, a category is a sequence of entries as in Select, a rule  *)
(* is a tuple <<name, arguments...>>, a place is a sequence of path tokens. *)
EXTENDS Select
RE == INSTANCE Regex
DP == INSTANCE DatePattern
JT == INSTANCE JsonText
NM == INSTANCE Num

Text(v) == IF v[1] = "s" THEN v[2] ELSE JT!PrintJson(v)
(* a whole number too big for TLC is kept as its text *)
Whole(v) == v[1] = "i" \/ (v[1] = "f" /\ AllDigits(NM!Unsigned(v[2])))
IsNumber(v) == v[1] \in {"i", "f"}
TypeOf(v) == IF IsNumber(v) THEN "number" ELSE v[1]
SameType(e, a) == TypeOf(e) = TypeOf(a)
IsEmpty(v) == v[1] = "n" \/ (v[1] \in {"s", "a", "o"} /\ v[2] = <<>>)
Keys(o) == {o[2][i][1] : i \in DOMAIN o[2]}

(* ---- texts the rules ask for ---- *)
Default(name, fmt) == IF fmt # <<>> THEN fmt
  ELSE CASE name = "date" -> S("yyyy-MM-dd") [] name = "time" -> S("HH:mm:ss") [] OTHER -> S("yyyy-MM-dd'T'HH:mm:ssXXX")
IsDateText(name, fmt, t) == LET ts == DP!Read(Default(name, fmt)) IN ~DP!IsBad(ts) /\ DP!MustAccept(ts, t)
(* the numbers of a version, without leading zeros and of 64 bits *)
IsVersionNum(t) == AllDigits(t) /\ FitsIndex(t) /\ (Len(t) = 1 \/ t[1] # 48)
IsIdents(t, pre) == \A i \in DOMAIN Split(t, 46) : LET d == Split(t, 46)[i] IN
  /\ d # <<>> /\ \A k \in DOMAIN d : IsAlnum(d[k]) \/ d[k] = 45
  /\ pre /\ AllDigits(d) => Len(d) = 1 \/ d[1] # 48
IsSemver(t) ==
  LET plus == IndexFrom(t, 43, 1)
      main == IF plus = 0 THEN t ELSE SubSeq(t, 1, plus - 1)
      dash == IndexFrom(main, 45, 1)
      core == IF dash = 0 THEN main ELSE SubSeq(main, 1, dash - 1)
      ns == Split(core, 46) IN
  /\ Len(ns) = 3 /\ \A i \in 1..3 : IsVersionNum(ns[i])
  /\ dash # 0 => IsIdents(From(main, dash + 1), TRUE)
  /\ plus # 0 => IsIdents(From(t, plus + 1), FALSE)
IsBoolText(t) == t \in {S("true"), S("false")}
FitsInt(t) == NM!IsIntText(t) /\ FitsIndex(NM!Unsigned(t))

(* ---- a rule, on a value that stands for itself ---- *)
SizeOK(r, v, casc) ==
  CASE casc \/ v[1] \notin {"a", "o"} -> TRUE
    [] r[1] = "min" -> Len(v[2]) >= r[2]
    [] r[1] = "max" -> Len(v[2]) <= r[2]
    [] OTHER -> Len(v[2]) >= r[2] /\ Len(v[2]) <= r[3]
ValueOK(r, e, a, casc) ==
  CASE r[1] = "regex" -> RE!FullMatch(r[2], Text(a))
    [] r[1] = "include" -> ContainsStr(Text(a), r[2])
    [] r[1] = "type" -> SameType(e, a)
    [] r[1] \in {"min", "max", "minmax"} -> SameType(e, a) /\ SizeOK(r, a, casc)
    [] r[1] \in {"equality", "values"} -> e = a
    [] r[1] = "null" -> a[1] = "n"
    [] r[1] = "integer" -> Whole(a)
    [] r[1] = "decimal" -> a[1] = "f" /\ ~Whole(a)
    [] r[1] = "number" -> IsNumber(a)
    [] r[1] \in {"date", "time", "datetime"} -> IsDateText(r[1], r[2], Text(a))
    [] r[1] = "boolean" -> a[1] = "b" \/ (a[1] = "s" /\ IsBoolText(a[2]))
    [] r[1] = "notEmpty" -> ~IsEmpty(a)
    [] r[1] = "semver" -> a[1] = "s" /\ IsSemver(a[2])
    [] OTHER -> TRUE
(* a rule on a text alone, without an example *)
TextOK(r, t) ==
  CASE r[1] = "regex" -> RE!FullMatch(r[2], t)
    [] r[1] = "include" -> ContainsStr(t, r[2])
    [] r[1] \in {"type", "min", "max", "minmax"} -> TRUE
    [] r[1] \in {"equality", "values"} -> t = <<>>
    [] r[1] \in {"number", "decimal"} -> NM!IsDecText(t)
    [] r[1] = "integer" -> FitsInt(t)
    [] r[1] \in {"date", "time", "datetime"} -> IsDateText(r[1], r[2], t)
    [] r[1] = "boolean" -> IsBoolText(t)
    [] r[1] = "notEmpty" -> t # <<>>
    [] r[1] = "semver" -> IsSemver(t)
    [] OTHER -> FALSE
(* a rule on the object or list as such (what it holds is matched on its own) *)
ObjectOK(r, e, a, casc) ==
  CASE r[1] \in {"regex", "type", "values", "arrayContains", "eachKey", "eachValue"} -> TRUE
    [] r[1] \in {"min", "max", "minmax"} -> SizeOK(r, a, casc)
    [] r[1] = "equality" -> e = a
    [] r[1] = "notEmpty" -> a[2] # <<>>
    [] OTHER -> FALSE
ListOK(r, e, a, casc) ==
  CASE r[1] \in {"min", "max", "minmax"} -> SizeOK(r, a, casc)
    [] r[1] = "equality" -> e = a
    [] r[1] = "notEmpty" -> a[2] # <<>>
    [] r[1] \in {"null", "statusCode"} -> FALSE
    [] OTHER -> TRUE

(* ---- the rules that apply to a place ---- *)
Frags(ts) == [i \in DOMAIN ts |-> TokStr(ts[i])]
Step(ts, k) == Append(ts, JoinTok(k))
(* of entries with the same score the one with the greatest expression applies *)
Top(es, c) == CHOOSE i \in c : \A j \in c : Cmp(Render(es[i].toks), Render(es[j].toks)) >= 0
Pick(es, ts) ==
  LET c == Best(es, Frags(ts)) IN
  IF c = {} THEN [found |-> FALSE, or |-> FALSE, rules |-> <<>>, casc |-> FALSE]
  ELSE LET e == es[Top(es, c)] IN [found |-> TRUE, or |-> e.combine = S("OR"), rules |-> e.rules, casc |-> Cascades(e, ts)]
Exactly(es, ts) == SelectSeq(es, LAMBDA x : MatchesExactly(x.toks, Frags(ts)))
Free(es, ts) == LET own == Exactly(es, ts) IN
  own # <<>> /\ LET p == Pick(own, ts) IN \E i \in DOMAIN p.rules : p.rules[i][1] \in {"values", "eachKey", "eachValue"}
Combine(or, ms) ==                                    \* ms: the mismatches of every rule
  IF or /\ \E i \in DOMAIN ms : ms[i] = {} THEN {} ELSE UNION Range(ms)
SubRules(def) == SelectSeq(def, LAMBDA r : r[1] # "ref")
HasRef(def) == \E i \in DOMAIN def : def[i][1] = "ref"
(* what an eachValue rule says about the members of ts *)
Inside(ts, def) == <<[toks |-> Append(ts, Star), combine |-> S("AND"), rules |-> SubRules(def)]>>
Everywhere == <<[toks |-> <<>>, combine |-> S("AND"), rules |-> <<<<"equality">>>>]>>

(* the keys of an object: all those of the example are there, and if strict no others *)
KeysM(ts, e, a, es, strict) ==
  LET own == Exactly(es, ts)
      p == Pick(es, ts)
      wrong == IF strict THEN Keys(e) # Keys(a) ELSE ~(Keys(e) \subseteq Keys(a))
      each == IF own = <<>> THEN {} ELSE {i \in DOMAIN p.rules : p.rules[i][1] = "eachKey"} IN
  (IF ~Free(es, ts) /\ wrong THEN {ts} ELSE {})
  \cup UNION {LET def == p.rules[i][2] sub == SubRules(def) IN
              (IF HasRef(def) THEN {ts} ELSE {})
              \cup {Step(ts, k) : k \in {x \in Keys(a) : \E j \in DOMAIN sub : ~TextOK(sub[j], x)}} : i \in each}

RECURSIVE M(_, _, _, _, _), ObjM(_, _, _, _, _), ListM(_, _, _, _, _), ObjRuleM(_, _, _, _, _, _, _), ListRuleM(_, _, _, _, _, _, _), ItemsM(_, _, _, _, _), VariantM(_, _, _, _, _)
M(ts, e, a, es, strict) ==
  CASE e[1] = "o" -> IF a[1] = "o" THEN ObjM(ts, e, a, es, strict) ELSE {ts}
    [] e[1] = "a" -> IF a[1] = "a" THEN ListM(ts, e, a, es, strict) ELSE {ts}
    [] OTHER -> LET p == Pick(es, ts) IN
       IF ~p.found THEN (IF e = a THEN {} ELSE {ts})
       ELSE IF p.rules = <<>> THEN {ts}
       ELSE Combine(p.or, [i \in DOMAIN p.rules |-> IF ValueOK(p.rules[i], e, a, p.casc) THEN {} ELSE {ts}])

MembersM(ts, e, a, es, strict) == UNION {M(Step(ts, k), JGet(e, k), JGet(a, k), es, strict) : k \in Keys(e) \cap Keys(a)}
ObjM(ts, e, a, es, strict) ==
  LET p == Pick(es, ts) IN
  IF strict /\ e[2] = <<>> /\ a[2] # <<>> THEN {ts}
  ELSE IF p.found THEN Combine(p.or, [i \in DOMAIN p.rules |-> ObjRuleM(p.rules[i], p.casc, ts, e, a, es, strict)])
  ELSE KeysM(ts, e, a, es, strict) \cup MembersM(ts, e, a, es, strict)
ObjRuleM(r, casc, ts, e, a, es, strict) ==
  IF ~casc /\ r[1] \in {"values", "eachValue"} THEN
    LET es2 == IF r[1] = "values" THEN es ELSE Inside(ts, r[2]) IN
    (IF r[1] = "eachValue" /\ HasRef(r[2]) THEN {ts} ELSE {})
    \cup UNION {IF JHas(e, k) THEN M(Step(ts, k), JGet(e, k), JGet(a, k), es2, strict)
                ELSE IF e[2] # <<>> THEN M(Step(ts, k), e[2][1][2], JGet(a, k), es2, strict) ELSE {} : k \in Keys(a)}
  ELSE (IF ObjectOK(r, e, a, casc) THEN {} ELSE {ts}) \cup KeysM(ts, e, a, es, strict) \cup MembersM(ts, e, a, es, strict)

(* the items of a list against the example; further ones against the first of the example *)
ItemsM(ts, e, a, es, strict) ==
  LET Nth(i) == IF i <= Len(e[2]) THEN e[2][i] ELSE e[2][1]
      At(i) == Step(ts, IntStr(i - 1)) IN
  IF e[2] = <<>> THEN {}
  ELSE UNION {M(At(i), Nth(i), a[2][i], es, strict) : i \in DOMAIN a[2]}
       \cup (IF \E i \in Len(a[2]) + 1..Len(e[2]) : ~Pick(es, At(i)).found THEN {ts} ELSE {})
ListM(ts, e, a, es, strict) ==
  LET p == Pick(es, ts)
      At(i) == Step(ts, IntStr(i - 1))
      both == Min2(Len(e[2]), Len(a[2])) IN
  IF p.found THEN (IF p.rules = <<>> THEN {ts} ELSE Combine(p.or, [i \in DOMAIN p.rules |-> ListRuleM(p.rules[i], p.casc, ts, e, a, es, strict)]))
  ELSE (IF Len(e[2]) # Len(a[2]) THEN {ts} ELSE {})
       \cup (IF e[2] = <<>> THEN {} ELSE UNION {M(At(i), e[2][i], a[2][i], es, strict) : i \in 1..both})
(* every variant is found at some place of the list *)
VariantM(ts, item, a, es, strict) ==
  IF \E i \in DOMAIN a[2] : M(<<Root>>, item, a[2][i], es, strict) = {} THEN {} ELSE {ts}
ListRuleM(r, casc, ts, e, a, es, strict) ==
  CASE r[1] = "arrayContains" ->
         IF e[2] = <<>> THEN {}
         ELSE LET vs == IF r[2] # <<>> THEN r[2] ELSE [i \in DOMAIN e[2] |-> <<i - 1, Everywhere>>] IN
              UNION {IF vs[i][1] < Len(e[2]) THEN VariantM(ts, e[2][vs[i][1] + 1], a, vs[i][2], strict) ELSE {ts} : i \in DOMAIN vs}
    [] r[1] = "eachValue" ->
         IF casc \/ e[2] = <<>> THEN {}
         ELSE (IF HasRef(r[2]) THEN {ts} ELSE {}) \cup ItemsM(ts, e, a, Inside(ts, r[2]), strict)
    [] OTHER -> (IF ListOK(r, e, a, casc) THEN {} ELSE {ts}) \cup ItemsM(ts, e, a, es, strict)

(* what is reported: the places as path expressions *)
Mismatches(e, a, es, strict) == {Render(ts) : ts \in M(<<Root>>, e, a, es, strict)}
=============================================================================
