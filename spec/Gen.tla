-------------------------------- MODULE Gen -------------------------------
(* Generators: the values they may produce, the part of a document they     *)
(* change, and their JSON.  A generator is a tuple:                         *)
(*   <<"RandomInt", min, max>>  <<"Uuid", form or <<>>>>                     *)
(*   <<"RandomDecimal" | "RandomHexadecimal" | "RandomString", size>>        *)
(*   <<"Regex", text, tree>>  <<"Date" | "Time" | "DateTime", format, expr>> *)
(*   <<"RandomBoolean">>  <<"ProviderState", text, type>>                    *)
(*   <<"MockServerURL", example, regex, tail>>  <<"ArrayContains", variants>>*)
(* Optional parts are <<>> or <<part>>.  JSON values are the trees of Lib.   *)
EXTENDS Rules, Regex
E == INSTANCE Expr
N == INSTANCE Num
Miss == <<0>>
Done(v) == <<1, v>>
Opt(o) == o # <<>>

(* ---------------- values ---------------- *)
NoZeros(t) == LET u == N!Unsigned(t) IN t[1] # 43 /\ (Len(u) > 1 => u[1] # 48) /\ (N!IsNeg(t) => u # <<48>>)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
LowHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102)
UpHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70)
EachC(s, P(_)) == \A i \in DOMAIN s : P(s[i])
Hyphenated(s, P(_)) == Len(s) = 36 /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN s[i] = 45 ELSE P(s[i])
(* version 4, variant 1, without the hyphens *)
Bits(s) == LET t == SelectSeq(s, LAMBDA c : c # 45) IN Len(t) = 32 /\ t[13] = 52 /\ ToLower(t[17]) \in {56, 57, 97, 98}
UuidText(form, s) ==
  CASE form = <<"simple">> -> Len(s) = 32 /\ EachC(s, LowHex) /\ Bits(s)
    [] form = <<"upper-case-hyphenated">> -> Hyphenated(s, UpHex) /\ Bits(s)
    [] form = <<"URN">> -> StartsWith(s, S("urn:uuid:")) /\ Hyphenated(From(s, 10), LowHex) /\ Bits(From(s, 10))
    [] OTHER -> Hyphenated(s, LowHex) /\ Bits(s)
(* n digits, from two on with a point among them, and no leading zeros *)
DecimalText(n, s) ==
  CASE n = 0 -> s = <<>>
    [] n = 1 -> Len(s) = 1 /\ IsDigit(s[1])
    [] OTHER -> LET p == IndexFrom(s, Dot, 1) IN
                /\ Len(s) = n + 1 /\ p > 1 /\ p < Len(s)
                /\ \A i \in DOMAIN s : i # p => IsDigit(s[i])
                /\ (p > 2 => s[1] # 48)
NumberText(v) == CASE v[1] = "i" -> IntStr(v[2]) [] v[1] = "f" -> v[2] [] OTHER -> S("x")
(* a date of ten characters and a time of eight *)
Shape(s, form) == Len(s) = Len(form) /\ \A i \in DOMAIN s : IF form[i] = 48 THEN IsDigit(s[i]) ELSE s[i] = form[i] \/ (form[i] = 43 /\ s[i] = 45)
Iso(t, s) == CASE t = "Date" -> Shape(s, S("0000-00-00"))
               [] t = "Time" -> Shape(s, S("00:00:00"))
               [] OTHER -> Shape(s, S("0000-00-00T00:00:00.000+0000"))

(* contexts: values by name, the same under providerState, and the mock server *)
States(ctx) == IF Opt(ctx.nested) THEN ctx.nested[1] ELSE ctx.values
Found(g, ctx) == E!Lookup(g[2], States(ctx))
Type(g) == IF Opt(g[3]) THEN g[3][1] ELSE "RAW"
MockUrl(ctx) == ctx.mock     \* <<>> or <<url>>
FromJ(v) == CASE v[1] = "i" -> <<"d", IntStr(v[2])>>
              [] v[1] = "f" -> <<"d", v[2]>>
              [] OTHER -> v
(* the URL of the mock server, then the path the regular expression finds in the example;
   tail: <<0>> for a regular expression without a path, <<1>> if it is not found, <<2, path>> *)
MockText(g, ctx) == IF ~Opt(MockUrl(ctx)) \/ g[4] = <<0>> THEN Miss
                    ELSE IF g[4] = <<1>> THEN Done(g[2]) ELSE Done(MockUrl(ctx)[1] \o g[4][2])

(* may o be what the generator gives in place of a text? *)
TextOK(g, ctx, o) ==
  LET ok == o # Miss
      t == IF ok THEN o[2] ELSE <<>> IN
  CASE g[1] = "RandomInt" -> IF g[2] > g[3] THEN ~ok ELSE ok /\ N!IsIntText(t) /\ Len(t) <= 11 /\ N!InRange(N!Dec(t), IntStr(g[2]), IntStr(g[3])) /\ NoZeros(t)
    [] g[1] = "Uuid" -> ok /\ UuidText(g[2], t)
    [] g[1] = "RandomDecimal" -> ok /\ DecimalText(g[2], t)
    [] g[1] = "RandomHexadecimal" -> ok /\ Len(t) = g[2] /\ EachC(t, IsHex)
    [] g[1] = "RandomString" -> ok /\ Len(t) = g[2] /\ EachC(t, IsAlnum)
    [] g[1] = "Regex" -> ok /\ FullMatch(g[3], t)
    [] g[1] \in {"Date", "Time", "DateTime"} -> ok /\ (~Opt(g[2]) => Iso(g[1], t))
    [] g[1] = "RandomBoolean" -> ok /\ t \in {S("true"), S("false")}
    [] g[1] = "ProviderState" -> LET v == Found(g, ctx) IN IF v = E!Fail THEN ~ok ELSE E!AsText(v[2], Type(g), o)
    [] g[1] = "MockServerURL" -> o = MockText(g, ctx)
    [] OTHER -> ~ok

(* in place of a number without sign of 16 bits *)
U16OK(g, ctx, o) ==
  LET ok == o # Miss IN
  CASE g[1] = "RandomInt" -> LET lo == Max2(g[2], 0)
                                 hi == Min2(g[3], 65535) IN
                             IF lo > hi THEN ~ok ELSE ok /\ o[2] >= lo /\ o[2] <= hi
    [] g[1] = "ProviderState" -> LET v == Found(g, ctx) IN
                                 IF v = E!Fail THEN ~ok
                                 ELSE E!SameInt(E!ToInt(v[2], Type(g), N!U16), IF ok THEN Done(IntStr(o[2])) ELSE o)
    [] OTHER -> ~ok

Active(g, mode) == CASE g[1] = "ProviderState" -> mode = "Provider"
                     [] g[1] = "MockServerURL" -> mode = "Consumer"
                     [] OTHER -> TRUE

(* the places of a document that a path addresses: sequences of keys and indices *)
RECURSIVE Addr(_, _)
Addr(doc, ts) ==
  IF ts = <<>> THEN {<<>>}
  ELSE LET t == Head(ts)
           below(k, v) == {<<k>> \o p : p \in Addr(v, Tail(ts))} IN
       CASE t[1] = "field" -> IF JHas(doc, t[2]) THEN below(<<"k", t[2]>>, JGet(doc, t[2])) ELSE {}
         [] t[1] = "index" -> IF doc[1] = "a" /\ Len(t[2]) < 6 /\ NatOf(t[2]) < Len(doc[2]) THEN below(<<"i", NatOf(t[2])>>, doc[2][NatOf(t[2]) + 1]) ELSE {}
         [] t[1] = "star" -> IF doc[1] = "o" THEN UNION {below(<<"k", doc[2][i][1]>>, doc[2][i][2]) : i \in DOMAIN doc[2]} ELSE {}
         [] t[1] = "staridx" -> IF doc[1] = "a" THEN UNION {below(<<"i", i - 1>>, doc[2][i]) : i \in DOMAIN doc[2]} ELSE {}
         [] OTHER -> Addr(doc, Tail(ts))     \* the root
Addressed(doc, ts) == IF ts = <<>> THEN {} ELSE Addr(doc, ts)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* places, each with the generator for it; no two of them may overlap *)
Places(doc, gens) == UNION {{<<p, i>> : p \in Addressed(doc, gens[i][1])} : i \in DOMAIN gens}
Apart(pl) == \A x, y \in pl : x[2] # y[2] => ~Prefix(x[1], y[1])

(* may new be the document with the places generated anew (or kept, where the generator has no value)? *)
RECURSIVE JsonOK(_, _, _, _, _, _), Fits(_, _, _, _, _)
Fits(doc, new, at, gens, ctx) ==     \* gens: the active ones, <<places under doc, generator>>
  LET here == {x \in at : x[1] = <<>>}
      under(k) == {<<Tail(x[1]), x[2]>> : x \in {y \in at : y[1] # <<>> /\ y[1][1] = k}} IN
  IF at = {} THEN new = doc
  ELSE IF here # {} THEN
    LET g == gens[(CHOOSE x \in here : TRUE)[2]][2] IN
    \/ JsonOK(g, doc, ctx, Done(new), gens, at)
    \/ new = doc /\ JsonOK(g, doc, ctx, Miss, gens, at)
  ELSE /\ new[1] = doc[1] /\ doc[1] \in {"a", "o"} /\ Len(new[2]) = Len(doc[2])
       /\ \A i \in DOMAIN doc[2] :
            IF doc[1] = "a" THEN Fits(doc[2][i], new[2][i], under(<<"i", i - 1>>), gens, ctx)
            ELSE new[2][i][1] = doc[2][i][1] /\ Fits(doc[2][i][2], new[2][i][2], under(<<"k", doc[2][i][1]>>), gens, ctx)
(* may o be what the generator gives in place of the JSON value v? *)
JsonOK(g, v, ctx, o, gens, at) ==
  LET ok == o # Miss
      asText == IF ~ok THEN TextOK(g, ctx, Miss) ELSE o[2][1] = "s" /\ TextOK(g, ctx, Done(o[2][2])) IN
  CASE g[1] = "RandomInt" -> IF g[2] > g[3] THEN ~ok
                             ELSE IF v[1] = "s" THEN asText
                             ELSE ok /\ o[2][1] = "i" /\ o[2][2] >= g[2] /\ o[2][2] <= g[3]
    [] g[1] = "RandomDecimal" -> IF v[1] \notin {"i", "f"} THEN asText
                                 ELSE IF g[2] = 0 THEN ~ok
                                 ELSE ok /\ o[2][1] \in {"i", "f"} /\ N!IsDecText(NumberText(o[2])) /\ ~N!IsNeg(NumberText(o[2]))
                                      /\ (LET d == N!Dec(NumberText(o[2])) IN d.exp <= Max2(1, g[2] - 1) /\ (g[2] <= 15 => Len(d.digs) <= g[2]))
    [] g[1] = "RandomBoolean" -> ok /\ o[2][1] = "b"
    [] g[1] = "ProviderState" -> LET s == Found(g, ctx) IN
                                 IF s = E!Fail THEN ~ok ELSE E!AsJson(s[2], Type(g), IF ok THEN Done(FromJ(o[2])) ELSE E!Fail)
    [] g[1] = "ArrayContains" ->    \* every element that is a variant is generated with its generators
         IF v[1] # "a" THEN ~ok
         ELSE ok /\ o[2][1] = "a" /\ Len(o[2][2]) = Len(v[2])
              /\ \A i \in DOMAIN v[2] :
                   LET hits == {k \in DOMAIN g[2] : v[2][i][1] = "o" /\ JHas(v[2][i], S("v")) /\ JGet(v[2][i], S("v")) = JInt(g[2][k][1])} IN
                   IF hits = {} THEN o[2][2][i] = v[2][i]
                   ELSE LET gs == g[2][CHOOSE k \in hits : \A m \in hits : k <= m][2] IN
                        Fits(v[2][i], o[2][2][i], Places(v[2][i], gs), gs, ctx)
    [] OTHER -> asText
ActiveOnes(gens, mode) == SelectSeq(gens, LAMBDA x : Active(x[2], mode))
DocOK(doc, new, gens, mode, ctx) ==
  LET act == ActiveOnes(gens, mode)
      pl == Places(doc, act) IN
  Apart(pl) => Fits(doc, new, pl, act, ctx)

(* forms: a sequence of <<name, value>>; $.name is the first value of that name, $.name[n] the n-th *)
Before(ps, i) == Cardinality({k \in 1..(i - 1) : ps[k][1] = ps[i][1]})
Param(ps, ts) ==
  IF Len(ts) \in {2, 3} /\ ts[1] = Root /\ ts[2][1] = "field" /\ (Len(ts) = 3 => ts[3][1] = "index")
  THEN {i \in DOMAIN ps : ps[i][1] = ts[2][2] /\ IntStr(Before(ps, i)) = (IF Len(ts) = 2 THEN <<48>> ELSE ts[3][2])}
  ELSE {}
FormOK(ps, new, gens, mode, ctx) ==
  LET act == ActiveOnes(gens, mode)
      hits(i) == {k \in DOMAIN act : i \in Param(ps, act[k][1])} IN
  /\ Len(new) = Len(ps)
  /\ \A i \in DOMAIN ps :
       /\ new[i][1] = ps[i][1]
       /\ IF hits(i) = {} THEN new[i][2] = ps[i][2]
          ELSE \E k \in hits(i) : \/ TextOK(act[k][2], ctx, Done(new[i][2]))
                                  \/ new[i][2] = ps[i][2] /\ TextOK(act[k][2], ctx, Miss)

(* ---------------- JSON ---------------- *)
OptKV(name, o) == IF Opt(o) THEN <<KV(name, JStr(o[1]))>> ELSE <<>>
OptName(name, o) == IF Opt(o) THEN <<KV(name, JStr(S(o[1])))>> ELSE <<>>
Attrs(g) ==
  CASE g[1] = "RandomInt" -> <<KV("min", JInt(g[2])), KV("max", JInt(g[3]))>>
    [] g[1] = "Uuid" -> OptName("format", g[2])
    [] g[1] \in {"RandomDecimal", "RandomHexadecimal"} -> <<KV("digits", JInt(g[2]))>>
    [] g[1] = "RandomString" -> <<KV("size", JInt(g[2]))>>
    [] g[1] = "Regex" -> <<KV("regex", JStr(g[2]))>>
    [] g[1] \in {"Date", "Time", "DateTime"} -> OptKV("format", g[2]) \o OptKV("expression", g[3])
    [] g[1] = "ProviderState" -> <<KV("expression", JStr(g[2]))>> \o OptName("dataType", g[3])
    [] g[1] = "MockServerURL" -> <<KV("example", JStr(g[2])), KV("regex", JStr(g[3]))>>
    [] OTHER -> <<>>
GenJson(g) == O(<<KV("type", JStr(S(g[1])))>> \o Attrs(g))
GenTypes == {"RandomInt", "Uuid", "RandomDecimal", "RandomHexadecimal", "RandomString", "Regex", "Date", "Time", "DateTime", "RandomBoolean", "ProviderState", "MockServerURL"}
IntAt(o, k, lo, hi, dflt) == IF Has(o, k) /\ Attr(o, k)[1] = "i" /\ Attr(o, k)[2] >= lo /\ Attr(o, k)[2] <= hi THEN Attr(o, k)[2] ELSE dflt
Lowest == (0 - 2147483647) - 1
TextAt(o, k) == IF Has(o, k) THEN Text(Attr(o, k)) ELSE <<>>
OptText(o, k) == IF Has(o, k) THEN <<Text(Attr(o, k))>> ELSE <<>>
Textual(o) == \A k \in {"format", "expression", "regex", "example"} : Has(o, k) => Texty(Attr(o, k))
DataTypes == {"STRING", "INTEGER", "DECIMAL", "FLOAT", "BOOLEAN"}
Forms == {"simple", "lower-case-hyphenated", "upper-case-hyphenated", "URN"}
(* <<>>: no generator; k = "any" where it is not specified *)
ReadGen(t, o) ==
  IF ~Textual(o) THEN AnyR
  ELSE IF ~\E n \in GenTypes : S(n) = t THEN OkR(<<>>)
  ELSE LET n == CHOOSE x \in GenTypes : S(x) = t IN
  CASE n = "RandomInt" -> OkR(<<<<n, IntAt(o, "min", Lowest, 2147483647, 0), IntAt(o, "max", Lowest, 2147483647, 10)>>>>)
    [] n = "Uuid" -> OkR(<<<<n, LET f == TextAt(o, "format") IN IF \E x \in Forms : S(x) = f THEN <<CHOOSE x \in Forms : S(x) = f>> ELSE <<>>>>>>)
    [] n \in {"RandomDecimal", "RandomHexadecimal"} -> OkR(<<<<n, IntAt(o, "digits", 0, 65535, 10)>>>>)
    [] n = "RandomString" -> OkR(<<<<n, IntAt(o, "size", 0, 65535, 10)>>>>)
    [] n = "Regex" -> OkR(IF Has(o, "regex") THEN <<<<n, TextAt(o, "regex"), <<>>>>>> ELSE <<>>)
    [] n \in {"Date", "Time", "DateTime"} -> OkR(<<<<n, OptText(o, "format"), OptText(o, "expression")>>>>)
    [] n = "RandomBoolean" -> OkR(<<<<n>>>>)
    [] n = "ProviderState" -> OkR(IF ~Has(o, "expression") THEN <<>>
         ELSE <<<<n, TextAt(o, "expression"),
                 IF ~Has(o, "dataType") THEN <<>>
                 ELSE LET d == Attr(o, "dataType") IN
                      IF d[1] = "s" /\ \E x \in DataTypes : S(x) = Upper(d[2]) THEN <<CHOOSE x \in DataTypes : S(x) = Upper(d[2])>> ELSE <<"RAW">>>>>>)
    [] OTHER -> OkR(<<<<n, TextAt(o, "example"), TextAt(o, "regex"), <<>>>>>>)

(* sets of generators: a function from categories to sequences of <<tokens, generator, path text>> *)
Single == {"path", "method", "status"}
GenCats == {"method", "path", "header", "query", "body", "status", "metadata"}
KeyOf(cat, e) == IF cat \in {"header", "query"} THEN FieldsIn(e[1])[1][2] ELSE e[3]
Written(es) == SelectSeq(es, LAMBDA e : e[2][1] # "ArrayContains")
CatJson(cat, es) == IF cat \in Single THEN GenJson(es[1][2])
                    ELSE O([i \in DOMAIN es |-> <<KeyOf(cat, es[i]), GenJson(es[i][2])>>])
GensJson(gs) == O(LET ks == SelectSeq(gs, LAMBDA c : Written(c[2]) # <<>>) IN
                  [i \in DOMAIN ks |-> <<S(ks[i][1]), CatJson(ks[i][1], Written(ks[i][2]))>>])
(* empty categories do not matter *)
NoEmpties(j) == IF j[1] # "o" THEN j ELSE JObj(SelectSeq(j[2], LAMBDA m : m[2] # JObj(<<>>)))
(* the meaning: what is where *)
Where(cat, e) == IF cat \in Single THEN <<>> ELSE IF cat \in {"header", "query"} THEN <<Root, Field(FieldsIn(e[1])[1][2])>> ELSE <<e[1], e[3]>>
Meaning(gs) == {<<gs[i][1], {<<Where(gs[i][1], Written(gs[i][2])[k]), Written(gs[i][2])[k][2]>> : k \in DOMAIN Written(gs[i][2])}>> : i \in {j \in DOMAIN gs : Written(gs[j][2]) # <<>>}}
GenCatOf(k) == {c \in GenCats : S(c) = Lower(k)}
TypeOf(o) == IF o[1] = "o" /\ Has(o, "type") /\ Attr(o, "type")[1] = "s" THEN <<Attr(o, "type")[2]>> ELSE <<>>
ReadOne(o) == IF TypeOf(o) = <<>> THEN OkR(<<>>) ELSE ReadGen(TypeOf(o)[1], o)
(* later entries for the same place replace earlier ones *)
RECURSIVE PutAll(_, _)
PutAll(es, acc) == IF es = <<>> THEN acc
                   ELSE LET e == Head(es) IN PutAll(Tail(es), {x \in acc : x[1] # e[1]} \cup {e})
ReadCat(cat, o) ==
  IF cat \in Single THEN LET r == ReadOne(o) IN IF r.k # "ok" THEN r ELSE OkR([i \in DOMAIN r.r |-> <<<<>>, r.r[i]>>])
  ELSE LET ms == SelectSeq(o[2], LAMBDA m : m[2][1] = "o")
           one(m) == LET p == IF cat \in {"header", "query"} THEN [ok |-> TRUE, toks |-> <<Root, Field(m[1])>>] ELSE Parse(m[1])
                         r == ReadOne(m[2]) IN
                     IF ~p.ok THEN ErrR ELSE IF r.k # "ok" THEN r ELSE OkR([i \in DOMAIN r.r |-> <<IF cat \in {"header", "query"} THEN p.toks ELSE <<p.toks, m[1]>>, r.r[i]>>])
           all == All([i \in DOMAIN ms |-> one(ms[i])]) IN
       IF all.k # "ok" THEN all ELSE OkR(Flat(all.r))
ReadGenerators(j) ==
  IF j[1] # "o" THEN OkR({})
  ELSE LET ms == SelectSeq(j[2], LAMBDA m : m[2][1] = "o" /\ GenCatOf(m[1]) # {})
           rs == [i \in DOMAIN ms |-> LET c == CHOOSE x \in GenCatOf(ms[i][1]) : TRUE
                                          r == ReadCat(c, ms[i][2]) IN
                                      IF r.k # "ok" THEN r ELSE OkR([k \in DOMAIN r.r |-> <<<<c, r.r[k][1]>>, r.r[k][2]>>])]
           all == All(rs) IN
       IF all.k # "ok" THEN all
       ELSE LET es == PutAll(Flat(all.r), {}) IN
            OkR({<<c, {<<e[1][2], e[2]>> : e \in {x \in es : x[1][1] = c}}>> : c \in {x[1][1] : x \in es}})
=============================================================================
