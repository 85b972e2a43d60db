-------------------------------- MODULE Expr ------------------------------
(* Provider state expressions: ${name} is replaced by the value a context   *)
(* holds for it.  Values: <<"n">>, <<"b",0/1>>, <<"d",number text>>,        *)
(* <<"s",text>>, and <<"j",JSON text>> for arrays and objects.              *)
EXTENDS Num
Fail == <<0>>
Ok(v) == <<1, v>>
Start == <<36, 123>>   \* ${
Close == 125
HasExpr(t) == ContainsStr(t, Start)
CHas(ctx, k) == \E i \in DOMAIN ctx : ctx[i][1] = k
CGet(ctx, k) == ctx[CHOOSE i \in DOMAIN ctx : ctx[i][1] = k][2]
Txt(t) == <<"s", t>>

(* the pieces of a text: literal texts and looked up values; Fail if an expression does not end *)
RECURSIVE Pieces(_, _, _)
Pieces(t, ctx, acc) ==
  LET i == FindFrom(t, Start, 1) IN
  IF i = 0 THEN Ok(IF t = <<>> THEN acc ELSE Append(acc, Txt(t)))
  ELSE LET e == IndexFrom(t, Close, i)
           pre == IF i = 1 THEN acc ELSE Append(acc, Txt(SubSeq(t, 1, i - 1))) IN
       IF e = 0 THEN Fail
       ELSE LET name == SubSeq(t, i + 2, e - 1) IN
            IF name = <<>> THEN Pieces(From(t, e + 1), ctx, pre)
            ELSE IF CHas(ctx, name) THEN Pieces(From(t, e + 1), ctx, Append(pre, CGet(ctx, name)))
            ELSE Fail
TextOf(v) == CASE v[1] = "n" -> <<>>
               [] v[1] = "b" -> IF v[2] = 1 THEN S("true") ELSE S("false")
               [] OTHER -> v[2]
JsonOf(v) == IF v[1] = "n" THEN S("null") ELSE TextOf(v)
(* a single value keeps its type, otherwise the pieces are joined *)
Subst(t, ctx) ==
  IF ~HasExpr(t) THEN Ok(Txt(t))
  ELSE LET p == Pieces(t, ctx, <<>>) IN
       IF p = Fail THEN Fail
       ELSE IF Len(p[2]) = 1 THEN Ok(p[2][1])
       ELSE Ok(Txt(Flat([k \in DOMAIN p[2] |-> TextOf(p[2][k])])))
(* what a generator with this expression has to offer: a plain text is the name of a value *)
Lookup(t, ctx) == IF HasExpr(t) THEN Subst(t, ctx)
                  ELSE IF CHas(ctx, t) THEN Ok(CGet(ctx, t)) ELSE Fail

(* ---- conversion to a data type ---- *)
IsInf(s) == Lower(Unsigned(s)) \in {S("inf"), S("infinity"), S("nan")}
TooBig(d) == ~IsZero(d) /\ d.exp > 308
One(b) == IF b THEN Dec(S("1")) ELSE Dec(S("0"))
(* the number in a value: [ok, dec], strings read as the given form *)
Num(d) == [ok |-> TRUE, dec |-> d]
None == [ok |-> FALSE, dec |-> Dec(S("0"))]
NumOf(v, isText(_)) ==
  CASE v[1] = "n" -> Num(One(FALSE))
    [] v[1] = "b" -> Num(One(v[2] = 1))
    [] v[1] = "d" -> Num(Dec(v[2]))
    [] v[1] = "s" -> IF isText(v[2]) THEN Num(Dec(v[2])) ELSE None
    [] OTHER -> None
(* unsigned types have no texts with a minus sign *)
ToInt(v, dt, r) ==
  LET pos(s) == IsIntText(s) /\ (r[1] = <<48>> => ~IsNeg(s))
      never(s) == FALSE
      x == CASE v[1] # "s" -> NumOf(v, never)
             [] dt \in {"INTEGER", "RAW", "STRING"} -> NumOf(v, pos)
             [] dt \in {"DECIMAL", "FLOAT"} -> NumOf(v, IsDecText)
             [] OTHER -> None
      t == Trunc(x.dec) IN
  IF x.ok /\ In(t, r) THEN [ok |-> TRUE, dec |-> t] ELSE None
ToFloat(v, dt) ==
  LET i64(s) == IsIntText(s) /\ In(Dec(s), I64)
      never(s) == FALSE IN
  CASE v[1] # "s" -> NumOf(v, never)
    [] dt = "INTEGER" -> NumOf(v, i64)
    [] dt = "BOOLEAN" -> None
    [] OTHER -> NumOf(v, IsDecText)
Bool(b) == IF b THEN <<1, 1>> ELSE <<1, 0>>
ToBool(v) ==
  CASE v[1] = "n" -> Bool(FALSE)
    [] v[1] = "b" -> <<1, v[2]>>
    [] v[1] = "d" -> LET d == Dec(v[2]) IN Bool(~IsZero(d) /\ ~d.neg)
    [] v[1] = "s" -> IF v[2] = S("true") THEN Bool(TRUE) ELSE IF v[2] = S("false") THEN Bool(FALSE) ELSE Fail
    [] OTHER -> Fail
(* does an observed JSON value (o = <<0>> for an error) hold the value as this type? *)
AsJson(v, dt, o) ==
  CASE dt = "RAW" -> o = Ok(v)
    [] dt = "STRING" -> o = Ok(Txt(JsonOf(v)))
    [] dt = "INTEGER" ->
         LET big(s) == IsIntText(s) /\ (In(Dec(s), I64) \/ (In(Dec(s), U64) /\ ~IsNeg(s)))
             n == NumOf(v, big)
             t == Trunc(n.dec) IN
         IF n.ok /\ (In(t, I64) \/ In(t, U64)) /\ (v[1] = "d" /\ ~IsIntText(v[2]) => In(t, I64))
         THEN o # Fail /\ o[2][1] = "d" /\ IsIntText(o[2][2]) /\ Dec(o[2][2]) = t
         ELSE o = Fail
    [] dt \in {"FLOAT", "DECIMAL"} ->
         LET n == NumOf(v, IsDecText) IN
         IF n.ok /\ ~TooBig(n.dec)
         THEN o # Fail /\ o[2][1] = "d" /\ IsDecText(o[2][2]) /\ ~IsIntText(o[2][2]) /\ SameFloat(n.dec, Dec(o[2][2]))
         ELSE o = Fail
    [] OTHER -> LET b == ToBool(v) IN IF b = Fail THEN o = Fail ELSE o = Ok(<<"b", b[2]>>)
(* and does an observed text? *)
AsText(v, dt, o) ==
  CASE dt \in {"RAW", "STRING"} -> o = Ok(TextOf(v))
    [] dt = "INTEGER" -> LET n == ToInt(v, dt, I64) IN
                         IF n.ok THEN o # Fail /\ IsIntText(o[2]) /\ Dec(o[2]) = n.dec ELSE o = Fail
    [] dt \in {"FLOAT", "DECIMAL"} ->
         LET n == ToFloat(v, dt) IN
         IF n.ok /\ ~TooBig(n.dec) THEN o # Fail /\ IsDecText(o[2]) /\ SameFloat(n.dec, Dec(o[2]))
         ELSE IF v[1] = "s" /\ (n.ok \/ IsInf(v[2])) THEN TRUE
         ELSE o = Fail
    [] OTHER -> LET b == ToBool(v) IN IF b = Fail THEN o = Fail ELSE o = Ok(IF b[2] = 1 THEN S("true") ELSE S("false"))
SameInt(n, o) == IF n.ok THEN o # Fail /\ IsIntText(o[2]) /\ Dec(o[2]) = n.dec ELSE o = Fail
=============================================================================
