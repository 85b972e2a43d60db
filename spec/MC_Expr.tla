------------------------------ MODULE MC_Expr -----------------------------
(* Texts typed one character at a time over the characters that matter      *)
EXTENDS Expr, Json
CONSTANTS MaxStr
Alphabet == {36, 123, 125, 97, 98}
Ctx == <<<<S("a"), <<"d", S("100")>>>>, <<S("ab"), <<"s", S("${a}")>>>>, <<S("{a"), <<"b", 1>>>>>>
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxStr /\ \E c \in Alphabet : s' = Append(s, c)
(* texts without expressions are kept, and substitution is not repeated *)
Kept == ~HasExpr(s) => Subst(s, Ctx) = Ok(Txt(s))
Local == LET r == Subst(s, Ctx) IN r # Fail =>
   \A c \in {97, 36} : LET q == Subst(Append(s, c), Ctx) IN
      (s # <<>> /\ HasExpr(s) /\ s # <<>>) => q = Ok(Txt(TextOf(r[2]) \o <<c>>))
Unclosed == HasExpr(s) /\ IndexFrom(s, Close, FindFrom(s, Start, 1)) = 0 => Subst(s, Ctx) = Fail
Emit == PrintT("VEC " \o ToJson([s |-> s']))
=============================================================================
