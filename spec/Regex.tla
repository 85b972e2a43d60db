------------------------------- MODULE Regex -------------------------------
(* Regular expressions as trees: <<"c",code>>, <<"set", seq of <<lo,hi>>>>,   *)
(* <<"d">> (digit), <<"w">> (word character), <<"cat", seq>>, <<"alt", seq>>, *)
(* <<"rep", x, min, max>> (max = -1: without limit).                          *)
EXTENDS Lib
Special == {92, 94, 36, 46, 124, 63, 42, 43, 40, 41, 91, 93, 123, 125, 47, 45}
EscC(c) == IF c \in Special THEN <<92, c>> ELSE <<c>>
RECURSIVE ReText(_)
Wrap(r) == IF r[1] \in {"cat", "alt", "rep"} THEN S("(") \o ReText(r) \o S(")") ELSE ReText(r)
ReText(r) ==
  CASE r[1] = "c" -> EscC(r[2])
    [] r[1] = "set" -> S("[") \o Flat([i \in DOMAIN r[2] |-> EscC(r[2][i][1]) \o (IF r[2][i][2] = r[2][i][1] THEN <<>> ELSE S("-") \o EscC(r[2][i][2]))]) \o S("]")
    [] r[1] = "d" -> S("\\d")
    [] r[1] = "w" -> S("\\w")
    [] r[1] = "cat" -> Flat([i \in DOMAIN r[2] |-> IF r[2][i][1] \in {"alt", "cat"} THEN Wrap(r[2][i]) ELSE ReText(r[2][i])])
    [] r[1] = "alt" -> JoinWith([i \in DOMAIN r[2] |-> ReText(r[2][i])], S("|"))
    [] OTHER -> Wrap(r[2]) \o
         (CASE r[3] = 0 /\ r[4] = 0 - 1 -> S("*")
            [] r[3] = 1 /\ r[4] = 0 - 1 -> S("+")
            [] r[3] = 0 /\ r[4] = 1 -> S("?")
            [] r[4] = 0 - 1 -> S("{") \o IntStr(r[3]) \o S(",}")
            [] r[3] = r[4] -> S("{") \o IntStr(r[3]) \o S("}")
            [] OTHER -> S("{") \o IntStr(r[3]) \o S(",") \o IntStr(r[4]) \o S("}"))

IsWord(c) == IsAlnum(c) \/ c = 95
OneOf(r, c) == CASE r[1] = "c" -> c = r[2]
                 [] r[1] = "set" -> \E i \in DOMAIN r[2] : c >= r[2][i][1] /\ c <= r[2][i][2]
                 [] r[1] = "d" -> IsDigit(c)
                 [] OTHER -> IsWord(c)
(* the places where a match that starts at one of the places in I can end *)
RECURSIVE Ends(_, _, _), CatEnds(_, _, _), RepEnds(_, _, _, _, _)
CatEnds(rs, s, I) == IF rs = <<>> \/ I = {} THEN I ELSE CatEnds(Tail(rs), s, Ends(Head(rs), s, I))
RepEnds(r, s, I, min, max) ==
  IF min > 0 THEN (IF I = {} THEN {} ELSE RepEnds(r, s, Ends(r, s, I), min - 1, IF max = 0 - 1 THEN max ELSE max - 1))
  ELSE IF max = 0 THEN I
  ELSE LET J == I \cup Ends(r, s, I) IN
       IF J = I THEN I ELSE RepEnds(r, s, J, 0, IF max = 0 - 1 THEN max ELSE max - 1)
Ends(r, s, I) ==
  CASE r[1] = "cat" -> CatEnds(r[2], s, I)
    [] r[1] = "alt" -> UNION {Ends(r[2][i], s, I) : i \in DOMAIN r[2]}
    [] r[1] = "rep" -> RepEnds(r[2], s, I, r[3], r[4])
    [] OTHER -> {i + 1 : i \in {j \in I : j <= Len(s) /\ OneOf(r, s[j])}}
FullMatch(r, s) == (Len(s) + 1) \in Ends(r, s, {1})

(* the words of a regular expression of up to n characters, over the characters A *)
RECURSIVE Words(_, _, _), CatWords(_, _, _), RepWords(_, _, _, _, _)
Cut(ws, n) == {w \in ws : Len(w) <= n}
Join2(X, Y, n) == Cut({x \o y : x \in X, y \in Y}, n)
CatWords(rs, A, n) == IF rs = <<>> THEN {<<>>} ELSE Join2(Words(Head(rs), A, n), CatWords(Tail(rs), A, n), n)
RepWords(r, A, n, min, max) ==
  IF max = 0 THEN {<<>>}
  ELSE LET once == Words(r, A, n)
           more == RepWords(r, A, n, IF min = 0 THEN 0 ELSE min - 1, max - 1) IN
       Join2(once, more, n) \cup (IF min = 0 THEN {<<>>} ELSE {})
Words(r, A, n) ==
  CASE r[1] = "cat" -> CatWords(r[2], A, n)
    [] r[1] = "alt" -> UNION {Words(r[2][i], A, n) : i \in DOMAIN r[2]}
    [] r[1] = "rep" -> RepWords(r[2], A, n, r[3], IF r[4] = 0 - 1 THEN r[3] + n ELSE r[4])
    [] OTHER -> {<<c>> : c \in {a \in A : OneOf(r, a)}}
=============================================================================
