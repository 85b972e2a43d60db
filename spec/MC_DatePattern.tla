-------------------------- MODULE MC_DatePattern -------------------------
(* Patterns built field by field, with and without separators: whatever an  *)
(* instant is formatted as has the form of the pattern, is read back whole  *)
(* unless digits of variable length follow each other, and is a valid date. *)
EXTENDS DatePattern, Json
CONSTANTS MaxFields, MaxCount, Seps
Letters == S("GyYuMLDdQqwWFEecahHkKmsSnANxXZOV")
Counts(c) == 1..Min2(MaxCount, Most(c))
Run(c, n) == [k \in 1..n |-> c]
Menu == UNION {{Run(Letters[i], n) : n \in Counts(Letters[i])} : i \in DOMAIN Letters}
AllSeps == {<<>>, <<32>>, S("'T'"), S("''"), S(":"), S("'o''clock'")}
FewSeps == {<<>>, S(":")}
VARIABLES p, fields
Init == p = <<>> /\ fields = 0
Next == fields < MaxFields /\ \E f \in Menu : \E q \in Seps :
          /\ (fields = 0 => q \in {<<>>, S("'T'")})
          /\ ~(q = <<>> /\ p # <<>> /\ p[Len(p)] = f[1])
          /\ p' = p \o q \o f /\ fields' = fields + 1
At(y, m, d, sec, nanos, off) == [y |-> y, m |-> m, d |-> d, sec |-> sec, nanos |-> nanos, off |-> off]
Instants == {At(2024, 2, 29, 0, 0, 0), At(2023, 12, 31, 86399, 999999999, 45000), At(2000, 1, 1, 43200, 7000000, 0-12600), At(2021, 10, 5, 36061, 123456789, 50400)}
Adjacent(ts) == \E i \in 1..Len(ts) - 1 : ts[i][1] = "field" /\ (ts[i + 1][1] = "field"
   \/ (ts[i + 1][1] = "text" /\ ts[i + 1][2][1] = 58 /\ Ch(ts[i][2]) \in {"O", "Z", "x", "X", "V"}))
RECURSIVE SomeText(_, _, _)
SomeText(ts, x, long) == IF ts = <<>> THEN <<>>
  ELSE LET c == Texts(Head(ts), x) IN
       (CHOOSE t \in c : \A q \in c : IF long THEN Len(q) <= Len(t) ELSE Len(t) <= Len(q)) \o SomeText(Tail(ts), x, long)
RoundTrip == p = <<>> \/ LET ts == Read(p) IN
   IsBad(ts) \/ \A x \in Instants : \A long \in BOOLEAN : LET v == SomeText(ts, x, long) IN
      PrintsAs(ts, x, v) /\ HasForm(ts, v) /\ (~Adjacent(ts) => MustAccept(ts, v))
Readable == p = <<>> \/ ~IsBad(Read(p))
Emit == PrintT("VEC " \o ToJson([p |-> p']))
ASSUME IsoWeek(At(2026, 1, 1, 0, 0, 0)) = 1 /\ IsoWeek(At(2021, 1, 1, 0, 0, 0)) = 53 /\ IsoWeek(At(2024, 12, 31, 0, 0, 0)) = 1
ASSUME SundayWeek(At(2026, 1, 1, 0, 0, 0)) = 0 /\ SundayWeek(At(2023, 1, 1, 0, 0, 0)) = 1
=============================================================================
