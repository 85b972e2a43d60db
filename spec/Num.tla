-------------------------------- MODULE Num -------------------------------
(* Numbers as texts.  TLC's integers have 32 bits, so numbers are compared  *)
(* as decimal digits: [neg, digs, exp] is 0.digs * 10^exp, without leading  *)
(* or trailing zeros; zero has no digits.                                   *)
EXTENDS Lib
RECURSIVE DropLead(_)
DropLead(d) == IF d # <<>> /\ d[1] = 48 THEN DropLead(Tail(d)) ELSE d
RECURSIVE DropTrail(_)
DropTrail(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN DropTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
MkDec(neg, ip, fp, e) ==
  LET all == ip \o fp
      lead == DropLead(all)
      digs == DropTrail(lead) IN
  IF digs = <<>> THEN [neg |-> FALSE, digs |-> <<>>, exp |-> 0]
  ELSE [neg |-> neg, digs |-> digs, exp |-> Len(ip) + e - (Len(all) - Len(lead))]

HasSign(s) == s # <<>> /\ s[1] \in {43, 45}
Unsigned(s) == IF HasSign(s) THEN Tail(s) ELSE s
IsNeg(s) == s # <<>> /\ s[1] = 45
(* integer texts: sign, digits *)
IsIntText(s) == AllDigits(Unsigned(s))
FirstOf(s, cset) == IF \E i \in DOMAIN s : s[i] \in cset
                    THEN CHOOSE i \in DOMAIN s : s[i] \in cset /\ \A j \in 1..(i-1) : s[j] \notin cset
                    ELSE 0
ZeroOrDigits(s) == \A i \in DOMAIN s : IsDigit(s[i])
(* decimal texts: sign, digits with at most one point, exponent *)
IsDecText(s) ==
  LET u == Unsigned(s)
      e == FirstOf(u, {101, 69})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN <<48>> ELSE From(u, e + 1)
      p == FirstOf(m, {46})
      ip == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      fp == IF p = 0 THEN <<>> ELSE From(m, p + 1) IN
  /\ IsIntText(x)
  /\ ZeroOrDigits(ip) /\ ZeroOrDigits(fp) /\ ip \o fp # <<>>
ExpOf(x) == LET d == DropLead(Unsigned(x)) IN
            IF Len(d) > 6 THEN (IF IsNeg(x) THEN 0-999999 ELSE 999999) ELSE IF IsNeg(x) THEN 0 - NatOf(d) ELSE NatOf(d)
Dec(s) ==
  LET u == Unsigned(s)
      e == FirstOf(u, {101, 69})
      m == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      x == IF e = 0 THEN 0 ELSE ExpOf(From(u, e + 1))
      p == FirstOf(m, {46})
      ip == IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1)
      fp == IF p = 0 THEN <<>> ELSE From(m, p + 1) IN
  MkDec(IsNeg(s), ip, fp, x)
IsZero(d) == d.digs = <<>>
(* the integer part, as a decimal without fraction *)
Trunc(d) == IF d.exp <= 0 THEN MkDec(FALSE, <<>>, <<>>, 0)
            ELSE IF Len(d.digs) <= d.exp THEN d
            ELSE MkDec(d.neg, SubSeq(d.digs, 1, d.exp), <<>>, 0)
IsWhole(d) == Len(d.digs) <= d.exp \/ IsZero(d)
(* comparison of magnitudes and values *)
CmpMag(a, b) == IF IsZero(a) \/ IsZero(b) THEN (IF IsZero(a) /\ IsZero(b) THEN 0 ELSE IF IsZero(a) THEN 0-1 ELSE 1)
                ELSE IF a.exp # b.exp THEN (IF a.exp < b.exp THEN 0-1 ELSE 1)
                ELSE Cmp(a.digs, b.digs)
CmpDec(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN 0-1 ELSE 1)
                ELSE IF a.neg THEN CmpMag(b, a) ELSE CmpMag(a, b)
InRange(d, lo, hi) == CmpDec(Dec(lo), d) <= 0 /\ CmpDec(d, Dec(hi)) <= 0
(* a double holds at least 15 digits of a number *)
SameFloat(d, o) == IF Len(d.digs) <= 15 THEN o = d
                   ELSE \/ o.neg = d.neg /\ o.exp = d.exp /\ Len(o.digs) >= 15 /\ SubSeq(o.digs, 1, 15) = SubSeq(d.digs, 1, 15)
                        \/ \A i \in 10..Min2(16, Len(d.digs)) : d.digs[i] \in {48, 57} /\ o.neg = d.neg
U16 == <<S("0"), S("65535")>>
I64 == <<S("-9223372036854775808"), S("9223372036854775807")>>
U64 == <<S("0"), S("18446744073709551615")>>
I32 == <<S("-2147483648"), S("2147483647")>>
In(d, r) == InRange(d, r[1], r[2])
=============================================================================
