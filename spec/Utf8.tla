------------------------------- MODULE Utf8 -------------------------------
(* UTF-8 as defined by RFC 3629, on code points and bytes                   *)
EXTENDS Lib
Utf8Of(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf8(_)
Utf8(s) == IF s = <<>> THEN <<>> ELSE Utf8Of(Head(s)) \o Utf8(Tail(s))
Utf8Len(s) == Len(Utf8(s))
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
(* <<TRUE, text>> or <<FALSE>> *)
RECURSIVE FromUtf8At(_, _, _)
FromUtf8At(b, i, acc) ==
  IF i > Len(b) THEN <<TRUE, acc>>
  ELSE IF b[i] < 128 THEN FromUtf8At(b, i + 1, Append(acc, b[i]))
  ELSE IF b[i] >= 194 /\ b[i] < 224 /\ Cont(b, i + 1)
    THEN FromUtf8At(b, i + 2, Append(acc, (b[i] - 192) * 64 + b[i+1] - 128))
  ELSE IF b[i] >= 224 /\ b[i] < 240 /\ Cont(b, i + 1) /\ Cont(b, i + 2)
    THEN LET c == (b[i] - 224) * 4096 + (b[i+1] - 128) * 64 + b[i+2] - 128 IN
         IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN <<FALSE>> ELSE FromUtf8At(b, i + 3, Append(acc, c))
  ELSE IF b[i] >= 240 /\ b[i] < 245 /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
    THEN LET c == (b[i] - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + b[i+3] - 128 IN
         IF c < 65536 \/ c > 1114111 THEN <<FALSE>> ELSE FromUtf8At(b, i + 4, Append(acc, c))
  ELSE <<FALSE>>
FromUtf8(b) == FromUtf8At(b, 1, <<>>)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 0-1
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
=============================================================================
