------------------------------ MODULE Tr_Equal -----------------------------
(* Pairs of models: how the code compares them, their hashes and keys.      *)
EXTENDS Equal, Judge
All(s, v) == \A k \in DOMAIN s : s[k] = v
HashOk(e) == LET h == e.ha[1] g == e.hb[1] IN
  /\ All(e.ha, h) /\ All(e.hb, g)
  /\ (SameHash(e.kind, e.a, e.b) => h = g)
  /\ (Apart(e.kind, e.a, e.b) => h # g)
(* the key is the one given or the one made; the one made is always the same *)
KeyOk(ks, x) == LET made == ks[1][3] IN
  \A n \in DOMAIN ks : LET k == ks[n] IN
    /\ k[1] = x.key
    /\ k[2] = (IF x.key = <<>> THEN made ELSE x.key)
    /\ made # <<>> /\ k[3] = made /\ k[4] = made /\ k[5] = made /\ k[6] = made
    /\ k[7]
AcceptEqual(e) ==
  /\ e.k = "ok"
  /\ e.eq = Equals(e.kind, e.a, e.b) /\ e.rev = e.eq /\ e.ne = ~e.eq /\ e.self
  /\ (e.hashed => HashOk(e))
  /\ (e.kind \in V4Kinds => /\ KeyOk(e.ka, e.a) /\ KeyOk(e.kb, e.b)
                            /\ (SameHash(e.kind, e.a, e.b) => e.ka[1][3] = e.kb[1][3])
                            /\ (Apart(e.kind, e.a, e.b) => e.ka[1][3] # e.kb[1][3]))
=============================================================================
