-------------------------------- MODULE Prim --------------------------------
(* The hash primitives by name.  The operators below are overridden in  *)
(* Java for speed; SelfCheck.tla compares each override with its definition.  *)
EXTENDS Bytes
KK == INSTANCE Keccak
SS == INSTANCE Sha2
Shake128Def(n, m) == KK!Shake(168, n, m)
Shake256Def(n, m) == KK!Shake(136, n, m)
Sha256PureDef(m) == SS!Sha256Def(m)
Shake128(n, m) == Shake128Def(n, m)
Shake256(n, m) == Shake256Def(n, m)
Sha256(m) == Sha256PureDef(m)
RECURSIVE Sha256NDef(_, _)
Sha256NDef(m, n) == IF n <= 1 THEN Sha256(m) ELSE Sha256NDef(Sha256(m), n - 1)
Sha256N(m, n) == Sha256NDef(m, n)
=============================================================================
