--------------------------------- MODULE Pq ----------------------------------
(* What the Dilithium and Kyber objects promise, over an ideal signature and   *)
(* an ideal key encapsulation.  Keys, messages, signed messages, ciphertexts   *)
(* are opaque values; the world remembers which secret key belongs to which    *)
(* public key, what was signed, and which key a ciphertext carries.            *)
(* Trace.tla compares recorded calls with these operators, MCDil.tla and       *)
(* MCKem.tla explore them.                                                     *)
EXTENDS Integers, FiniteSets, Sequences, TLC

\* pairs: secret key -> public key
PubOf(pairs, sk) == IF sk \in DOMAIN pairs THEN {pairs[sk]} ELSE {}

\* ----- signatures.  signed: set of << public key, signed message >>
SignedBy(pairs, signed, sk, sm) == signed \cup {<< p, sm >> : p \in PubOf(pairs, sk)}
Opens(signed, pk, sm) == << pk, sm >> \in signed

\* ----- key encapsulation.  enc: << public key, ciphertext >> -> key
EncWorld(enc, pk, ct, key) == (<< pk, ct >> :> key) @@ enc
\* the keys a decapsulation may yield: exactly the encapsulated one, or one nobody else has
DecKeyOk(pairs, enc, sk, ct, key) ==
  IF \E p \in PubOf(pairs, sk) : << p, ct >> \in DOMAIN enc
  THEN \E p \in PubOf(pairs, sk) : enc[<< p, ct >>] = key
  ELSE \A x \in DOMAIN enc : enc[x] # key
=============================================================================
