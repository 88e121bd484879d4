------------------------------- MODULE MCWots -------------------------------
(* The encoding is an antichain: exhaustive for reduced digests (NBits bits),  *)
(* for the bases and digit layouts the library uses.                           *)
EXTENDS Wots, FiniteSets
CONSTANTS NBits, W
VARIABLES a, b
Digest(v) == Digits(v, Len1N(NBits, W), W)
Enc(v) == EncodeDigits(Digest(v), Len2N(NBits, W), W)
All == 0..(2 ^ NBits - 1)
Encs == TLCEval([v \in All |-> Enc(v)])
Init == a = 0 /\ b = 0
Next == \/ /\ a < 2 ^ NBits - 1 /\ b = 0 /\ a' = a + 1 /\ b' = 0
        \/ /\ b = 0 /\ b' = 1 /\ UNCHANGED a
\* for the current a, no other digest's positions can be reached by hashing forward
Antichain == \A v \in All \ {a} : ~Dominates(Encs[v], Encs[a])
Injective == \A v \in All \ {a} : Encs[v] # Encs[a]
\* the complete checksum is there: reading the last digits back gives it, and they are never cut off
Complete == Len(Enc(a)) = LenN(NBits, W) /\ Checksum(Digest(a), W) < W ^ Len2N(NBits, W)
=============================================================================
