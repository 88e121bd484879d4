---------------------------- MODULE MCHashChain ----------------------------
(* Different (shift, position) pairs hash different inputs: the encoding of    *)
(* the pair has a fixed length and is injective.  With words of WB bytes and   *)
(* a byte of base BB the whole space is explored; the library has WB=4, BB=256 *)
(* (checked against Codec on samples).                                         *)
EXTENDS Codec
CONSTANTS WB, BB
RECURSIVE L(_, _)
L(n, x) == IF n = 0 THEN << >> ELSE << x % BB >> \o L(n - 1, x \div BB)
Max == BB ^ WB - 1
VARIABLES s, i
Init == s \in 0..Max /\ i = 0
Next == i < Max /\ i' = i + 1 /\ UNCHANGED s
RECURSIVE V(_)
V(b) == IF b = << >> THEN 0 ELSE b[1] + BB * V(Tail(b))
In(x, y) == L(WB, x) \o L(WB, y)
\* the pair can be read back, so no two pairs share an input
ReadBack == LET b == In(s, i) IN Len(b) = 2 * WB /\ V(SubSeq(b, 1, WB)) = s /\ V(SubSeq(b, WB + 1, 2 * WB)) = i
\* the real layout
Real == (s = 0 /\ i = 0) => \A k \in {0, 1, 255, 256, 65535, 65536, 16777216, 2147483647} :
          HashChainInput(<< 9 >>, << 1, 2, 3, 4 >>, k) = << 9, 1, 2, 3, 4 >> \o LE(4, k)
=============================================================================
