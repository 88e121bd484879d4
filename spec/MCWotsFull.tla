----------------------------- MODULE MCWotsFull -----------------------------
(* The full-size encoding.  Walking every value the sum of message digits can  *)
(* take shows that the checksum's digits always fit (nothing is cut off), that *)
(* they read back as the checksum, and that a larger digit sum makes at least  *)
(* one checksum digit strictly smaller: no vector dominates another.           *)
EXTENDS Wots
VARIABLES w, sum          \* sum of message digits
Top(x) == Len1(x) * (x - 1)
Init == w \in {4, 16, 256} /\ sum = 0
Next == sum < Top(w) /\ sum' = sum + 1 /\ UNCHANGED w
C(x, s) == Top(x) - s
CD(x, s) == Digits(C(x, s), Len2(x), x)
RECURSIVE Val(_, _)
Val(g, x) == IF g = << >> THEN 0 ELSE x * Val(SubSeq(g, 1, Len(g) - 1), x) + g[Len(g)]
Fits == C(w, sum) < w ^ Len2(w) /\ Val(CD(w, sum), w) = C(w, sum)
\* dominance of message digits means an equal or larger sum; with a larger sum some checksum digit is smaller
\* (every pair of sums for w = 4 and 16; for w = 256 the distances that leave digits unchanged, and small ones)
Distances == IF w < 256 THEN 1..Top(w) ELSE (1..64) \cup {255, 256, 257, 511, 512, 513, 1024, 2048, 4096, 7936, 8160}
NoDominance == \A d \in Distances : (sum + d <= Top(w)) => \E j \in 1..Len2(w) : CD(w, sum + d)[j] < CD(w, sum)[j]
Lengths == WLen(4) = 133 /\ WLen(16) = 67 /\ WLen(256) = 34
=============================================================================
