------------------------------ MODULE SelfCheck ------------------------------
(* Compares every Java override with its TLA+ definition, and the definitions  *)
(* with published test vectors.                                                *)
EXTENDS Xmss
T(n, k) == [i \in 1..n |-> (7 * i * i + 13 * i + k) % 256]
Abc == << 97, 98, 99 >>
ASSUME HexDef(Sha256PureDef(Abc)) = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
ASSUME HexDef(Shake128Def(16, << >>)) = "7f9c2ba4e88f827d616045507605853e"
ASSUME HexDef(Shake256Def(16, << >>)) = "46b9dd2b0ba88d13233b3feb743eeb24"
ASSUME \A n \in {0, 1, 31, 55, 56, 63, 64, 65, 119, 120, 128} : Sha256(T(n, n)) = Sha256PureDef(T(n, n))
ASSUME \A n \in {1, 2, 3, 50} : Sha256N(T(n, n), n) = Sha256NDef(T(n, n), n)
ASSUME \A n \in {0, 1, 135, 136, 137, 167, 168, 169, 336} : Shake128(40, T(n, n)) = Shake128Def(40, T(n, n))
ASSUME \A n \in {0, 1, 135, 136, 137, 271, 272} : Shake256(40, T(n, n)) = Shake256Def(40, T(n, n))
ASSUME \A n \in {0, 1, 32, 167, 168, 169, 340} : Shake128(n, Abc) = Shake128Def(n, Abc)
ASSUME \A n \in {0, 1, 32, 135, 136, 137, 273} : Shake256(n, Abc) = Shake256Def(n, Abc)
ASSUME \A hf \in 0..2 : HashH(hf, T(32, 1), T(32, 2), T(32, 3), NodeAddr(70000, 2^29 + hf))
                      = HashHDef(hf, T(32, 1), T(32, 2), T(32, 3), NodeAddr(70000, 2^29 + hf))
ASSUME \A hf \in 0..2 : \A st \in {0, 13} : \A n \in {0, 1, 2} :
          Chain(hf, T(32, 1), st, n, T(32, 3), OtsAddr(65537)) = ChainDef(hf, T(32, 1), st, n, T(32, 3), OtsAddr(65537))
ASSUME Flatten(<< Abc, << >>, Abc >>) = Flat(<< Abc, << >>, Abc >>)
ASSUME \A n \in {1, 2, 40} : ToHex(T(n, 5)) = HexDef(T(n, 5)) /\ FromHex(HexDef(T(n, 5))) = T(n, 5) /\ UnHexDef(HexDef(T(n, 5))) = T(n, 5)
ASSUME ToHex(<< >>) = "-" /\ FromHex("-") = << >>
ASSUME Memo(<< 1, 2 >>, 3) = 3 /\ Memo(<< 2, 1 >>, 4) = 4 /\ Memo(<< 1, 2 >>, 3) = 3
ASSUME WLen(4) = 133 /\ WLen(16) = 67 /\ WLen(256) = 34
\* checksums survive their encoding: decoding the digits gives the checksum back, for every checksum value
RECURSIVE UnDigits(_, _)
UnDigits(d, w) == IF d = << >> THEN 0 ELSE w * UnDigits(Prefix(d, Len(d) - 1), w) + d[Len(d)]
ASSUME \A w \in {4, 16, 256} : \A c \in 0..(Len1(w) * (w - 1)) : UnDigits(Digits(c, Len2(w), w), w) = c
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
