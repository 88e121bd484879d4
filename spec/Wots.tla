-------------------------------- MODULE Wots --------------------------------
(* WOTS+ encoding: the chain positions a one-time signature reveals.          *)
EXTENDS Bytes

LogW(w) == CASE w = 4 -> 2 [] w = 16 -> 4 [] w = 256 -> 8 [] OTHER -> 1
Len1N(nbits, w) == nbits \div LogW(w)
RECURSIVE NDigits(_, _)
NDigits(x, w) == IF x < w THEN 1 ELSE 1 + NDigits(x \div w, w)
Len2N(nbits, w) == NDigits(Len1N(nbits, w) * (w - 1), w)
LenN(nbits, w) == Len1N(nbits, w) + Len2N(nbits, w)
Len1(w) == Len1N(256, w)
Len2(w) == Len2N(256, w)
WLen(w) == LenN(256, w)

\* big-endian base-w digits of a number, exactly n of them
RECURSIVE Digits(_, _, _)
Digits(x, n, w) == IF n = 0 THEN << >> ELSE Append(Digits(x \div w, n - 1, w), x % w)

\* base-w digits of a byte string, most significant first
BaseW(d, w) ==
  LET k == 8 \div LogW(w)                         \* digits per byte
  IN [i \in 1..(k * Len(d)) |->
        (d[((i - 1) \div k) + 1] \div (w ^ (k - 1 - ((i - 1) % k)))) % w]

RECURSIVE SumC(_, _, _)
SumC(digs, w, i) == IF i > Len(digs) THEN 0 ELSE (w - 1 - digs[i]) + SumC(digs, w, i + 1)
Checksum(digs, w) == SumC(digs, w, 1)

\* message digits followed by the digits of the complete checksum
EncodeDigits(digs, len2, w) == digs \o Digits(Checksum(digs, w), len2, w)
Positions(digest, w) == EncodeDigits(TLCEval(BaseW(digest, w)), Len2(w), w)

\* a is reachable from b by hashing forward
Dominates(a, b) == \A i \in 1..Len(a) : a[i] >= b[i]
=============================================================================
