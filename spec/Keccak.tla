------------------------------- MODULE Keccak -------------------------------
(* FIPS 202, SHAKE-128 and SHAKE-256, written out.  A 64-bit lane is a        *)
(* sequence of four 16-bit words, least significant first.                    *)
EXTENDS Bytes

W == 65536
RotC == << 0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14 >>
RC == << <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>,
         <<32907,0,0,0>>, <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>,
         <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
         <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>,
         <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
         <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>

X4(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
RotL(a, r) ==
  LET q == r \div 16
      s == r % 16
      lo(i) == a[((i + 8 - q) % 4) + 1]          \* i in 0..3
      w(i) == IF s = 0 THEN lo(i)
              ELSE ((lo(i) * (2^s)) % W) + (lo(i + 3) \div (2^(16 - s)))
  IN << w(0), w(1), w(2), w(3) >>
NotAnd(a, b) == << (65535 - a[1]) & b[1], (65535 - a[2]) & b[2],
                   (65535 - a[3]) & b[3], (65535 - a[4]) & b[4] >>

\* one round on a state A of 25 lanes, lane (x,y) at 5*y+x+1
L(A, x, y) == A[5 * (y % 5) + (x % 5) + 1]
Round(A, rc) ==
  LET C == TLCEval([x \in 0..4 |-> X4(X4(X4(X4(L(A,x,0), L(A,x,1)), L(A,x,2)), L(A,x,3)), L(A,x,4))])
      D == TLCEval([x \in 0..4 |-> X4(C[(x + 4) % 5], RotL(C[(x + 1) % 5], 1))])
      T == TLCEval([i \in 1..25 |-> X4(A[i], D[(i - 1) % 5])])
      \* rho and pi: B[y, 2x+3y] = rot(T[x,y]); so B at (X,Y) comes from x = (X + 3Y) % 5, y = X
      B == TLCEval([i \in 1..25 |->
             LET X == (i - 1) % 5  Y == (i - 1) \div 5
                 x == (X + 3 * Y) % 5  y == X
             IN RotL(L(T, x, y), RotC[5 * y + x + 1])])
      E == TLCEval([i \in 1..25 |->
             LET X == (i - 1) % 5  Y == (i - 1) \div 5
             IN X4(B[i], NotAnd(L(B, X + 1, Y), L(B, X + 2, Y)))])
  IN TLCEval([E EXCEPT ![1] = X4(E[1], rc)])

RECURSIVE Rounds(_, _)
Rounds(A, i) == IF i > 24 THEN A ELSE Rounds(Round(A, RC[i]), i + 1)
Permute(A) == Rounds(A, 1)

Lane(b, off) == << b[off + 1] + 256 * b[off + 2], b[off + 3] + 256 * b[off + 4],
                   b[off + 5] + 256 * b[off + 6], b[off + 7] + 256 * b[off + 8] >>
Absorb(A, blk) ==      \* blk: rate bytes
  TLCEval([i \in 1..25 |-> IF 8 * i <= Len(blk) THEN X4(A[i], Lane(blk, 8 * (i - 1))) ELSE A[i]])

RECURSIVE AbsorbAll(_, _, _)
AbsorbAll(A, m, rate) ==
  IF m = << >> THEN A
  ELSE AbsorbAll(Permute(Absorb(A, Prefix(m, rate))), SubSeq(m, rate + 1, Len(m)), rate)

\* SHAKE padding: 1111 then 10*1
Pad(m, rate) ==
  LET r == rate - (Len(m) % rate)
  IN IF r = 1 THEN m \o << 159 >>                 \* 0x1F xor 0x80
     ELSE m \o << 31 >> \o [i \in 1..(r - 2) |-> 0] \o << 128 >>

Out(A, rate) ==
  [j \in 1..rate |->
     LET w == A[((j - 1) \div 8) + 1][(((j - 1) % 8) \div 2) + 1]
     IN IF (j - 1) % 2 = 0 THEN w % 256 ELSE w \div 256]

RECURSIVE Squeeze(_, _, _)
Squeeze(A, rate, n) ==
  IF n <= rate THEN SubSeq(Out(A, rate), 1, n)
  ELSE Out(A, rate) \o Squeeze(Permute(A), rate, n - rate)

Shake(rate, n, m) ==
  Squeeze(AbsorbAll([i \in 1..25 |-> << 0, 0, 0, 0 >>], Pad(m, rate), rate), rate, n)
=============================================================================
