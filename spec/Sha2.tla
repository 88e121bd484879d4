-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4, SHA-256, written out.  A 32-bit word is << high16, low16 >>.   *)
EXTENDS Bytes

H16 == 65536
K256 == <<
 <<17034,12184>>,<<28983,17553>>,<<46528,64463>>,<<59829,56229>>,<<14678,49755>>,<<23025,4593>>,<<37439,33444>>,<<43804,24277>>,
 <<55303,43672>>,<<4739,23297>>,<<9265,34238>>,<<21772,32195>>,<<29374,23924>>,<<32990,45566>>,<<39900,1703>>,<<49563,61812>>,
 <<58523,27073>>,<<61374,18310>>,<<4033,40390>>,<<9228,41420>>,<<11753,11375>>,<<19060,33962>>,<<23728,43484>>,<<30457,35034>>,
 <<38974,20818>>,<<43057,50797>>,<<45059,10184>>,<<48985,32711>>,<<50912,3059>>,<<54695,37191>>,<<1738,25425>>,<<5161,10599>>,
 <<10167,2693>>,<<11803,8504>>,<<19756,28156>>,<<21304,3347>>,<<25866,29524>>,<<30314,2747>>,<<33218,51502>>,<<37490,11397>>,
 <<41663,59553>>,<<43034,26187>>,<<49739,35696>>,<<51052,20899>>,<<53650,59417>>,<<54937,1572>>,<<62478,13701>>,<<4202,41072>>,
 <<6564,49430>>,<<7735,27656>>,<<10056,30540>>,<<13488,48309>>,<<14620,3251>>,<<20184,43594>>,<<23452,51791>>,<<26670,28659>>,
 <<29839,33518>>,<<30885,25455>>,<<33992,30740>>,<<36039,520>>,<<37054,65530>>,<<42064,27883>>,<<48889,41975>>,<<50801,30962>> >>
H0 == << <<27145,58983>>,<<47975,44677>>,<<15470,62322>>,<<42319,62778>>,
         <<20750,21119>>,<<39685,26764>>,<<8067,55723>>,<<23520,52505>> >>

Add(a, b) == LET l == a[2] + b[2] IN << (a[1] + b[1] + (l \div H16)) % H16, l % H16 >>
X2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
A2(a, b) == << a[1] & b[1], a[2] & b[2] >>
N2(a) == << 65535 - a[1], 65535 - a[2] >>
RotR(a, r0) ==
  LET a1 == IF r0 >= 16 THEN << a[2], a[1] >> ELSE a
      r == r0 % 16
  IN IF r = 0 THEN a1
     ELSE << (a1[1] \div 2^r) + ((a1[2] * 2^(16 - r)) % H16),
             (a1[2] \div 2^r) + ((a1[1] * 2^(16 - r)) % H16) >>
ShR(a, r) == << a[1] \div 2^r, (a[2] \div 2^r) + ((a[1] * 2^(16 - r)) % H16) >>   \* r < 16
S0(a) == X2(X2(RotR(a, 2), RotR(a, 13)), RotR(a, 22))
S1(a) == X2(X2(RotR(a, 6), RotR(a, 11)), RotR(a, 25))
G0(a) == X2(X2(RotR(a, 7), RotR(a, 18)), ShR(a, 3))
G1(a) == X2(X2(RotR(a, 17), RotR(a, 19)), ShR(a, 10))
Ch(e, f, g) == X2(A2(e, f), A2(N2(e), g))
Maj(a, b, c) == X2(X2(A2(a, b), A2(a, c)), A2(b, c))

RECURSIVE Sched(_)
Sched(w) == IF Len(w) = 64 THEN w
            ELSE LET t == Len(w) + 1
                 IN Sched(TLCEval(Append(w, Add(Add(G1(w[t - 2]), w[t - 7]), Add(G0(w[t - 15]), w[t - 16])))))
RECURSIVE Comp(_, _, _)
Comp(v, w, t) ==
  IF t > 64 THEN v
  ELSE LET t1 == Add(Add(Add(v[8], S1(v[5])), Add(Ch(v[5], v[6], v[7]), K256[t])), w[t])
           t2 == Add(S0(v[1]), Maj(v[1], v[2], v[3]))
       IN Comp(TLCEval(<< Add(t1, t2), v[1], v[2], v[3], Add(v[4], t1), v[5], v[6], v[7] >>), w, t + 1)
Words(b) == [i \in 1..16 |-> << 256 * b[4*i - 3] + b[4*i - 2], 256 * b[4*i - 1] + b[4*i] >>]
Block(hh, b) == LET v == Comp(hh, Sched(TLCEval(Words(b))), 1)
                IN TLCEval([i \in 1..8 |-> Add(hh[i], v[i])])
RECURSIVE Blocks(_, _)
Blocks(hh, m) == IF m = << >> THEN hh ELSE Blocks(Block(hh, Prefix(m, 64)), SubSeq(m, 65, Len(m)))
PadS(m) == m \o << 128 >> \o [i \in 1..((119 - (Len(m) % 64)) % 64) |-> 0] \o BE(8, 8 * Len(m))
Sha256Def(m) ==
  LET hh == Blocks(H0, PadS(m))
  IN [j \in 1..32 |-> LET w == hh[((j - 1) \div 4) + 1]  k == (j - 1) % 4
                      IN CASE k = 0 -> w[1] \div 256 [] k = 1 -> w[1] % 256
                           [] k = 2 -> w[2] \div 256 [] OTHER -> w[2] % 256]
=============================================================================
