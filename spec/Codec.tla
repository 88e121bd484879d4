-------------------------------- MODULE Codec --------------------------------
(* Text forms: hexadecimal, mnemonic, addresses, descriptors.  Text is a       *)
(* sequence of character codes.                                                *)
EXTENDS Prim, Json, IOUtils

HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* two lower-case digits per byte, a line break after every full group of `wrap` bytes, none at the end
HexText(b, width) ==
  LET wrap == IF width >= Len(b) THEN 0 ELSE width               \* no full group before the end
      pos == TLCEval([k \in 1..Len(b) |-> 2 * (k - 1) + (IF wrap = 0 THEN 0 ELSE (k - 1) \div wrap)])
      n == IF b = << >> THEN 0 ELSE pos[Len(b)] + 2
      \* byte index of character c (1-based), and which of its parts it is
      ByteOf(c) == IF wrap = 0 THEN ((c - 1) \div 2) + 1
                   ELSE LET g == (c - 1) \div (2 * wrap + 1) IN g * wrap + (((c - 1) - g * (2 * wrap + 1)) \div 2) + 1
      Part(c) == IF wrap = 0 THEN (c - 1) % 2
                 ELSE LET o == (c - 1) % (2 * wrap + 1) IN IF o = 2 * wrap THEN 2 ELSE o % 2
  IN [c \in 1..n |-> CASE Part(c) = 0 -> HexChar(b[ByteOf(c)] \div 16)
                       [] Part(c) = 1 -> HexChar(b[ByteOf(c)] % 16)
                       [] OTHER -> 10]
\* the same, defined by recursion (compared in MCCodec)
RECURSIVE HexTextRec(_, _, _)
HexTextRec(b, wrap, k) ==
  IF b = << >> THEN << >>
  ELSE (IF wrap > 0 /\ k > 0 /\ k % wrap = 0 THEN << 10 >> ELSE << >>)
       \o << HexChar(b[1] \div 16), HexChar(b[1] % 16) >> \o HexTextRec(Tail(b), wrap, k + 1)

DigitVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
IsHexText(t) == Len(t) % 2 = 0 /\ \A k \in 1..Len(t) : DigitVal(t[k]) >= 0
UnHexText(t) == [k \in 1..(Len(t) \div 2) |-> 16 * DigitVal(t[2*k - 1]) + DigitVal(t[2*k])]

\* ---- mnemonics ----
Words == TLCEval(JsonDeserialize(IOEnv.WORDS))              \* 4096 words, each as the hex string of its characters
Lookup(x) == IF \E k \in 1..Len(Words) : Words[k] = x THEN (CHOOSE k \in 1..Len(Words) : Words[k] = x) - 1 ELSE -1
WordNo(x) == Memo(<< "word", x >>, Lookup(x))
WordKnown(x) == WordNo(x) >= 0
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
\* word starts and ends
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(t, k, cur, acc) ==
  IF k > Len(t) THEN IF cur = << >> THEN acc ELSE Append(acc, cur)
  ELSE IF IsSpace(t[k]) THEN SplitFrom(t, k + 1, << >>, IF cur = << >> THEN acc ELSE Append(acc, cur))
  ELSE SplitFrom(t, k + 1, Append(cur, t[k]), acc)
SplitDef(t) == SplitFrom(t, 1, << >>, << >>)
Split(t) == SplitDef(t)                                     \* Java override
\* 12-bit groups of a byte string whose length is a multiple of 3
Groups(b) == [k \in 1..(2 * (Len(b) \div 3)) |->
   LET p == 3 * ((k - 1) \div 2) IN
   IF k % 2 = 1 THEN 16 * b[p + 1] + b[p + 2] \div 16 ELSE 256 * (b[p + 2] % 16) + b[p + 3]]
UnGroups(g) == [k \in 1..(3 * (Len(g) \div 2)) |->
   LET p == 2 * ((k - 1) \div 3) IN
   CASE k % 3 = 1 -> g[p + 1] \div 16
     [] k % 3 = 2 -> 16 * (g[p + 1] % 16) + g[p + 2] \div 256
     [] OTHER -> g[p + 2] % 256]
JoinW(ws) == Flatten(TLCEval([k \in 1..Len(ws) |-> IF k = 1 THEN FromHex(ws[k]) ELSE << 32 >> \o FromHex(ws[k])]))
MnemonicText(b) == LET g == TLCEval(Groups(b)) IN JoinW(TLCEval([k \in 1..Len(g) |-> Words[g[k] + 1]]))
\* the words of a text, as hexadecimal strings
TextWords(t) == LET w == TLCEval(Split(t)) IN [k \in 1..Len(w) |-> ToHex(w[k])]
IsMnemonic(t) == LET w == TLCEval(TextWords(t)) IN Len(w) % 2 = 0 /\ \A k \in 1..Len(w) : WordKnown(w[k])
UnMnemonic(t) == LET w == TLCEval(TextWords(t)) IN UnGroups(TLCEval([k \in 1..Len(w) |-> WordNo(w[k])]))

\* ---- descriptors, addresses ----
DescOk(d) == Len(d) = 3 /\ d[1] % 16 \in 0..2 /\ d[1] \div 16 = 0
DescHf(d) == d[1] % 16
DescSt(d) == d[1] \div 16
DescHeight(d) == 2 * (d[2] % 16)
DescFmt(d) == d[2] \div 16
DescBytes(hf, sigtype, h, fmt) == << sigtype * 16 + hf, fmt * 16 + ((h \div 2) % 16), 0 >>

AddressOf(pk) == LET d == SubSeq(pk, 1, 3)
                     a == d \o Sha256(pk) IN a \o Suffix(Sha256(a), 4)
HasAddress(pk) == Len(pk) = 67 /\ DescOk(SubSeq(pk, 1, 3)) /\ DescFmt(pk) = 0
AddressValid(a) == Len(a) = 39 /\ DescOk(SubSeq(a, 1, 3)) /\ DescFmt(a) = 0
                   /\ Suffix(a, 4) = Suffix(Sha256(SubSeq(a, 1, 35)), 4)

\* ---- hash chain seeds ----
HashChainInput(seed, shiftLE, i) == seed \o shiftLE \o LE(4, i)
HashChainSeed(seed, shiftLE, i) == Shake256(32, HashChainInput(seed, shiftLE, i))
=============================================================================
