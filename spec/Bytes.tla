------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.                                   *)
EXTENDS Integers, Sequences, TLC, Bitwise

Byte == 0..255

\* big-endian / little-endian encoding of a natural number on n bytes
RECURSIVE BE(_, _)
BE(n, x) == IF n = 0 THEN << >> ELSE Append(BE(n - 1, x \div 256), x % 256)
RECURSIVE LE(_, _)
LE(n, x) == IF n = 0 THEN << >> ELSE << x % 256 >> \o LE(n - 1, x \div 256)

\* minimal little-endian encoding; the empty string for 0
RECURSIVE MinLE(_)
MinLE(x) == IF x = 0 THEN << >> ELSE << x % 256 >> \o MinLE(x \div 256)

Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Slice(s, from, n) == SubSeq(s, from + 1, from + n)      \* from is 0-based
XorB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
Suffix(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Prefix(s, n) == SubSeq(s, 1, n)

\* value of a big-endian byte string (only for values below 2^31)
RECURSIVE BEVal(_)
BEVal(s) == IF s = << >> THEN 0 ELSE 256 * BEVal(Prefix(s, Len(s) - 1)) + s[Len(s)]

HexDigits == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>
\* Conversions between the hexadecimal strings of recorded events and byte
\* strings ("-" stands for the empty string).  Overridden in Java.
RECURSIVE HexDef(_)
HexDef(s) == IF s = << >> THEN ""
             ELSE HexDigits[(s[1] \div 16) + 1] \o HexDigits[(s[1] % 16) + 1] \o HexDef(Tail(s))
ToHex(s) == IF s = << >> THEN "-" ELSE HexDef(s)

HexVal(c) == CHOOSE i \in 0..15 : HexDigits[i + 1] = c
RECURSIVE UnHexDef(_)
UnHexDef(t) == IF t = "" THEN << >>
               ELSE << 16 * HexVal(SubSeq(t, 1, 1)) + HexVal(SubSeq(t, 2, 2)) >>
                    \o UnHexDef(SubSeq(t, 3, Len(t)))
FromHex(t) == IF t = "-" THEN << >> ELSE UnHexDef(t)

\* concatenation of a sequence of sequences
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Flatten(ss) == Flat(ss)                                            \* Java override

\* Memo(k, e) is e; the Java override remembers e under the key k.
Memo(k, e) == e
=============================================================================
