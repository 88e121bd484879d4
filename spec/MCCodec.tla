------------------------------ MODULE MCCodec ------------------------------
(* The text forms are lossless, exhaustively for short strings: hexadecimal    *)
(* with every wrap width, 12-bit groups and back, splitting into words.        *)
EXTENDS Codec, FiniteSets
VARIABLES b, wrap
Samples == {0, 1, 9, 10, 15, 16, 127, 128, 160, 255}
Init == b = << >> /\ wrap \in 0..4
Next == Len(b) < 4 /\ UNCHANGED wrap /\ \E x \in Samples : b' = Append(b, x)
Strip(t) == SelectSeq(t, LAMBDA ch : ch # 10)
HexLossless == /\ HexText(b, wrap) = HexTextRec(b, wrap, 0)
               /\ UnHexText(Strip(HexText(b, wrap))) = b
               /\ IsHexText(Strip(HexText(b, wrap)))
               /\ Len(Strip(HexText(b, wrap))) = 2 * Len(b)
GroupsLossless == Len(b) % 3 = 0 => LET g == Groups(b) IN Len(g) = 2 * (Len(b) \div 3) /\ (\A k \in 1..Len(g) : g[k] \in 0..4095) /\ UnGroups(g) = b
\* words are exactly what lies between white space
T3 == [k \in 1..Len(b) |-> IF b[k] < 10 THEN 32 ELSE 97]
SplitRight == LET w == Split(T3) IN /\ w = SplitDef(T3) /\ Flatten(w) = Flat(w)
                                    /\ \A k \in 1..Len(w) : w[k] # << >> /\ \A x \in 1..Len(w[k]) : ~IsSpace(w[k][x])
                                    /\ Flat(w) = SelectSeq(T3, LAMBDA ch : ~IsSpace(ch))
Distinct == (b = << >> /\ wrap = 0) => Len(Words) = 4096 /\ Cardinality({Words[k] : k \in 1..4096}) = 4096
=============================================================================
