------------------------------- MODULE MCDesc -------------------------------
(* Descriptor bytes and key parameters determine each other: all 65536 pairs   *)
(* of first bytes, all parameter combinations.                                 *)
EXTENDS Codec
VARIABLES d1, d2
Init == d1 \in 0..255 /\ d2 = 0
Next == d2 < 255 /\ d2' = d2 + 1 /\ UNCHANGED d1
D == << d1, d2, 0 >>
RoundTrip == DescOk(D) => DescBytes(DescHf(D), DescSt(D), DescHeight(D), DescFmt(D)) = D
Known == DescOk(D) <=> (\E hf \in 0..2, h \in {2 * k : k \in 0..15}, fmt \in 0..15 : DescBytes(hf, 0, h, fmt) = D)
Back == (d1 = 0 /\ d2 < 16) => \A hf \in 0..2, fmt \in 0..15 :
          LET x == DescBytes(hf, 0, 2 * d2, fmt) IN DescOk(x) /\ DescHf(x) = hf /\ DescSt(x) = 0 /\ DescHeight(x) = 2 * d2 /\ DescFmt(x) = fmt
=============================================================================
