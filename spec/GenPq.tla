-------------------------------- MODULE GenPq --------------------------------
(* Writes the alphabets of the two object machines; the conformance driver     *)
(* walks through every ordered pair of operations.                             *)
EXTENDS Json, IOUtils, TLC, SequencesExt, Sequences
VARIABLE x
K == INSTANCE MCKem WITH Depth <- 0, obj <- x, pairs <- x, enc <- x, n <- x, last <- x
D == INSTANCE MCDil WITH Depth <- 0, Msgs <- {"m1", "m2"}, obj <- x, pairs <- x, signed <- x, said <- x, n <- x, last <- x
Tag(s, f) == { [fam |-> f, k |-> o.k, o |-> o.o, t |-> o.t] : o \in s }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Tag(K!Ops, "kem")) \o SetToSeq(Tag(D!Ops, "dil")))
Init == x = 0
Next == UNCHANGED x
=============================================================================
