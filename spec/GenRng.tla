------------------------------- MODULE GenRng -------------------------------
(* Writes every complete behaviour of Rng: what the source answered and how    *)
(* the call must end.                                                          *)
EXTENDS Rng, Json, IOUtils, TLC
Row == [n |-> n, chunks |-> chunks, fault |-> fault, outcome |-> pc]
Collect == pc \in {"seed", "failed"} => TLCSet(1, Append(TLCGet(1), Row))
ASSUME TLCSet(1, << >>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
