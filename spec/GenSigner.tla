----------------------------- MODULE GenSigner -----------------------------
(* Writes every transition of the signing-index machine for one height: the    *)
(* conformance driver replays each of them on the real signers.                *)
EXTENDS Signer, Json, IOUtils, TLC, SequencesExt
H == 4
Huge == 2147483647
Targets == 0..(Keys(H) + 1) \cup {Huge}
St(k, i) == [kind |-> k, h |-> H, idx |-> i]
Trans ==
  { [kind |-> k, pre |-> i, call |-> "sign", arg |-> 0, done |-> SignOutcome(St(k, i)).done, post |-> SignOutcome(St(k, i)).idx]
      : k \in {"fast", "basic"}, i \in 0..Keys(H) }
  \cup
  { [kind |-> k, pre |-> i, call |-> "set", arg |-> n, done |-> SetIndexOutcome(St(k, i), n).done, post |-> SetIndexOutcome(St(k, i), n).idx]
      : k \in {"fast"}, i \in 0..Keys(H), n \in Targets }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Trans))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
