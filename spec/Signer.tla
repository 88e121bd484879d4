------------------------------- MODULE Signer -------------------------------
(* The signing index of one signer: what set-index and sign may do.            *)
(* A signer here is a record with fields kind ("fast", "basic"), h (height),   *)
(* idx (next index).  Every operator gives the outcome the library promises;   *)
(* Trace.tla compares recorded calls with it, MCSigner.tla explores it.        *)
EXTENDS Integers, FiniteSets, Sequences

Keys(h) == 2 ^ h
MayJump(s, n) == IF s.kind = "fast" THEN n >= s.idx /\ n < Keys(s.h) ELSE n < Keys(s.h)
MaySign(s) == s.idx < Keys(s.h)
Remaining(s) == Keys(s.h) - s.idx

\* outcome of a call: whether it succeeds and the index afterwards
SetIndexOutcome(s, n) == IF MayJump(s, n) THEN [done |-> TRUE, idx |-> n]
                                          ELSE [done |-> FALSE, idx |-> s.idx]
SignOutcome(s) == IF MaySign(s) THEN [done |-> TRUE, idx |-> s.idx + 1]
                                ELSE [done |-> FALSE, idx |-> s.idx]
=============================================================================
