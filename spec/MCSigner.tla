------------------------------ MODULE MCSigner ------------------------------
(* Model checking of the signing index: every sequence of calls on a fast      *)
(* signer never signs an index twice; the graph is also the source of one      *)
(* conformance test per transition (GenSigner.tla).                            *)
EXTENDS Signer, TLC
CONSTANTS H, Kinds, Huge
VARIABLES s, used, last
vars == << s, used, last >>
Targets == 0..(Keys(H) + 2) \cup {Huge}
Init == /\ \E k \in Kinds : s = [kind |-> k, h |-> H, idx |-> 0]
        /\ used = {} /\ last = "new"
SetIndex(n) == LET o == SetIndexOutcome(s, n) IN
  /\ s' = [s EXCEPT !.idx = o.idx] /\ UNCHANGED used
  /\ last' = IF o.done THEN "jumped" ELSE "refused"
Sign == LET o == SignOutcome(s) IN
  /\ s' = [s EXCEPT !.idx = o.idx]
  /\ used' = IF o.done THEN used \cup {s.idx} ELSE used
  /\ last' = IF o.done THEN IF s.idx \in used THEN "REUSED" ELSE "signed" ELSE "refused"
Next == Sign \/ \E n \in Targets : SetIndex(n)
Spec == Init /\ [][Next]_vars

TypeOK == s.idx \in 0..Keys(H) /\ Remaining(s) \in 0..Keys(H)
NoReuse == s.kind = "fast" => last # "REUSED"
UsedBelow == s.kind = "fast" => \A u \in used : u < s.idx
Forward == [][s.kind = "fast" => s'.idx >= s.idx]_vars
RefusedChangesNothing == [][last' = "refused" => UNCHANGED << s, used >>]_vars
SignAdvancesByOne == [][used' # used => s'.idx = s.idx + 1 /\ used' = used \cup {s.idx}]_vars
=============================================================================
