----------------------------- MODULE GenObjects -----------------------------
(* Histories of Objects.tla: every sequence of calls up to a length on three   *)
(* handles, two of them alive at first.                                        *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS Depth
H == {"a", "b", "c"}
Other(h) == H \ {h}
VARIABLES alive, path
vars == << alive, path >>
Init == alive = {"a", "b"} /\ path = << >>
Do(op, h, g) == path' = Append(path, [op |-> op, h |-> h, g |-> g])
Sign(h) == h \in alive /\ Do("sign", h, "") /\ UNCHANGED alive
Jump(h) == h \in alive /\ Do("jump", h, "") /\ UNCHANGED alive
Copy(h, g) == g \in alive /\ h \notin alive /\ Do("copy", h, g) /\ alive' = alive \cup {h}
Assign(h, g) == g \in alive /\ h \in alive /\ Do("assign", h, g) /\ UNCHANGED alive
Move(h, g) == g \in alive /\ Do("move", h, g) /\ alive' = (alive \ {g}) \cup {h}
Swap(h, g) == g \in alive /\ h \in alive /\ Do("swap", h, g) /\ UNCHANGED alive
Self(h) == h \in alive /\ Do("assign", h, h) /\ UNCHANGED alive
Free(h) == h \in alive /\ Do("free", h, "") /\ alive' = alive \ {h}
Next == /\ Len(path) < Depth
        /\ \/ \E h \in H : Sign(h) \/ Jump(h) \/ Free(h) \/ Self(h)
           \/ \E h \in H : \E g \in Other(h) : Copy(h, g) \/ Assign(h, g) \/ Move(h, g)
           \/ \E g \in H : \E h \in {x \in Other(g) : x = "a" \/ g = "c"} : Swap(h, g)
Spec == Init /\ [][Next]_vars
Collect == Len(path) = Depth => TLCSet(1, Append(TLCGet(1), path))
ASSUME TLCSet(1, << >>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
