------------------------------- MODULE GenLife -------------------------------
(* Histories of two signers from Api.tla's calls, each ending with no object.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Depth
VARIABLES obj, path
gvars == << obj, path >>
Hs == {"A", "B"}
Init == obj = [h \in Hs |-> "none"] /\ path = << >>
Do(op, h) == path' = Append(path, << op, h >>)
New(h) == obj[h] = "none" /\ \E k \in {"fast", "basic", "ext"} : obj' = [obj EXCEPT ![h] = k] /\ Do("new " \o k, h)
Bad(h) == UNCHANGED obj /\ \E k \in {"badheight", "badext", "badtext", "badcopy", "badfmt"} : Do(k, h)
Use(h) == obj[h] # "none" /\ UNCHANGED obj /\ \E k \in {"sign", "jump", "past", "used up", "get", "verify"} : Do(k, h)
Other(h) == IF h = "A" THEN "B" ELSE "A"
Copy(h) == obj[h] \in {"fast", "ext"} /\ obj[Other(h)] \in {"none", "fast", "ext"} /\ obj' = [obj EXCEPT ![Other(h)] = "fast"]
           /\ \E k \in (IF obj[Other(h)] = "none" THEN {"copy", "move"} ELSE {"assign", "swap"}) : Do(k, h)
Free(h) == obj[h] # "none" /\ obj' = [obj EXCEPT ![h] = "none"] /\ Do("free", h)
Next == Len(path) < Depth /\ \E h \in Hs : New(h) \/ Bad(h) \/ Use(h) \/ Copy(h) \/ Free(h)
Spec == Init /\ [][Next]_gvars
Collect == IF Len(path) = Depth /\ path[1][1] # "badfmt" /\ (path[1][2] = "A") THEN TLCSet(1, Append(TLCGet(1), [path |-> path])) ELSE TRUE
ASSUME TLCSet(1, << >>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
