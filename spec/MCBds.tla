------------------------------- MODULE MCBds -------------------------------
(* Signing and jumping on one tree: whatever mix of the two led to an index,   *)
(* the path held at that index is the one of the tree, and every array access  *)
(* and the shared stack stay within what the library allocates.                *)
EXTENDS Bds
CONSTANT Mix      \* TRUE: every mix of jumps and signatures; FALSE: one walk through the whole tree
VARIABLES idx, target, s, calls
vars == << idx, target, s, calls >>
Init == idx = 0 /\ target = 0 /\ s = Start /\ calls = 0
\* sign: emits the path (checked by the invariant), then one step unless this was the last leaf
Sign == /\ target = idx /\ idx < 2 ^ H
        /\ idx' = idx + 1 /\ target' = idx + 1
        /\ s' = IF idx < (2 ^ H) - 1 THEN Step(s, idx) ELSE s
        /\ calls' = (calls + 1) % 3
\* set-index: a stretch of steps, one at a time
Jump == /\ Mix /\ target = idx
        /\ \E t \in (idx + 1)..((2 ^ H) - 1) : target' = t
        /\ calls' = (calls + 1) % 3
        /\ UNCHANGED << idx, s >>
Advance == /\ idx < target /\ target < 2 ^ H
           /\ idx' = idx + 1 /\ s' = Step(s, idx) /\ UNCHANGED << target, calls >>
Next == Sign \/ Jump \/ Advance
Spec == Init /\ [][Next]_vars
PathRight == idx < 2 ^ H => s.auth = PathOf(idx)
InBounds == s.ok /\ Len(s.stack) <= StackSize
\* the shared stack holds exactly what the unfinished instances put there
RECURSIVE Sum(_)
Sum(n) == IF n < 0 THEN 0 ELSE s.th[n].used + Sum(n - 1)
StackAccounted == Sum(H - K - 1) = Len(s.stack)
\* the state is a function of the index alone: it does not remember how it got there
ViewOfIdx == << idx, target, s >>
=============================================================================
