-------------------------------- MODULE Pool --------------------------------
(* The tree pool as its users see it: every call to take a tree claims the     *)
(* current index at one instant between its beginning and its end, and returns *)
(* the tree of that index, or the error of building it.  Queries look at the   *)
(* pool at one instant between their beginning and end.                        *)
(* p: the pool's abstract state, a record with cur (next index, relative to    *)
(* the starting index), size, failing (indices whose tree cannot be built).    *)
EXTENDS Integers, Sequences, FiniteSets

Claim(p) == [p EXCEPT !.cur = @ + 1]
\* what the call that claimed index k returns
OutcomeOf(p, k) == IF k \in p.failing THEN "error" ELSE "tree"
\* indices whose trees are being built or waiting, right after any claim
Pending(p) == p.cur..(p.cur + p.size - 1)

-----------------------------------------------------------------------------
(* The machine for any number of callers. *)
CONSTANTS Callers, Calls, Sizes, FailSets
VARIABLES p, pc, got, left, floor, returned, returnedErr
avars == << p, pc, got, left, floor, returned, returnedErr >>
AInit == /\ \E s \in Sizes, f \in FailSets : p = [cur |-> 0, size |-> s, failing |-> f]
         /\ pc = [c \in Callers |-> "idle"] /\ got = [c \in Callers |-> -1]
         /\ left = [c \in Callers |-> Calls] /\ floor = [c \in Callers |-> -1]
         /\ returned = {} /\ returnedErr = {}
MaxSet(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
ACall(c) == /\ pc[c] = "idle" /\ left[c] > 0
            /\ pc' = [pc EXCEPT ![c] = "called"] /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ floor' = [floor EXCEPT ![c] = MaxSet(returned)]
            /\ UNCHANGED << p, got, returned, returnedErr >>
AClaim(c) == /\ pc[c] = "called"
             /\ got' = [got EXCEPT ![c] = p.cur] /\ p' = Claim(p)
             /\ pc' = [pc EXCEPT ![c] = "claimed"]
             /\ UNCHANGED << left, floor, returned, returnedErr >>
AReturn(c) == /\ pc[c] = "claimed"
              /\ returned' = returned \cup {got[c]}
              /\ returnedErr' = IF OutcomeOf(p, got[c]) = "error" THEN returnedErr \cup {got[c]} ELSE returnedErr
              /\ pc' = [pc EXCEPT ![c] = "idle"]
              /\ UNCHANGED << p, got, left, floor >>
ANext == \E c \in Callers : ACall(c) \/ AClaim(c) \/ AReturn(c)
ASpec == AInit /\ [][ANext]_avars

\* what users rely on
Distinct == \A c, d \in Callers : (c # d /\ pc[c] = "claimed" /\ pc[d] = "claimed") => got[c] # got[d]
FreshIndex == \A c \in Callers : pc[c] = "claimed" => got[c] \notin returned
Consecutive == returned \cup {got[c] : c \in {x \in Callers : pc[x] = "claimed"}} = 0..(p.cur - 1)
RealTime == \A c \in Callers : pc[c] = "claimed" => got[c] > floor[c]
ErrorsExact == returnedErr = returned \cap p.failing
=============================================================================
