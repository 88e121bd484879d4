------------------------------- MODULE GenPool -------------------------------
(* Schedules for the real pool: calls begin, builds are released or made to    *)
(* fail, queries are asked, in every order up to a length.  A release is only  *)
(* scheduled for a build that is under way and still held.                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS Sizes, Depth, MaxCalls
VARIABLES size, path, cur, held, calls
vars == << size, path, cur, held, calls >>
Init == size \in Sizes /\ path = << >> /\ cur = 0 /\ calls = 0 /\ held = {k \in 0..10 : k < size}
Room == Len(path) < Depth
Take == /\ Room /\ calls < MaxCalls
        /\ calls' = calls + 1 /\ cur' = cur + 1 /\ path' = Append(path, [a |-> "next", k |-> 0])
        /\ held' = held \cup {IF size = 0 THEN cur ELSE cur + size} /\ UNCHANGED size
Release(k) == /\ Room /\ k \in held /\ held' = held \ {k} /\ path' = Append(path, [a |-> "open", k |-> k]) /\ UNCHANGED << size, cur, calls >>
Fail(k) == /\ Room /\ k \in held /\ held' = held \ {k} /\ path' = Append(path, [a |-> "fail", k |-> k]) /\ UNCHANGED << size, cur, calls >>
Ask(w) == /\ Room /\ (IF path = << >> THEN TRUE ELSE path[Len(path)].a # w) /\ path' = Append(path, [a |-> w, k |-> 0]) /\ UNCHANGED << size, cur, held, calls >>
Next == Take \/ (\E k \in held : Release(k) \/ Fail(k)) \/ Ask("avail") \/ Ask("cur")
Spec == Init /\ [][Next]_vars
Collect == Len(path) = Depth => TLCSet(1, Append(TLCGet(1), [size |-> size, path |-> path, ahead |-> Cardinality(held)]))
ASSUME TLCSet(1, << >>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
==============================================================================
