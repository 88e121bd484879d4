-------------------------------- MODULE Api --------------------------------
(* The public interface from outside: every call answers or is refused, and    *)
(* memory belongs to live objects only.  A construction takes its buffers one   *)
(* by one and may be refused after any of them; a refused one gives back what   *)
(* it took (Releases; without it TLC must find the leak).                       *)
EXTENDS Naturals, FiniteSets
CONSTANTS Releases, Buffers
Handles == {"A", "B"}
VARIABLES obj,      \* handle -> "none", "live", "moved"
          heap,     \* buffers held
          busy,     \* what is being built: [h, taken] or none
          last      \* how the last call ended
vars == << obj, heap, busy, last >>
Idle == [h |-> "none", taken |-> 0]
Holds(h) == IF obj[h] = "live" THEN Buffers ELSE 0
Init == obj = [h \in Handles |-> "none"] /\ heap = 0 /\ busy = Idle /\ last = "answered"
Free1 == busy = Idle
Begin(h) == Free1 /\ obj[h] = "none" /\ busy' = [h |-> h, taken |-> 0] /\ UNCHANGED << obj, heap, last >>
Take == ~Free1 /\ busy.taken < Buffers /\ busy' = [busy EXCEPT !.taken = @ + 1] /\ heap' = heap + 1 /\ UNCHANGED << obj, last >>
Refuse == /\ ~Free1 /\ busy' = Idle /\ last' = "refused" /\ UNCHANGED obj
          /\ heap' = IF Releases THEN heap - busy.taken ELSE heap
Finish == ~Free1 /\ busy.taken = Buffers /\ obj' = [obj EXCEPT ![busy.h] = "live"] /\ busy' = Idle /\ last' = "answered" /\ UNCHANGED heap
Use(h) == Free1 /\ obj[h] = "live" /\ last' \in {"answered", "refused"} /\ UNCHANGED << obj, heap, busy >>
Move(g, h) == Free1 /\ obj[h] = "live" /\ obj[g] = "none" /\ obj' = [obj EXCEPT ![g] = "live", ![h] = "moved"] /\ last' = "answered" /\ UNCHANGED << heap, busy >>
Free(h) == Free1 /\ obj[h] # "none" /\ obj' = [obj EXCEPT ![h] = "none"] /\ heap' = heap - Holds(h) /\ last' = "answered" /\ UNCHANGED busy
Next == \/ \E h \in Handles : Begin(h) \/ Use(h) \/ Free(h)
        \/ \E g, h \in Handles : Move(g, h)
        \/ Take \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars
Sum == Holds("A") + Holds("B")
Owned == heap = Sum + busy.taken
NothingLeft == (Free1 /\ \A h \in Handles : obj[h] = "none") => heap = 0
RefusalKeeps == [][last' = "refused" => obj' = obj]_vars
=============================================================================
