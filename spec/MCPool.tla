------------------------------- MODULE MCPool -------------------------------
(* The pool as it is built: a lock, a queue of pending builds, one builder per *)
(* pending tree, waiting outside the lock.  Checked: it implements Pool.tla,   *)
(* every call returns, queries never wait for a build, the queue always covers *)
(* the next indices, destruction waits for the builders and finishes.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Callers, Calls, Sizes, FailSets, NoCaller
VARIABLES cur, queue, build, lock, pc, got, left, floor, returned, returnedErr, size, failing, seen
cvars == << cur, queue, build, lock, pc, got, left, floor, returned, returnedErr, size, failing, seen >>
FS == {{}, {0}, {1}, {0, 1, 2, 3, 4, 5, 6, 7, 8}}
MaxIdx == Cardinality(Callers) * Calls + 2 + 1
All == 0..MaxIdx
Refill(q, c, s) == q \o [k \in 1..(c + s - (c + Len(q))) |-> c + Len(q) + k - 1]
Filled(q, c, s) == IF Len(q) >= s THEN q ELSE Refill(q, c, s)
Started(q) == {q[k] : k \in 1..Len(q)}
Init == /\ size \in Sizes /\ failing \in FailSets
        /\ cur = 0 /\ queue = Filled(<< >>, 0, size)
        /\ build = [i \in All |-> IF i < size THEN "building" ELSE "none"]
        /\ lock = NoCaller /\ pc = [c \in Callers |-> "idle"] /\ got = [c \in Callers |-> -1]
        /\ left = [c \in Callers |-> Calls] /\ floor = [c \in Callers |-> -1]
        /\ returned = {} /\ returnedErr = {} /\ seen = "none"
MaxSet(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Call(c) == /\ pc[c] = "idle" /\ left[c] > 0
           /\ pc' = [pc EXCEPT ![c] = "called"] /\ left' = [left EXCEPT ![c] = @ - 1]
           /\ floor' = [floor EXCEPT ![c] = MaxSet(returned)]
           /\ UNCHANGED << cur, queue, build, lock, got, returned, returnedErr, size, failing, seen >>
Lock(c) == /\ pc[c] = "called" /\ lock = NoCaller /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "locked"]
           /\ UNCHANGED << cur, queue, build, got, left, floor, returned, returnedErr, size, failing, seen >>
\* claim the index: pop the pending build, or build inline when there is none
Take(c) == /\ pc[c] = "locked"
           /\ cur' = cur + 1
           /\ IF queue = << >> THEN /\ got' = [got EXCEPT ![c] = cur] /\ UNCHANGED << queue, build >>
                                    /\ pc' = [pc EXCEPT ![c] = "inline"]
              ELSE LET q == Filled(Tail(queue), cur + 1, size) IN
                   /\ got' = [got EXCEPT ![c] = Head(queue)] /\ queue' = q
                   /\ build' = [i \in All |-> IF i \in Started(q) /\ build[i] = "none" THEN "building" ELSE build[i]]
                   /\ pc' = [pc EXCEPT ![c] = "popped"]
           /\ UNCHANGED << lock, left, floor, returned, returnedErr, size, failing, seen >>
Unlock(c) == /\ pc[c] \in {"inline", "popped"} /\ lock = c /\ lock' = NoCaller
             /\ pc' = [pc EXCEPT ![c] = IF @ = "inline" THEN "building" ELSE "waiting"]
             /\ UNCHANGED << cur, queue, build, got, left, floor, returned, returnedErr, size, failing, seen >>
Finish(i) == /\ build[i] = "building" /\ build' = [build EXCEPT ![i] = IF i \in failing THEN "failed" ELSE "ready"]
             /\ UNCHANGED << cur, queue, lock, pc, got, left, floor, returned, returnedErr, size, failing, seen >>
Return(c) == /\ \/ pc[c] = "building"
                \/ pc[c] = "waiting" /\ build[got[c]] \in {"ready", "failed"}
             /\ returned' = returned \cup {got[c]}
             /\ returnedErr' = IF got[c] \in failing THEN returnedErr \cup {got[c]} ELSE returnedErr
             /\ pc' = [pc EXCEPT ![c] = "idle"]
             /\ UNCHANGED << cur, queue, build, lock, got, left, floor, size, failing, seen >>
\* availability: a query takes the lock, looks and leaves; no waiting
Avail == /\ lock = NoCaller
         /\ seen' = IF queue = << >> THEN "empty" ELSE IF build[Head(queue)] \in {"ready", "failed"} THEN "ready" ELSE "pending"
         /\ UNCHANGED << cur, queue, build, lock, pc, got, left, floor, returned, returnedErr, size, failing >>
Done == \A c \in Callers : pc[c] = "idle" /\ left[c] = 0
\* destruction, when every caller is finished: joins the builders of the queue
Destroy == /\ Done /\ seen # "gone" /\ \A k \in 1..Len(queue) : build[queue[k]] # "building"
           /\ seen' = "gone" /\ queue' = << >> /\ UNCHANGED << cur, build, lock, pc, got, left, floor, returned, returnedErr, size, failing >>
Next == \/ \E c \in Callers : Call(c) \/ Lock(c) \/ Take(c) \/ Unlock(c) \/ Return(c)
        \/ \E i \in All : Finish(i)
        \/ Destroy
        \/ seen # "gone" /\ Avail
Fair == /\ \A c \in Callers : WF_cvars(Call(c)) /\ SF_cvars(Lock(c)) /\ WF_cvars(Take(c)) /\ WF_cvars(Unlock(c)) /\ WF_cvars(Return(c))
        /\ \A i \in All : WF_cvars(Finish(i))
        /\ WF_cvars(Destroy)
Spec == Init /\ [][Next]_cvars /\ Fair

\* refinement: the claim is the step that pops the queue
Abs == INSTANCE Pool WITH p <- [cur |-> cur, size |-> size, failing |-> failing],
         pc <- [c \in Callers |-> CASE pc[c] \in {"idle", "called"} -> pc[c] [] pc[c] = "locked" -> "called" [] OTHER -> "claimed"]
Implements == Abs!ASpec
Safe == Abs!Distinct /\ Abs!FreshIndex /\ Abs!Consecutive /\ Abs!RealTime /\ Abs!ErrorsExact
Covered == seen = "gone" \/ (lock = NoCaller => queue = [k \in 1..size |-> cur + k - 1])
OneBuildEach == \A j, k \in 1..Len(queue) : j # k => queue[j] # queue[k]
SeenRight == seen = "ready" => \E i \in All : build[i] \in {"ready", "failed"}
Bounded == cur + size <= MaxIdx + 1
EveryCallReturns == \A c \in Callers : pc[c] = "called" ~> pc[c] = "idle"
Ends == <>(seen = "gone")
\* a query never waits for a build: whenever the lock is free it can be answered, and the lock is only held for
\* steps that are always possible
LockAlwaysReleasable == \A c \in Callers : lock = c => pc[c] \in {"locked", "inline", "popped"}
=============================================================================
