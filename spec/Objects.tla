------------------------------ MODULE Objects ------------------------------
(* Signers as their users see them: independent machines.  A call on one of    *)
(* them reads and changes that one only; a copy is a new machine in the same   *)
(* state; answers are a function of the machine's own state.                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Handles, Seeds, N          \* N: one-time keys per signer
VARIABLES obj, out                   \* obj: handle -> [seed, idx] or Nobody; out: handle -> last answer
avars == << obj, out >>
Nobody == [seed |-> "none", idx |-> 0]
Alive(h) == obj[h] # Nobody
AInit == obj = [h \in Handles |-> Nobody] /\ out = [h \in Handles |-> << >>]
Answer(o) == << o.seed, o.idx >>     \* stands for the signature: key pair and index determine it
ANew(h, s) == obj' = [obj EXCEPT ![h] = [seed |-> s, idx |-> 0]] /\ out' = [out EXCEPT ![h] = << >>]
ASign(h) == /\ Alive(h) /\ obj[h].idx < N
            /\ out' = [out EXCEPT ![h] = Answer(obj[h])] /\ obj' = [obj EXCEPT ![h].idx = @ + 1]
AJump(h, i) == Alive(h) /\ obj[h].idx <= i /\ i < N /\ obj' = [obj EXCEPT ![h].idx = i] /\ UNCHANGED out
ACopy(h, g) == Alive(g) /\ h # g /\ obj' = [obj EXCEPT ![h] = obj[g]] /\ out' = [out EXCEPT ![h] = << >>]
AMove(h, g) == Alive(g) /\ h # g /\ obj' = [obj EXCEPT ![h] = obj[g], ![g] = Nobody] /\ out' = [out EXCEPT ![h] = << >>, ![g] = << >>]
ASwap(h, g) == Alive(g) /\ Alive(h) /\ h # g /\ obj' = [obj EXCEPT ![h] = obj[g], ![g] = obj[h]] /\ out' = [out EXCEPT ![h] = << >>, ![g] = << >>]
AFree(h) == Alive(h) /\ obj' = [obj EXCEPT ![h] = Nobody] /\ out' = [out EXCEPT ![h] = << >>]
ANext == \/ \E h \in Handles, s \in Seeds : ANew(h, s)
         \/ \E h \in Handles : ASign(h) \/ AFree(h)
         \/ \E h \in Handles, i \in 0..(N - 1) : AJump(h, i)
         \/ \E h, g \in Handles : ACopy(h, g) \/ AMove(h, g) \/ ASwap(h, g)
ASpec == AInit /\ [][ANext]_avars
\* nobody else changes
Alone == [][\A h \in Handles : obj'[h] # obj[h] =>
             (\A g \in Handles : g # h => (obj'[g] = obj[g] \/ (obj[g] # Nobody /\ obj'[g] = Nobody /\ obj'[h] = obj[g]) \/ (obj'[h] = Nobody /\ obj'[g] = obj[h])
                                           \/ (obj'[h] = obj[g] /\ obj'[g] = obj[h])))]_avars
=============================================================================
