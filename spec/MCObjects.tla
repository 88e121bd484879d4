----------------------------- MODULE MCObjects -----------------------------
(* Signers as they are built: every object owns a traversal buffer that must   *)
(* agree with its index; signing fills scratch memory, then writes the answer. *)
(* Checked: with owned buffers (Deep) and scratch of its own per call, this    *)
(* implements Objects.tla; with shared buffers or shared scratch it does not   *)
(* (MCObjectsShallow, MCObjectsScratch: TLC must find a violation).            *)
EXTENDS Integers, FiniteSets
CONSTANTS Handles, Seeds, N, Deep, OwnScratch, Shared
VARIABLES obj, out, buf, at, scratch, busy
\* obj[h]: [seed, idx] (as above), at[h]: buffer of h, buf[b]: position of the traversal, busy[h]: signing under way
cvars == << obj, out, buf, at, scratch, busy >>
Nobody == [seed |-> "none", idx |-> 0]
Bufs == 1..Cardinality(Handles)
Alive(h) == obj[h] # Nobody
Used == {at[h] : h \in {x \in Handles : Alive(x)}}
FreeBuf(h) == CHOOSE b \in Bufs : b \notin {at[g] : g \in {x \in Handles : Alive(x) /\ x # h}}
Calm(h) == ~busy[h]
Init == /\ obj = [h \in Handles |-> Nobody] /\ out = [h \in Handles |-> << >>] /\ buf = [b \in Bufs |-> 0]
        /\ at = [h \in Handles |-> 0] /\ scratch = [h \in Handles \cup {Shared} |-> << >>] /\ busy = [h \in Handles |-> FALSE]
New(h, s) == /\ Calm(h) /\ obj' = [obj EXCEPT ![h] = [seed |-> s, idx |-> 0]] /\ out' = [out EXCEPT ![h] = << >>]
             /\ at' = [at EXCEPT ![h] = FreeBuf(h)] /\ buf' = [buf EXCEPT ![FreeBuf(h)] = 0] /\ UNCHANGED << scratch, busy >>
Where(h) == IF OwnScratch THEN h ELSE Shared
\* digest and traversal go to scratch memory ...
Begin(h) == /\ Alive(h) /\ Calm(h) /\ obj[h].idx < N
            /\ scratch' = [scratch EXCEPT ![Where(h)] = << obj[h].seed, buf[at[h]] >>]
            /\ busy' = [busy EXCEPT ![h] = TRUE] /\ UNCHANGED << obj, out, buf, at >>
\* ... and from there into the signature
End(h) == /\ busy[h] /\ out' = [out EXCEPT ![h] = scratch[Where(h)]] /\ obj' = [obj EXCEPT ![h].idx = @ + 1]
          /\ buf' = [buf EXCEPT ![at[h]] = @ + 1] /\ busy' = [busy EXCEPT ![h] = FALSE] /\ UNCHANGED << at, scratch >>
Jump(h, i) == /\ Alive(h) /\ Calm(h) /\ obj[h].idx <= i /\ i < N
              /\ buf' = [buf EXCEPT ![at[h]] = @ + (i - obj[h].idx)] /\ obj' = [obj EXCEPT ![h].idx = i] /\ UNCHANGED << out, at, scratch, busy >>
Copy(h, g) == /\ Alive(g) /\ Calm(g) /\ Calm(h) /\ h # g
              /\ obj' = [obj EXCEPT ![h] = obj[g]] /\ out' = [out EXCEPT ![h] = << >>]
              /\ IF Deep THEN at' = [at EXCEPT ![h] = FreeBuf(h)] /\ buf' = [buf EXCEPT ![FreeBuf(h)] = buf[at[g]]]
                         ELSE at' = [at EXCEPT ![h] = at[g]] /\ UNCHANGED buf
              /\ UNCHANGED << scratch, busy >>
Move(h, g) == /\ Alive(g) /\ Calm(g) /\ Calm(h) /\ h # g
              /\ obj' = [obj EXCEPT ![h] = obj[g], ![g] = Nobody] /\ out' = [out EXCEPT ![h] = << >>, ![g] = << >>]
              /\ at' = [at EXCEPT ![h] = at[g]] /\ UNCHANGED << buf, scratch, busy >>
Swap(h, g) == /\ Alive(g) /\ Alive(h) /\ Calm(g) /\ Calm(h) /\ h # g
              /\ obj' = [obj EXCEPT ![h] = obj[g], ![g] = obj[h]] /\ out' = [out EXCEPT ![h] = << >>, ![g] = << >>]
              /\ at' = [at EXCEPT ![h] = at[g], ![g] = at[h]] /\ UNCHANGED << buf, scratch, busy >>
Free(h) == Alive(h) /\ Calm(h) /\ obj' = [obj EXCEPT ![h] = Nobody] /\ out' = [out EXCEPT ![h] = << >>] /\ UNCHANGED << buf, at, scratch, busy >>
Next == \/ \E h \in Handles, s \in Seeds : New(h, s)
        \/ \E h \in Handles : Begin(h) \/ End(h) \/ Free(h)
        \/ \E h \in Handles, i \in 0..(N - 1) : Jump(h, i)
        \/ \E h, g \in Handles : Copy(h, g) \/ Move(h, g) \/ Swap(h, g)
Spec == Init /\ [][Next]_cvars
Abs == INSTANCE Objects
Implements == Abs!ASpec
Independent == Abs!Alone
InStep == \A h \in Handles : (Alive(h) /\ Calm(h)) => buf[at[h]] = obj[h].idx
Owned == \A h, g \in Handles : (h # g /\ Alive(h) /\ Alive(g)) => at[h] # at[g]
=============================================================================
