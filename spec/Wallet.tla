------------------------------- MODULE Wallet -------------------------------
(* The life of a wallet: one key on stable storage as a backup (extended seed) *)
(* and a saved index; a signer in memory that is lost in a crash and rebuilt   *)
(* from both.  A signature may only be released once the saved index is past   *)
(* it (Policy = "save"); then no one-time key ever serves two released         *)
(* signatures, wherever the crashes fall.  With any other order it does        *)
(* (Policy = "release", MCWalletNone.cfg: TLC must find the reuse).            *)
EXTENDS Signer
CONSTANTS H, Policy, MaxSigns, Ahead
VARIABLES mem, disk, pend, out, n
\* mem: the signer in memory, or nothing; pend: signatures made and not released; out: released ones;
\* a signature is <<index, number of the signing call>>: two signatures of one index are two different ones
wvars == << mem, disk, pend, out, n >>
None == [kind |-> "none", h |-> H, idx |-> 0]
New == [kind |-> "fast", h |-> H, idx |-> 0]
Open == mem # None
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Init == mem = New /\ disk = 0 /\ pend = {} /\ out = {} /\ n = 0
Sign == /\ Open /\ n < MaxSigns
        /\ LET o == SignOutcome(mem) IN
           /\ mem' = [mem EXCEPT !.idx = o.idx]
           /\ pend' = IF o.done THEN pend \cup {<< mem.idx, n >>} ELSE pend
           /\ n' = n + 1
        /\ UNCHANGED << disk, out >>
Jump(t) == Open /\ mem' = [mem EXCEPT !.idx = SetIndexOutcome(mem, t).idx] /\ UNCHANGED << disk, pend, out, n >>
Save == Open /\ disk' = Max2(disk, mem.idx) /\ UNCHANGED << mem, pend, out, n >>
\* setting indices aside in one write
Reserve(k) == Open /\ disk' = Max2(disk, Min2(mem.idx + k, Keys(H))) /\ UNCHANGED << mem, pend, out, n >>
Release(p) == /\ p \in pend /\ (Policy = "save" => disk > p[1])
              /\ out' = out \cup {p} /\ pend' = pend \ {p} /\ UNCHANGED << mem, disk, n >>
Crash == Open /\ mem' = None /\ pend' = {} /\ UNCHANGED << disk, out, n >>
\* a signer rebuilt from the backup starts at index 0 and is moved to the saved index; a used-up wallet stays closed:
\* there the move is refused, and the signer (at index 0!) must not be used
Restore == /\ ~Open
           /\ LET o == SetIndexOutcome(New, disk) IN mem' = IF o.done THEN [New EXCEPT !.idx = o.idx] ELSE None
           /\ UNCHANGED << disk, pend, out, n >>
Next == \/ Sign \/ Save \/ Crash \/ Restore
        \/ \E k \in 1..Ahead : Reserve(k)
        \/ \E t \in 0..(Keys(H) + 1) : Jump(t)
        \/ \E p \in pend : Release(p)
Spec == Init /\ [][Next]_wvars

TypeOK == mem.idx \in 0..Keys(H) /\ disk \in 0..Keys(H) /\ \A p \in pend \cup out : p[1] \in 0..(Keys(H) - 1)
NoReuse == \A p, q \in out : p[1] = q[1] => p = q
SavedPastReleased == \A p \in out : p[1] < disk
\* what a rebuilt signer will use lies beyond everything released
FreshAfterRestore == [][(mem = None /\ mem' # None) => \A p \in out : p[1] < mem'.idx]_wvars
\* nothing saved is lost: the saved index never goes back, nor does the signer's while it is open
Forward == [][disk' >= disk /\ ((mem # None /\ mem' # None) => mem'.idx >= mem.idx)]_wvars
=============================================================================
