----------------------------- MODULE GenWallet -----------------------------
(* Histories of Wallet.tla up to a length, from the start of a tree and from   *)
(* near its end; each call with the index the signer must have after it.       *)
EXTENDS Signer, TLC, Json, IOUtils
CONSTANTS H, Depth
VARIABLES mem, disk, path
gvars == << mem, disk, path >>
At(i) == [kind |-> "fast", h |-> H, idx |-> i]
Closed == -1
Open == mem # Closed
Do(op, n, idx) == path' = Append(path, [op |-> op, n |-> n, idx |-> idx])
Last == IF path = << >> THEN "" ELSE path[Len(path)].op
\* the wallet is at index i and saved there
Init == \E i \in {0, Keys(H) - 3} : mem = i /\ disk = i /\ path = << [op |-> "start", n |-> i, idx |-> i] >>
Sign == Open /\ mem' = SignOutcome(At(mem)).idx /\ Do("sign", 0, mem') /\ UNCHANGED disk
Jump(d) == /\ Open /\ Last # "jump"
           /\ mem' = SetIndexOutcome(At(mem), mem + d).idx /\ Do("jump", mem + d, mem') /\ UNCHANGED disk
Save == Open /\ disk < mem /\ disk' = mem /\ Do("save", disk', mem) /\ UNCHANGED mem
Reserve == Open /\ mem < Keys(H) /\ disk < mem + 2 /\ disk' = (IF mem + 2 > Keys(H) THEN Keys(H) ELSE mem + 2) /\ Do("save", disk', mem) /\ UNCHANGED mem
\* a crash and the attempt to go on
Crash == /\ Open /\ Last # "crash"
         /\ mem' = (IF SetIndexOutcome(At(0), disk).done THEN disk ELSE Closed) /\ Do("crash", disk, mem') /\ UNCHANGED disk
Next == Len(path) <= Depth /\ (Sign \/ Jump(2) \/ Save \/ Reserve \/ Crash)
Spec == Init /\ [][Next]_gvars
\* complete ones, with a crash
Collect == (Len(path) = Depth + 1 \/ ~Open) => IF \E k \in 1..Len(path) : path[k].op = "crash" THEN TLCSet(1, Append(TLCGet(1), path)) ELSE TRUE
ASSUME TLCSet(1, << >>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
