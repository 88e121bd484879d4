--------------------------------- MODULE Rng ---------------------------------
(* A random seed of n bytes: open the source, read until n bytes are there,    *)
(* hash them.  The source answers each step as it likes: some bytes, the end,  *)
(* an error, or no opening at all.  chunks and fault say what it answered      *)
(* (GenRng makes a test script of every complete behaviour).                   *)
EXTENDS Integers, Sequences
CONSTANT Sizes
VARIABLES n, got, chunks, fault, pc
vars == << n, got, chunks, fault, pc >>
Init == n \in Sizes /\ got = 0 /\ chunks = << >> /\ fault = "none" /\ pc = "open"
Open == /\ pc = "open"
        /\ \/ pc' = "read" /\ UNCHANGED fault
           \/ pc' = "failed" /\ fault' = "open"
        /\ UNCHANGED << n, got, chunks >>
\* one answer of the source: k bytes, or nothing any more
Read == /\ pc = "read" /\ got < n
        /\ \/ \E k \in 1..(n - got) : got' = got + k /\ chunks' = Append(chunks, k) /\ UNCHANGED << pc, fault >>
           \/ \E x \in {"eof", "err"} : fault' = x /\ pc' = "failed" /\ UNCHANGED << got, chunks >>
        /\ UNCHANGED n
Finish == pc = "read" /\ got = n /\ pc' = "seed" /\ UNCHANGED << n, got, chunks, fault >>
Next == Open \/ Read \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SeedIsFresh == pc = "seed" => got = n /\ fault = "none"
FailOnlyOnFault == pc = "failed" <=> fault # "none"
Answers == <>(pc \in {"seed", "failed"})
=============================================================================
