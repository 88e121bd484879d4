-------------------------------- MODULE MCKem --------------------------------
(* Three objects (two fresh pairs, one rebuilt from the first pair's bytes)    *)
(* encapsulate, decapsulate, get wrong sizes and failing primitives, in every  *)
(* order.  Ops is also the alphabet of the conformance tests (GenPq).          *)
EXTENDS Pq
CONSTANT Depth
Objs == {"A", "B", "C"}
Ops == [k : {"enc"}, o : Objs, t : {"A", "B", "short", "long", "fail"}]
       \cup [k : {"dec"}, o : Objs, t : Objs \cup {"bent", "short", "long", "fail"}]
VARIABLES obj, pairs, enc, n, last
vars == << obj, pairs, enc, n, last >>
None == << "none", 0 >>
Ct(k) == << "ct", k >>
Key(k) == << "key", k >>
Init == /\ pairs = ("skA" :> "pkA") @@ ("skB" :> "pkB")
        /\ obj = [o \in Objs |-> [pk |-> IF o = "B" THEN "pkB" ELSE "pkA", sk |-> IF o = "B" THEN "skB" ELSE "skA", key |-> None, ct |-> None]]
        /\ enc = [x \in {} |-> 0] /\ n = 0 /\ last = [ok |-> TRUE, ct |-> None, o |-> "A"]
Enc(op) ==
  IF op.t \in {"A", "B"}
  THEN /\ obj' = [obj EXCEPT ![op.o].key = Key(n), ![op.o].ct = Ct(n)]
       /\ enc' = EncWorld(enc, obj[op.t].pk, Ct(n), Key(n))
       /\ last' = [ok |-> TRUE, ct |-> None, o |-> op.o]
  ELSE /\ last' = [ok |-> FALSE, ct |-> None, o |-> op.o]
       /\ obj' = IF op.t = "fail" THEN [obj EXCEPT ![op.o].key = << "junk", n >>, ![op.o].ct = << "junk", n >>] ELSE obj
       /\ UNCHANGED enc
Dec(op) == LET ct == IF op.t \in Objs THEN obj[op.t].ct ELSE << "bent", n >> IN
  IF op.t \in {"short", "long", "fail"} \/ ct = None
  THEN /\ last' = [ok |-> FALSE, ct |-> ct, o |-> op.o] /\ UNCHANGED enc
       /\ obj' = IF op.t = "fail" THEN [obj EXCEPT ![op.o].key = << "junk", n >>] ELSE obj
  ELSE /\ \E key \in {enc[x] : x \in DOMAIN enc} \cup {<< "rejected", obj[op.o].sk, ct >>} :
            /\ DecKeyOk(pairs, enc, obj[op.o].sk, ct, key)
            /\ obj' = [obj EXCEPT ![op.o].key = key]
       /\ last' = [ok |-> TRUE, ct |-> ct, o |-> op.o] /\ UNCHANGED enc
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED pairs /\ \E op \in Ops : IF op.k = "enc" THEN Enc(op) ELSE Dec(op)
Spec == Init /\ [][Next]_vars
\* the key pair of an object never changes
KeysStay == [][\A o \in Objs : obj'[o].pk = obj[o].pk /\ obj'[o].sk = obj[o].sk]_vars
\* a decapsulation yields what the sender got, exactly when the sender meant this key pair
Agreement == (last.ok /\ last.ct # None) =>
  \A x \in DOMAIN enc : x[2] = last.ct => ((obj[last.o].key = enc[x]) <=> (x[1] = pairs[obj[last.o].sk]))
\* an object's ciphertext opens to the object's key for whoever it was made for
SenderKey == \A o \in Objs : \A x \in DOMAIN enc : (x[2] = obj[o].ct /\ last.ok /\ last.o = o /\ last.ct = None) => obj[o].key = enc[x]
=============================================================================
