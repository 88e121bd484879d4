-------------------------------- MODULE MCDil --------------------------------
(* Objects with fresh, rebuilt and mixed key pairs sign and open in every      *)
(* order; an opened message is one its public key's holder signed.             *)
EXTENDS Pq
CONSTANTS Depth, Msgs
Objs == {"A", "B", "C", "M"}
Ops == [k : {"sign"}, o : Objs, t : Msgs]
       \cup [k : {"open"}, o : Objs, t : Objs]                       \* last signed message of t, under o's public key
       \cup [k : {"bent", "cut", "grown", "othermsg", "badpk"}, o : Objs, t : {"-"}]
       \cup [k : {"split"}, o : Objs, t : {"-"}]
VARIABLES obj, pairs, signed, said, n, last
vars == << obj, pairs, signed, said, n, last >>
None == << >>
\* C is rebuilt from A's bytes, M holds B's public and A's secret key
Init == /\ pairs = ("skA" :> "pkA") @@ ("skB" :> "pkB")
        /\ obj = [o \in Objs |-> [pk |-> IF o \in {"B", "M"} THEN "pkB" ELSE "pkA", sk |-> IF o = "B" THEN "skB" ELSE "skA", sm |-> None]]
        /\ signed = {} /\ said = {} /\ n = 0 /\ last = [v |-> FALSE, pk |-> "", msg |-> ""]
Quiet == last' = [v |-> FALSE, pk |-> "", msg |-> ""]
Do(op) ==
  CASE op.k = "sign" -> LET sm == << "sig", pairs[obj[op.o].sk], op.t >> IN
                          /\ obj' = [obj EXCEPT ![op.o].sm = sm]
                          /\ signed' = SignedBy(pairs, signed, obj[op.o].sk, sm)
                          /\ said' = said \cup {<< obj[op.o].sk, op.t >>} /\ Quiet
    [] op.k = "open" -> /\ last' = IF obj[op.t].sm # None /\ Opens(signed, obj[op.o].pk, obj[op.t].sm)
                                   THEN [v |-> TRUE, pk |-> obj[op.o].pk, msg |-> obj[op.t].sm[3]] ELSE [v |-> FALSE, pk |-> "", msg |-> ""]
                        /\ UNCHANGED << obj, signed, said >>
    [] OTHER -> Quiet /\ UNCHANGED << obj, signed, said >>
Next == n < Depth /\ n' = n + 1 /\ UNCHANGED pairs /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Authentic == last.v => \E s \in said : pairs[s[1]] = last.pk /\ s[2] = last.msg
NeverMixed == \A x \in signed : x[1] = x[2][2]
Complete == \A s \in said : Opens(signed, pairs[s[1]], << "sig", pairs[s[1]], s[2] >>)
=============================================================================
