--------------------------------- MODULE Bds ---------------------------------
(* The fast signer's traversal of its tree (Buchmann, Dahmen, Szydlo), with    *)
(* symbolic nodes: << level, index >> stands for that node of the tree, Bad    *)
(* for anything else (a hash of the wrong children, of the wrong address, or   *)
(* a value never written).  H: height, K: the BDS parameter.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H, K

Bad == << -1, -1 >>
\* one tree hash: the address says which node it is meant to be
Combine(l, r, level, i) == IF l = << level - 1, 2 * i >> /\ r = << level - 1, 2 * i + 1 >> THEN << level, i >> ELSE Bad
Sib(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1
Shr(x, n) == x \div (2 ^ n)
Bit(x, n) == Shr(x, n) % 2

\* position in the retain array of the (r)-th odd node from index 3 on at a level >= H-K
RetainAt(level, r) == (2 ^ (H - 1 - level)) + level - H + r
RetainSize == (2 ^ K) - K - 1
KeepSize == H \div 2
StackSize == H + 1

\* the state after key generation
Start ==
  [auth |-> [l \in 0..(H-1) |-> << l, 1 >>],
   keep |-> [j \in 0..(KeepSize-1) |-> Bad],
   th |-> [l \in 0..(H-K-1) |-> [node |-> << l, 3 >>, next |-> 0, done |-> TRUE, used |-> 0]],
   retain |-> [j \in 0..(RetainSize-1) |->
                LET p == CHOOSE p \in {<< l, r >> : l \in (H-K)..(H-2), r \in 0..(2^K)} :
                           RetainAt(p[1], p[2]) = j /\ 3 + 2 * p[2] < 2 ^ (H - p[1])
                IN << p[1], 3 + 2 * p[2] >>],
   stack |-> << >>, ok |-> TRUE]

\* number of trailing ones: the lowest level at which leaf i is a left child's descendant
Tau(i) == IF \E l \in 0..(H-1) : Bit(i, l) = 0 THEN CHOOSE l \in 0..(H-1) : Bit(i, l) = 0 /\ \A m \in 0..(l-1) : Bit(i, m) = 1 ELSE H
Min(a, b) == IF a < b THEN a ELSE b

\* from the path of leaf i to the path of leaf i+1
Round(s, i) ==
  LET tau == Tau(i)
      left == IF tau > 0 THEN s.auth[tau - 1] ELSE Bad
      kept == IF tau > 0 THEN s.keep[Shr(tau - 1, 1)] ELSE Bad
      keep1 == IF tau < H - 1 /\ Bit(i, tau + 1) = 0 THEN [s.keep EXCEPT ![Shr(tau, 1)] = s.auth[tau]] ELSE s.keep
      auth1 == IF tau = 0 THEN [s.auth EXCEPT ![0] = << 0, i >>]
               ELSE [l \in 0..(H-1) |-> IF l = tau THEN Combine(left, kept, tau, Shr(i, tau))
                                        ELSE IF l > tau THEN s.auth[l]
                                        ELSE IF l < H - K THEN s.th[l].node
                                        ELSE s.retain[RetainAt(l, Shr(Shr(i, l) - 1, 1))]]
      th1 == [l \in 0..(H-K-1) |->
                LET first == i + 1 + 3 * (2 ^ l) IN
                IF l < Min(tau, H - K) /\ tau > 0 /\ first < 2 ^ H
                THEN [s.th[l] EXCEPT !.next = first, !.done = FALSE, !.used = 0] ELSE s.th[l]]
      inrange == tau > 0 => \A l \in (H-K)..(tau-1) : RetainAt(l, Shr(Shr(i, l) - 1, 1)) \in 0..(RetainSize-1)
  IN [s EXCEPT !.auth = auth1, !.keep = keep1, !.th = th1, !.ok = @ /\ inrange /\ (\A l \in 0..(H-K-1) : l < Min(tau, H-K) => s.th[l].used = 0)]

\* one unit of work of the instance at level l
RECURSIVE Fold(_, _, _, _)
Fold(node, stack, used, leaf) ==
  IF used > 0 /\ Len(stack) > 0 /\ stack[Len(stack)][1] = node[1] /\ node # Bad
  THEN Fold(Combine(stack[Len(stack)], node, node[1] + 1, Shr(leaf, node[1] + 1)), SubSeq(stack, 1, Len(stack) - 1), used - 1, leaf)
  ELSE [node |-> node, stack |-> stack, used |-> used]
Work(s, l) ==
  LET t == s.th[l]
      r == Fold(<< 0, t.next >>, s.stack, t.used, t.next)
  IN IF r.node[1] = l
     THEN [s EXCEPT !.th[l] = [t EXCEPT !.node = r.node, !.done = TRUE, !.used = r.used], !.stack = r.stack, !.ok = @ /\ r.used = 0]
     ELSE [s EXCEPT !.th[l] = [t EXCEPT !.used = r.used + 1, !.next = @ + 1], !.stack = Append(r.stack, r.node),
                    !.ok = @ /\ r.node # Bad /\ Len(r.stack) < StackSize]
LowOf(s, l) ==
  LET t == s.th[l] IN
  IF t.done THEN H
  ELSE IF t.used = 0 THEN l
  ELSE LET top == {s.stack[j][1] : j \in (Len(s.stack) - t.used + 1)..Len(s.stack)} IN CHOOSE m \in top : \A x \in top : m <= x
Neediest(s) ==
  LET lows == [l \in 0..(H-K-1) |-> LowOf(s, l)]
      best == CHOOSE m \in {lows[l] : l \in 0..(H-K-1)} : \A l \in 0..(H-K-1) : m <= lows[l]
  IN IF best >= H THEN -1 ELSE CHOOSE l \in 0..(H-K-1) : lows[l] = best /\ \A m \in 0..(l-1) : lows[m] > best
RECURSIVE Updates(_, _)
Updates(s, n) == IF n = 0 THEN s
                 ELSE LET l == Neediest(s) IN IF l < 0 THEN s ELSE Updates(TLCEval(Work(s, l)), n - 1)

Step(s, i) == Updates(TLCEval(Round(s, i)), (H - K) \div 2)
\* what the authentication path of leaf i must be
PathOf(i) == [l \in 0..(H-1) |-> << l, Sib(Shr(i, l)) >>]
=============================================================================
