-------------------------------- MODULE Xmss --------------------------------
(* XMSS as this library instantiates it: n = 32, one tree, hash function 0     *)
(* (SHA2-256), 1 (SHAKE-128) or 2 (SHAKE-256), key derivation by SHAKE-256 of  *)
(* the 48-byte seed, and a 3-byte descriptor in front of the public key.       *)
EXTENDS Prim, Wots

CONSTANT DirectDigest     \* TRUE: the SHA-256 in use maps messages ending in
                          \* Magic \o d to the digest d in HMsg (chosen digests)
Magic == << 68, 73, 82, 69, 67, 84, 45, 68, 73, 71, 69, 83, 84, 45, 51, 50 >>

HashFunctions == 0..2
HashBytes(hf, m) == CASE hf = 0 -> Sha256(m)
                      [] hf = 1 -> Shake128(32, m)
                      [] OTHER -> Shake256(32, m)
CoreHash(hf, type, key, in) == HashBytes(hf, BE(32, type) \o key \o in)
PRF(hf, key, in) == CoreHash(hf, 3, key, in)
AddrBytes(a) == BE(4,a[1]) \o BE(4,a[2]) \o BE(4,a[3]) \o BE(4,a[4])
                \o BE(4,a[5]) \o BE(4,a[6]) \o BE(4,a[7]) \o BE(4,a[8])

IsDirect(hf, msg) == /\ DirectDigest /\ hf = 0 /\ Len(msg) >= 48
                     /\ SubSeq(msg, Len(msg) - 47, Len(msg) - 32) = Magic
HMsg(hf, key, msg) == IF IsDirect(hf, msg) THEN Suffix(msg, 32) ELSE CoreHash(hf, 2, key, msg)

\* Tweakable hashes.  addr is the 8-word address; the last word selects key and masks.
HashFDef(hf, x, seed, a) ==
  LET key == PRF(hf, seed, AddrBytes([a EXCEPT ![8] = 0]))
      bm  == PRF(hf, seed, AddrBytes([a EXCEPT ![8] = 1]))
  IN CoreHash(hf, 0, key, XorB(x, bm))
HashHDef(hf, l, r, seed, a) ==
  LET key == PRF(hf, seed, AddrBytes([a EXCEPT ![8] = 0]))
      b0  == PRF(hf, seed, AddrBytes([a EXCEPT ![8] = 1]))
      b1  == PRF(hf, seed, AddrBytes([a EXCEPT ![8] = 2]))
  IN CoreHash(hf, 1, key, XorB(l \o r, b0 \o b1))
HashH(hf, l, r, seed, a) == HashHDef(hf, l, r, seed, a)           \* Java override

RECURSIVE ChainDef(_, _, _, _, _, _)
ChainDef(hf, x, start, steps, seed, a) ==
  IF steps = 0 THEN x
  ELSE ChainDef(hf, HashFDef(hf, x, seed, [a EXCEPT ![7] = start]), start + 1, steps - 1, seed, a)
Chain(hf, x, start, steps, seed, a) == ChainDef(hf, x, start, steps, seed, a)   \* Java override

OtsAddr(i)   == << 0, 0, 0, 0, i, 0, 0, 0 >>
LTreeAddr(i) == << 0, 0, 0, 1, i, 0, 0, 0 >>
NodeAddr(level, i) == << 0, 0, 0, 2, 0, level, i, 0 >>

OtsSeed(hf, skseed, i) == PRF(hf, skseed, AddrBytes(OtsAddr(i)))
OtsSecret(hf, otsseed, j) == PRF(hf, otsseed, BE(32, j))          \* j from 0

WotsPk(hf, w, otsseed, pubseed, i) ==
  TLCEval([j \in 1..WLen(w) |->
     Chain(hf, OtsSecret(hf, otsseed, j - 1), 0, w - 1, pubseed, [OtsAddr(i) EXCEPT ![6] = j - 1])])
WotsSignAt(hf, pos, otsseed, pubseed, i) ==
  TLCEval([j \in 1..Len(pos) |->
     Chain(hf, OtsSecret(hf, otsseed, j - 1), 0, pos[j], pubseed, [OtsAddr(i) EXCEPT ![6] = j - 1])])
WotsPkFromSig(hf, w, pos, chains, pubseed, i) ==
  TLCEval([j \in 1..Len(pos) |->
     Chain(hf, chains[j], pos[j], w - 1 - pos[j], pubseed, [OtsAddr(i) EXCEPT ![6] = j - 1])])

RECURSIVE LTree(_, _, _, _, _)
LTree(hf, nodes, height, pubseed, i) ==
  IF Len(nodes) = 1 THEN nodes[1]
  ELSE LET m == Len(nodes) \div 2
           up == [k \in 1..m |-> HashH(hf, nodes[2*k - 1], nodes[2*k], pubseed,
                                        [LTreeAddr(i) EXCEPT ![6] = height, ![7] = k - 1])]
           nxt == IF Len(nodes) % 2 = 1 THEN up \o << nodes[Len(nodes)] >> ELSE up
       IN LTree(hf, TLCEval(nxt), height + 1, pubseed, i)

Leaf(hf, w, skseed, pubseed, i) ==
  Memo(<< "leaf", hf, w, skseed, pubseed, i >>,
       LTree(hf, WotsPk(hf, w, OtsSeed(hf, skseed, i), pubseed, i), 0, pubseed, i))

RECURSIVE Node(_, _, _, _, _, _)
Node(hf, w, skseed, pubseed, level, i) ==
  IF level = 0 THEN Leaf(hf, w, skseed, pubseed, i)
  ELSE Memo(<< "node", hf, w, skseed, pubseed, level, i >>,
            HashH(hf, Node(hf, w, skseed, pubseed, level - 1, 2 * i),
                      Node(hf, w, skseed, pubseed, level - 1, 2 * i + 1),
                      pubseed, NodeAddr(level - 1, i)))

Sibling(i) == IF i % 2 = 0 THEN i + 1 ELSE i - 1

\* ---- keys ----
Expand(seed) == Memo(<< "expand", seed >>, Shake256(96, seed))
SkSeed(seed) == Slice(Expand(seed), 0, 32)
SkPrf(seed)  == Slice(Expand(seed), 32, 32)
PubSeed(seed) == Slice(Expand(seed), 64, 32)
Root(seed, h, hf, w) == Node(hf, w, SkSeed(seed), PubSeed(seed), h, 0)

Descriptor(hf, sigtype, h, fmt) == << sigtype * 16 + hf, fmt * 16 + ((h \div 2) % 16), 0 >>
PublicKey(seed, h, hf, w, fmt) ==
  Descriptor(hf, 0, h, fmt) \o Root(seed, h, hf, w) \o PubSeed(seed)
SecretKey(seed, h, hf, w, idx) ==
  BE(4, idx) \o SkSeed(seed) \o SkPrf(seed) \o PubSeed(seed) \o Root(seed, h, hf, w)
ExtendedSeed(seed, h, hf, fmt) == Descriptor(hf, 0, h, fmt) \o seed

SignatureSize(h, w) == 4 + 32 + 32 * WLen(w) + 32 * h
HeightOk(h) == h > 2 /\ h % 2 = 0

\* ---- signing ----
MsgDigest(hf, r, root, idx, msg) == HMsg(hf, r \o root \o BE(32, idx), msg)
AuthPath(seed, h, hf, w, idx) ==
  [l \in 1..h |-> Node(hf, w, SkSeed(seed), PubSeed(seed), l - 1, Sibling(idx \div (2 ^ (l - 1))))]
SignWith(seed, h, hf, w, idx, msg, root, auth) ==
  LET r == PRF(hf, SkPrf(seed), BE(32, idx))
      d == MsgDigest(hf, r, root, idx, msg)
      chains == WotsSignAt(hf, Positions(d, w), OtsSeed(hf, SkSeed(seed), idx), PubSeed(seed), idx)
  IN BE(4, idx) \o r \o Flatten(chains) \o Flatten(auth)
Signature(seed, h, hf, w, idx, msg) ==
  SignWith(seed, h, hf, w, idx, msg, Root(seed, h, hf, w), AuthPath(seed, h, hf, w, idx))

\* ---- verification ----
RECURSIVE Climb(_, _, _, _, _, _)
Climb(hf, node, idx, auth, level, pubseed) ==
  IF level = Len(auth) THEN node
  ELSE LET a == auth[level + 1]
           up == IF idx % 2 = 0 THEN HashH(hf, node, a, pubseed, NodeAddr(level, idx \div 2))
                                ELSE HashH(hf, a, node, pubseed, NodeAddr(level, idx \div 2))
       IN Climb(hf, up, idx \div 2, auth, level + 1, pubseed)
RootFromSig(hf, w, h, msg, sig, root, pubseed) ==
  LET idx == BEVal(Slice(sig, 0, 4))
      r == Slice(sig, 4, 32)
      d == MsgDigest(hf, r, root, idx, msg)
      pos == TLCEval(Positions(d, w))
      chains == [j \in 1..WLen(w) |-> Slice(sig, 36 + 32 * (j - 1), 32)]
      auth == [l \in 1..h |-> Slice(sig, 36 + 32 * WLen(w) + 32 * (l - 1), 32)]
      leaf == LTree(hf, WotsPkFromSig(hf, w, pos, chains, pubseed, idx), 0, pubseed, idx)
  IN Climb(hf, leaf, idx, auth, 0, pubseed)

\* the index of a signature as two 16-bit halves (32-bit values overflow TLC)
SigIdxInRange(sig, h) ==
  LET b == Slice(sig, 0, 4)
      hi == 256 * b[1] + b[2]
      lo == 256 * b[3] + b[4]
  IN IF h >= 16 THEN hi < 2 ^ (h - 16) ELSE hi = 0 /\ lo < 2 ^ h

\* what a 67-byte public key says about itself
PkHf(pk) == pk[1] % 16
PkSigType(pk) == pk[1] \div 16
PkHeight(pk) == 2 * (pk[2] % 16)
PkFmt(pk) == pk[2] \div 16
WellFormed(sig, pk, w) ==
  /\ Len(pk) = 67
  /\ PkHf(pk) \in HashFunctions /\ PkSigType(pk) = 0
  /\ HeightOk(PkHeight(pk))
  /\ Len(sig) = SignatureSize(PkHeight(pk), w)
Accepts(msg, sig, pk, w) ==
  /\ WellFormed(sig, pk, w)
  /\ SigIdxInRange(sig, PkHeight(pk))
  /\ RootFromSig(PkHf(pk), w, PkHeight(pk), msg, sig, Slice(pk, 3, 32), Slice(pk, 35, 32)) = Slice(pk, 3, 32)
=============================================================================
