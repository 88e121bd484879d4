------------------------------ MODULE GenCases ------------------------------
(* Test cases computed by the specification: reads requests (ndjson, file IN), *)
(* writes the same rows with the values the specification gives (file OUT).    *)
EXTENDS Xmss, Codec
Direct == IOEnv.DIRECT = "1"
In == TLCEval(ndJsonDeserialize(IOEnv.IN))
F(x) == FromHex(x)

\* A signature by the holder of `seed` in a tree of height h whose authentication path is given
\* (any 32-byte nodes), so that every height and index can be exercised.  rootxor is added to the
\* root in the public key: a signature for a root that differs from the recomputed one.
Nodes(a) == [k \in 1..(Len(a) \div 32) |-> Slice(a, 32 * (k - 1), 32)]
\* want: "root" or "digest", byte `at` of which is to be `val`: the last authentication node or the
\* message is varied until it is (that content is rare, and code may mistreat it).
Wants(q, what) == "want" \in DOMAIN q /\ q.want = what
Crafted(q) ==
  LET seed == F(q.seed)
      pub  == TLCEval(PubSeed(seed))
      auth0 == TLCEval(IF q.auth = "tree" THEN AuthPath(seed, q.height, q.hf, q.w, q.idx) ELSE Nodes(F(q.auth)))
      h == Len(auth0)
      leaf == Leaf(q.hf, q.w, SkSeed(seed), pub, q.idx)
      below == TLCEval(Climb(q.hf, leaf, q.idx, SubSeq(auth0, 1, h - 1), 0, pub))
      Top(k) == [auth0[h] EXCEPT ![1] = k % 256, ![2] = (k \div 256) % 256]
      RootFor(a) == IF (q.idx \div 2 ^ (h - 1)) % 2 = 0 THEN HashH(q.hf, below, a, pub, NodeAddr(h - 1, q.idx \div 2 ^ h))
                                                      ELSE HashH(q.hf, a, below, pub, NodeAddr(h - 1, q.idx \div 2 ^ h))
      auth == TLCEval(IF Wants(q, "root")
                      THEN [auth0 EXCEPT ![h] = Top(CHOOSE k \in 0..4000 : RootFor(Top(k))[q.at] = q.val \/ k = 4000)]
                      ELSE auth0)
      real == TLCEval(Climb(q.hf, leaf, q.idx, auth, 0, pub))
      root == TLCEval(XorB(real, F(q.rootxor)))
      r    == TLCEval(PRF(q.hf, SkPrf(seed), BE(32, q.idx)))
      With(k) == F(q.msg) \o BE(2, k)
      msg  == TLCEval(IF Wants(q, "digest")
                      THEN With(CHOOSE k \in 0..4000 : MsgDigest(q.hf, r, root, q.idx, With(k))[q.at] = q.val \/ k = 4000)
                      ELSE F(q.msg))
      sig  == SignWith(seed, q.height, q.hf, q.w, q.idx, msg, root, auth)
  IN [msg |-> IF msg = << >> THEN "-" ELSE ToHex(msg), sig |-> ToHex(sig), w |-> q.w, tag |-> q.tag, height |-> q.height, idx |-> q.idx, hf |-> q.hf,
      pk |-> ToHex(Descriptor(q.hf, 0, q.height, q.fmt) \o root \o pub)]

\* An attempt to turn the signature on digest d into one on digest d2: every chain that can be
\* advanced is advanced to the position d2 asks for, the others are left alone.
Forged(q) ==
  LET seed == F(q.seed)
      d == F(q.d)   d2 == F(q.d2)
      auth == Nodes(F(q.auth))
      hf == q.hf
      r == PRF(hf, SkPrf(seed), BE(32, q.idx))
      leaf == Leaf(hf, q.w, SkSeed(seed), PubSeed(seed), q.idx)
      root == Climb(hf, leaf, q.idx, auth, 0, PubSeed(seed))
      p == TLCEval(Positions(d, q.w))   p2 == TLCEval(Positions(d2, q.w))
      at == TLCEval([k \in 1..Len(p) |-> IF p2[k] > p[k] THEN p2[k] ELSE p[k]])
      chains == WotsSignAt(hf, at, OtsSeed(hf, SkSeed(seed), q.idx), PubSeed(seed), q.idx)
  IN [msg |-> ToHex(F(q.prefix) \o Magic \o d2), sig |-> ToHex(BE(4, q.idx) \o r \o Flatten(chains) \o Flatten(auth)), w |-> q.w, tag |-> q.tag,
      dominated |-> \A k \in 1..Len(p) : p2[k] >= p[k],
      pk |-> ToHex(Descriptor(hf, 0, q.height, 0) \o root \o PubSeed(seed))]

Wallet(q) ==
  LET ext == ExtendedSeed(F(q.seed), q.height, q.hf, q.fmt)
  IN [seed |-> q.seed, height |-> q.height, hf |-> q.hf, fmt |-> q.fmt, ext |-> ToHex(ext),
      hextext |-> ToHex(HexText(ext, 0)), mn |-> ToHex(MnemonicText(ext))]
Addr(q) == [pk |-> q.pk, addr |-> IF HasAddress(F(q.pk)) THEN ToHex(AddressOf(F(q.pk))) ELSE "none"]
\* an address with a right checksum around any first 35 bytes
Addr35(q) == [addr |-> ToHex(F(q.b) \o Suffix(Sha256(F(q.b)), 4))]
Mn(q) == [b |-> q.b, t |-> ToHex(MnemonicText(F(q.b)))]

Case(q) == CASE q.k = "sig" -> Crafted(q)
             [] q.k = "forge" -> Forged(q)
             [] q.k = "wallet" -> Wallet(q)
             [] q.k = "addr" -> Addr(q)
             [] q.k = "addr35" -> Addr35(q)
             [] q.k = "mn" -> Mn(q)
ASSUME ndJsonSerialize(IOEnv.OUT, TLCEval([k \in 1..Len(In) |-> Case(In[k])]))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
