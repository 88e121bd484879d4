------------------------------ MODULE PoolTrace ------------------------------
(* Recorded histories of the real tree pool against Pool.tla: a history is     *)
(* allowed when its calls can be put in an order, each at one instant between  *)
(* its beginning and its end, that the abstract pool follows (linearizability, *)
(* decided by keeping the set of all abstract states the pool can be in), and  *)
(* every tree is the one Prim/Xmss derive for its index.                       *)
EXTENDS Xmss, Codec
Judge == IOEnv.JUDGE
On(p) == Judge = p \/ Judge = "ALL"
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Shards == T[1].shards
F(x) == FromHex(x)
Direct == IOEnv.DIRECT = "1"

VARIABLES shard, i, run, S, verdict
vars == << shard, i, run, S, verdict >>
NoPool == [p |-> "none"]
EmptyF == [x \in {} |-> 0]

\* ---------------------------------------------------- the trees of a pool --
RECURSIVE AddLE(_, _)
AddLE(b, n) == IF b = << >> THEN << >> ELSE << (b[1] + n) % 256 >> \o AddLE(Tail(b), (b[1] + n) \div 256)
RECURSIVE Trim(_)
Trim(b) == IF b # << >> /\ b[Len(b)] = 0 THEN Trim(Prefix(b, Len(b) - 1)) ELSE b
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN << >> ELSE Decimal(n \div 10)) \o << 48 + (n % 10) >>
HexChars(t) == [k \in 1..Len(t) |-> LET d == t[k] IN IF d < 10 THEN 48 + d ELSE 87 + d]
Nibbles(b) == [k \in 1..(2 * Len(b)) |-> IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[k \div 2] % 16]
SeedDef(r, k) ==
  IF r.rust THEN LET h == Sha256(HexChars(Nibbles(F(r.seed))) \o Decimal(r.start + k + 1)) IN h \o Prefix(h, 16)
  ELSE Shake256(48, F(r.seed) \o Trim(AddLE(F(r.startle), k + 1)))
SeedOf(r, k) == Memo(<< "poolseed", r.rust, r.seed, r.start, r.startle, k >>, SeedDef(r, k))
TreeOk(r, k, a) ==
  LET s == SeedOf(r, k) IN
  /\ a.seed = ToHex(s) /\ a.ext = ToHex(DescBytes(1, 0, r.height, 0) \o s) /\ a.idx = 0 /\ a.height = r.height
  /\ r.fake \/ ( /\ a.pk = ToHex(PublicKey(s, r.height, 1, 16, 0))
                 /\ "sk" \in DOMAIN a => a.sk = ToHex(SecretKey(s, r.height, 1, 16, 0))
                 /\ "sig" \in DOMAIN a => a.sig = ToHex(Signature(s, r.height, 1, 16, 0, << 112, 112, 112, 112 >>)) )

\* --------------------------------------------------------- abstract states --
\* run: the pool's fixed parameters, and what is known of its builds (opened gates, failed builds)
\* s.k: claims so far; s.pend: calls begun and not ended: [what, res, done, val]
NoRes == [kind |-> "none"]
Pend(e) == [what |-> e.what, res |-> IF "res" \in DOMAIN e THEN e.res ELSE NoRes, done |-> FALSE, val |-> -1]
\* can build number k be finished by now, as far as we know?
MayBeReady(r, k) == r.bad \/ ~r.closed \/ k \in r.opened
\* queries change nothing: they take effect as soon as their recorded answer is right (prophecy), and so do calls
\* whose index does not matter in this run
Now(r, s, c) ==
  LET x == c.res IN
  CASE c.what = "next" -> ~r.strict
    [] c.what = "cur" -> x.kind # "cur" \/ ~r.strict \/ x.cur = ToHex(AddLE(F(r.startle), s.k))
    [] c.what \in {"avail", "poll"} -> x.kind \notin {"avail", "poll"} \/ ~x.v \/ (r.size > 0 /\ (~r.strict \/ MayBeReady(r, s.k)))
    [] OTHER -> TRUE
Settle(r, s) == [s EXCEPT !.pend = TLCEval([t \in DOMAIN @ |-> IF ~@[t].done /\ Now(r, s, @[t]) THEN [@[t] EXCEPT !.done = TRUE] ELSE @[t]])]
\* a call takes the next index, if its recorded answer can be the tree or the error of that index
MayClaim(r, s, t) == LET c == s.pend[t] IN c.what = "next" /\ ~c.done /\ (c.res.kind = "tree" => c.res.seed = ToHex(SeedOf(r, s.k)))
Claim(r, s, t) == Settle(r, [k |-> s.k + 1, pend |-> [s.pend EXCEPT ![t].done = TRUE, ![t].val = s.k]])
Step1(r, Q) == UNION {{Claim(r, s, t) : t \in {x \in DOMAIN s.pend : MayClaim(r, s, x)}} : s \in Q}
RECURSIVE Closure(_, _, _)
Closure(r, All, New) == IF New = {} THEN All ELSE LET N == TLCEval(Step1(r, New) \ All) IN Closure(r, All \cup N, N)
Close(r, Q) == LET q == TLCEval({Settle(r, s) : s \in Q}) IN Closure(r, q, q)
Put(f, k, v) == (k :> v) @@ f
Rem(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Begin(Q, e) == {[s EXCEPT !.pend = Put(@, e.t, Pend(e))] : s \in Q}
\* what the answer itself has to satisfy, given the index claimed
AnswerOk(r, e, k) ==
  LET a == e.a IN
  CASE e.what = "next" ->
         /\ a.kind \in {"tree", "error"}
         /\ a.kind = "tree" => ((On("C07") => TreeOk(r, k, a)) /\ ~r.bad /\ k \notin r.failed)
         /\ a.kind = "error" => r.bad \/ k \in r.failed
    [] e.what = "cur" -> a.kind = "cur"
    [] e.what = "avail" -> a.kind = "avail"
    [] e.what = "lag" -> a.kind = "lag" /\ (On("C08") => ~a.slow)         \* queries never wait
    [] e.what = "poll" -> a.kind = "poll" /\ (On("C08") => a.v = (r.size > 0))
    [] e.what = "free" -> a.kind = "free" /\ (On("C08") => a.inside = 0)
    [] OTHER -> FALSE
End(r, Q, e) == {[s EXCEPT !.pend = Rem(@, e.t)] : s \in {q \in Q : e.t \in DOMAIN q.pend /\ q.pend[e.t].done /\ AnswerOk(r, e, q.pend[e.t].val)}}

\* ------------------------------------------------------------------ events --
Fatal == {"crash", "hang", "panic"}
Fresh(e) == [p |-> e.p, rust |-> e.impl = "rust", seed |-> e.seed, height |-> e.height, start |-> e.start, startle |-> e.a.startle, size |-> e.size,
             closed |-> e.a.closed, fake |-> e.a.fake, bad |-> ~HeightOk(e.height), opened |-> {}, failed |-> {},
             strict |-> On("C07") \/ e.strict \/ e.a.closed]       \* does it matter which index a tree belongs to?
Start0 == {[k |-> 0, pend |-> EmptyF]}
Live == run.p # "none"
\* calls made one after the other (Rust, whose pool is used by one thread at a time)
SeqEv(e, what, a) == [op |-> e.op, t |-> 0, what |-> what, res |-> a, a |-> a]
SeqCall(e, what, a) == LET ev == TLCEval(SeqEv(e, what, a)) IN End(run, Close(run, Begin(S, ev)), ev)
After(e) ==
  CASE e.op = "pb" -> IF Live THEN Close(run, Begin(S, e)) ELSE S
    [] e.op = "pe" -> IF Live THEN Close(run, End(run, S, e)) ELSE S
    [] e.op \in {"pnext", "pcur", "pavail", "pfree"} -> IF Live THEN SeqCall(e, e.a.what, e.a) ELSE S
    [] e.op = "gopen" -> Close([run EXCEPT !.opened = @ \cup (IF e.k = -1 THEN 0..200 ELSE {e.k})], S)
    [] OTHER -> S
RunAfter(e) ==
  CASE e.op = "pnew" -> IF e.a.done THEN Fresh(e) ELSE NoPool
    [] e.op = "gopen" -> [run EXCEPT !.opened = @ \cup (IF e.k = -1 THEN 0..200 ELSE {e.k})]
    [] e.op = "gfail" -> [run EXCEPT !.failed = @ \cup {e.k}]
    [] e.op = "pe" -> IF e.what = "free" THEN NoPool ELSE run
    [] e.op = "pfree" -> NoPool
    [] OTHER -> run
Allowed(e, next) ==
  /\ e.a.r \notin Fatal
  /\ ~("stuck" \in DOMAIN e.a /\ e.a.stuck)
  /\ e.op = "pnew" => e.a.done
  /\ next # {}
Init == /\ shard \in 1..Len(Shards) /\ i = Shards[shard][1]
        /\ run = NoPool /\ S = Start0 /\ verdict = "ok"
Step == /\ verdict = "ok" /\ i <= Shards[shard][2]
        /\ LET e == T[i]  fatal == e.a.r \in Fatal
               next == IF fatal THEN {} ELSE IF e.op = "pnew" THEN Start0 ELSE After(e)
           IN IF Allowed(e, next)
              THEN i' = i + 1 /\ run' = (IF e.op \in {"gopen", "gfail"} /\ ~Live THEN run ELSE RunAfter(e)) /\ S' = (IF RunAfter(e).p = "none" THEN Start0 ELSE next) /\ verdict' = "ok"
              ELSE i' = i /\ run' = run /\ S' = S /\ verdict' = "rejected"
        /\ shard' = shard
Spec == Init /\ [][Step]_vars
Accepted == verdict = "ok"
\* of a rejected trace only the place is printed: the state grows with the trace
Where == [shard |-> shard, i |-> i]
=============================================================================
