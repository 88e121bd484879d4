-------------------------------- MODULE Trace --------------------------------
(* Trace validation.  The trace file holds several independent runs (shards)   *)
(* of the real library, one event per public call with its arguments and its   *)
(* answer (field a).  A behaviour of this specification consumes one shard;    *)
(* a call whose answer the specification does not allow leads to "rejected".   *)
(* Judge selects which property's clauses are applied ("ALL": all of them).    *)
EXTENDS Xmss, Codec, Signer, Pq, Js

Judge == IOEnv.JUDGE
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Shards == T[1].shards
Direct == IOEnv.DIRECT = "1"
Toy == IOEnv.TOY = "1"                       \* a toy hash is in use: byte values are not judged

VARIABLES shard, i, st, verdict
vars == << shard, i, st, verdict >>

On(p) == Judge = p \/ Judge = "ALL"
OnJ(p, e) == On(p) \/ (On("C18") /\ e.impl \in {"jsq", "jsqasan"})  \* the bindings answer like the core library
F(x) == FromHex(x)
EmptyF == [x \in {} |-> 0]
\* s: handle -> signer; used: handle -> indices signed; hist: key -> number of the first event with that key;
\* pairs: secret key -> public key; signed: signed messages; enc: <<public key, ciphertext>> -> shared key
Empty == [s |-> EmptyF, used |-> EmptyF, hist |-> EmptyF, pairs |-> EmptyF, signed |-> {}, enc |-> EmptyF, o |-> EmptyF]
Put(f, k, v) == (k :> v) @@ f
Rem(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]

Fatal == {"crash", "hang", "panic"}
Ok(e) == e.a.r = "ok"
Err(e) == e.a.r = "err"

\* the same key always has the same value as in its first event
HistOk(key, n, val(_)) == key \notin DOMAIN st.hist \/ val(T[st.hist[key]]) = val(T[n])
Note(h, key, n) == IF key \in DOMAIN h THEN h ELSE Put(h, key, n)

\* ---------------------------------------------------------------- signers --
Known(e) == e.h \in DOMAIN st.s
S(e) == st.s[e.h]
KeyOf(s) == << s.seed, s.h, s.hf, s.w >>
WOk(w) == w \in {4, 16, 256}
NewOk(e) == Len(F(e.seed)) = 48 /\ HeightOk(e.height) /\ e.hf \in HashFunctions

\* facts: what a signer tells about itself; s is the abstract signer
PkOf(ev) == << ev.a.pk >>
FactsOk(e, s) ==
  /\ On("C01") => e.a.idx = s.idx /\ e.a.rem = Remaining(s) /\ e.a.nsig = Keys(s.h)
  /\ On("C20") => e.a.rem = Remaining(s) /\ SubSeq(F(e.a.sk), 1, 4) = BE(4, s.idx)
  /\ (On("C19") \/ On("C20")) => e.a.idx = s.idx /\ HistOk(<< "keys", KeyOf(s), s.fmt >>, i, LAMBDA ev : << ev.a.pk, SubSeq(ev.a.sk, 9, 264), ev.a.addr, ev.a.ext, ev.a.desc, ev.a.sigsz, ev.a.height >>)
  /\ (On("C02") \/ On("C09")) => e.a.height = s.h
  /\ On("C02") => /\ e.a.sigsz = SignatureSize(s.h, s.w) /\ e.a.sksz = 132 /\ e.a.pksz = 67
                  /\ Len(F(e.a.pk)) = 67 /\ Len(F(e.a.sk)) = 132
  /\ On("C09") => /\ e.a.desc = ToHex(DescBytes(s.hf, 0, s.h, s.fmt))
                  /\ e.a.ext = ToHex(DescBytes(s.hf, 0, s.h, s.fmt) \o F(s.seed))
                  /\ e.a.seed0 = s.seed
                  /\ e.a.dhf = s.hf /\ e.a.dst = 0 /\ e.a.dh = s.h /\ e.a.dfmt = s.fmt
                  /\ SubSeq(F(e.a.pk), 1, 3) = DescBytes(s.hf, 0, s.h, s.fmt)
                  /\ HistOk(<< "keys", KeyOf(s), s.fmt >>, i, LAMBDA ev : << ev.a.pk, SubSeq(ev.a.sk, 9, 264), ev.a.addr, ev.a.root >>)
  /\ On("C10") => IF s.fmt = 0 THEN e.a.addr = ToHex(AddressOf(F(e.a.pk))) ELSE e.a.addr = "none"
  /\ (On("C04") /\ ~Toy) =>
       /\ e.a.sk = ToHex(SecretKey(F(s.seed), s.h, s.hf, s.w, s.idx))
       /\ e.a.pk = ToHex(PublicKey(F(s.seed), s.h, s.hf, s.w, s.fmt))
       /\ e.a.root = ToHex(Root(F(s.seed), s.h, s.hf, s.w))
       /\ e.a.pkseed = ToHex(PubSeed(F(s.seed)))
       /\ e.a.skseed = ToHex(SkSeed(F(s.seed)))
       /\ e.a.skprf = ToHex(SkPrf(F(s.seed)))
  /\ (On("C04") /\ Toy) => HistOk(<< "keys", KeyOf(s) >>, i, LAMBDA ev : << ev.a.root, ev.a.pkseed, ev.a.skseed, ev.a.skprf >>)
Inok(e) == (On("C19") \/ On("C13") \/ On("C15") \/ On("C03")) => ("inok" \in DOMAIN e.a => e.a.inok)

NewSigner(kind, seed, h, hf, fmt, w) ==
  [kind |-> kind, seed |-> seed, h |-> h, hf |-> hf, fmt |-> fmt, w |-> w, idx |-> 0]
NoteKeys(s) == Note(Note(st.hist, << "keys", KeyOf(s), s.fmt >>, i), << "keys", KeyOf(s) >>, i)
Fresh(e, s) == [st EXCEPT !.s = Put(@, e.h, [s EXCEPT !.idx = e.a.idx]), !.used = Put(@, e.h, {}), !.hist = NoteKeys(s)]

NewS(e) == NewSigner(e.kind, e.seed, e.height, e.hf, e.fmt, e.w)
NewAllowed(e) ==
  IF NewOk(e) THEN IF Ok(e) THEN FactsOk(e, NewS(e)) /\ Inok(e)
                            ELSE ~(On("C02") \/ On("C04") \/ On("C09") \/ On("C01") \/ On("C20"))
  ELSE (On("C09") \/ On("C02")) => Err(e)
NewAfter(e) == IF Ok(e) /\ NewOk(e) THEN Fresh(e, NewS(e)) ELSE st

\* from an extended seed, also in text form
ExtBytes(e) == CASE e.op = "xext" -> F(e.ext)
                 [] e.op = "xexthex" -> LET t == F(e.ext) IN IF IsHexText(t) THEN TLCEval(UnHexText(t)) ELSE << >>
                 [] OTHER -> LET t == F(e.ext) IN IF IsMnemonic(t) THEN TLCEval(UnMnemonic(t)) ELSE << >>
ExtOk(b) == Len(b) = 51 /\ DescOk(SubSeq(b, 1, 3)) /\ HeightOk(DescHeight(b))
ExtUnjudged(b) == Len(b) = 51 /\ b[3] # 0
\* an address format without addresses may be refused; what is accepted is the whole wallet
ExtRefusable(b) == Len(b) = 51 /\ DescFmt(b) # 0
ExtS(b) == NewSigner("fast", ToHex(SubSeq(b, 4, 51)), DescHeight(b), DescHf(b), DescFmt(b), 16)
ExtAllowed(e) == LET b == TLCEval(ExtBytes(e)) IN
  IF ExtOk(b) THEN \/ ExtUnjudged(b)
                   \/ IF Ok(e) THEN FactsOk(e, ExtS(b)) /\ Inok(e) ELSE (ExtRefusable(b) \/ ~(On("C09") \/ On("C20")))
  ELSE On("C09") => Err(e)
ExtAfter(e) == LET b == TLCEval(ExtBytes(e)) IN IF Ok(e) /\ ExtOk(b) /\ ~ExtUnjudged(b) THEN Fresh(e, ExtS(b)) ELSE st

\* a backup: the extended seed as bytes and as text; a signer rebuilt from it is a new one with the default parameter
BO(b) == << "backup", b >>
BakAllowed(e) == (On("C20") /\ e.src \in DOMAIN st.s) =>
  LET s == st.s[e.src]  b == DescBytes(s.hf, 0, s.h, s.fmt) \o F(s.seed) IN
  Ok(e) /\ F(e.a.ext) = b /\ F(e.a.hext) = HexText(b, 0) /\ F(e.a.mn) = MnemonicText(b)
BakAfter(e) == IF Ok(e) /\ e.src \in DOMAIN st.s THEN [st EXCEPT !.o = Put(@, BO(e.b), [st.s[e.src] EXCEPT !.kind = "fast", !.w = 16, !.idx = 0])] ELSE st
ResAllowed(e) == BO(e.b) \in DOMAIN st.o =>
  LET s == st.o[BO(e.b)] IN IF Ok(e) THEN FactsOk(e, s) ELSE (s.fmt # 0 \/ ~(On("C09") \/ On("C20")))
ResAfter(e) == IF Ok(e) /\ BO(e.b) \in DOMAIN st.o THEN Fresh(e, st.o[BO(e.b)]) ELSE st

InitS(e) == [S(e) EXCEPT !.w = e.w, !.idx = 0]
InitAllowed(e) == Known(e) => IF Ok(e) THEN FactsOk(e, InitS(e)) ELSE ~(On("C02") \/ On("C04"))
InitAfter(e) == IF Ok(e) /\ Known(e) THEN Fresh(e, InitS(e)) ELSE st

GetAllowed(e) == (Known(e) /\ e.w = S(e).w) => Ok(e) /\ FactsOk(e, S(e))

Track(e, s) == [st EXCEPT !.s = Put(@, e.h, s)]
IdxAllowed(e) == Known(e) => Ok(e) /\ (On("C01") => e.a.idx = S(e).idx /\ (e.a.idx <= Keys(S(e).h) => e.a.rem = Keys(S(e).h) - e.a.idx))

\* copies and moves keep the whole abstract state; the source of a copy is unaffected
HasSrc(e) == e.src \in DOMAIN st.s
\* functions of their arguments: the same call always has the same answer (C19)
PureOps == {"verify", "hfs", "basesz", "dbytes", "dext", "dpk", "dmake", "addr", "addrok", "hex", "hexs", "unhex", "str2bin", "mn", "unmn",
            "shake128", "shake256", "sha2", "sha2n", "hcs"}
PureKey(e) == << "pure", [f \in DOMAIN e \ {"a", "impl"} |-> e[f]] >>
PureAllowed(e) == On("C19") => Inok(e) /\ HistOk(PureKey(e), i, LAMBDA ev : ev.a)
\* values returned earlier are still what they were; concurrent uses of the same (constant) arguments agree
HoldAllowed(e) == On("C19") => Ok(e) /\ e.a.held
\* xhold signs twice with e.h and once with e.g
HoldAfter(e) ==
  IF ~Ok(e) \/ e.op # "xhold" THEN st
  ELSE LET put(s, h, n) == IF h \in DOMAIN s THEN Put(s, h, [s[h] EXCEPT !.idx = n]) ELSE s
       IN [st EXCEPT !.s = put(put(@, e.h, e.a.idx), e.g, e.a.idx2)]

CopyAllowed(e) == HasSrc(e) => Ok(e) /\ ((On("C01") \/ On("C19")) => e.a.idx = st.s[e.src].idx)
                                    /\ ((On("C09") \/ On("C19")) => HistOk(<< "keys", KeyOf(st.s[e.src]), st.s[e.src].fmt >>, i, PkOf))
CopyAfter(e) == IF ~(Ok(e) /\ HasSrc(e)) THEN st
                ELSE LET s1 == [st EXCEPT !.s = Put(@, e.h, st.s[e.src]), !.used = Put(@, e.h, st.used[e.src])]
                     IN IF e.op = "xmove" THEN [s1 EXCEPT !.s = Rem(@, e.src), !.used = Rem(@, e.src)] ELSE s1

\* exchanging two objects exchanges everything about them
SwapAfter(e) == IF ~(Ok(e) /\ HasSrc(e) /\ Known(e)) THEN st
                ELSE [st EXCEPT !.s[e.h] = st.s[e.src], !.s[e.src] = st.s[e.h], !.used[e.h] = st.used[e.src], !.used[e.src] = st.used[e.h]]

SetAllowed(e) == Known(e) =>
  /\ Ok(e)
  /\ LET s == S(e)
         o == SetIndexOutcome(s, e.n)
     IN IF s.idx > Keys(s.h) THEN TRUE                   \* the basic signer was put out of range: nothing is promised
        ELSE /\ On("C01") => /\ e.a.pre = s.idx
                             /\ IF s.kind = "fast" \/ o.done
                                THEN /\ e.a.done = o.done /\ e.a.idx = o.idx /\ e.a.rem = Keys(s.h) - o.idx
                                     /\ o.done => e.a.ret = e.n
                                ELSE e.a.idx \in {s.idx, e.n}
             /\ ((On("C19") \/ On("C20")) /\ s.kind = "fast") => e.a.pre = s.idx /\ e.a.idx = o.idx
             /\ (On("C20") /\ s.kind = "fast") => e.a.done = o.done
             /\ (On("C05") /\ s.kind = "fast" /\ e.n = s.idx /\ e.n < Keys(s.h)) => e.a.idx = s.idx
SetAfter(e) == IF Known(e) /\ Ok(e) THEN Track(e, [S(e) EXCEPT !.idx = e.a.idx]) ELSE st

SigKey(s, idx, msg) == << "sig", KeyOf(s), idx, msg >>
SigOf(ev) == << ev.a.sig >>
\* chain positions revealed by a signature: chain j shows the value at position p
ChainAt(s, idx, j, p) == Chain(s.hf, OtsSecret(s.hf, OtsSeed(s.hf, SkSeed(F(s.seed)), idx), j), 0, p, PubSeed(F(s.seed)), [OtsAddr(idx) EXCEPT ![6] = j])
PositionsOk(s, sig, msg) ==
  LET d == MsgDigest(s.hf, Slice(sig, 4, 32), Root(F(s.seed), s.h, s.hf, s.w), s.idx, msg)
      pos == TLCEval(Positions(d, s.w))
  IN \A j \in 1..WLen(s.w) : ChainAt(s, s.idx, j - 1, pos[j]) = Slice(sig, 36 + 32 * (j - 1), 32)
SigIdx(sig) == BEVal(Slice(sig, 0, 4))
InRange(s) == s.idx < Keys(s.h)

SignAllowed(e) == Known(e) =>
  /\ Ok(e)
  /\ LET s == S(e) IN
     IF s.idx > Keys(s.h) THEN On("C01") => ~e.a.done
     ELSE
     /\ On("C01") =>
          LET o == SignOutcome(s) IN
          /\ e.a.pre = s.idx /\ e.a.done = o.done /\ e.a.idx = o.idx /\ e.a.rem = Keys(s.h) - o.idx
          /\ e.a.done => /\ SubSeq(F(e.a.sig), 1, 4) = BE(4, s.idx)
                         /\ s.kind = "fast" => s.idx \notin st.used[e.h]
     /\ (On("C02") /\ InRange(s)) =>
          /\ e.a.done
          /\ Len(F(e.a.sig)) = SignatureSize(s.h, s.w)
          /\ (e.w = s.w) => e.a.ver /\ e.a.siglen = e.a.sigsz /\ e.a.siglen = SignatureSize(s.h, s.w)
                            /\ e.a.hfs = s.h /\ e.a.height = s.h
     /\ (On("C04") /\ ~Toy /\ e.a.done /\ InRange(s)) => F(e.a.sig) = Signature(F(s.seed), s.h, s.hf, s.w, s.idx, F(e.msg))
     /\ On("C20") => LET o == SignOutcome(s) IN
          /\ e.a.pre = s.idx /\ e.a.done = o.done /\ e.a.idx = o.idx
          /\ e.a.done => SubSeq(F(e.a.sig), 1, 4) = BE(4, s.idx) /\ Len(F(e.a.sig)) = SignatureSize(s.h, s.w) /\ (e.w = s.w => e.a.ver)
     /\ ((On("C05") \/ On("C01") \/ On("C09") \/ On("C04") \/ On("C19") \/ On("C20")) /\ InRange(s)) =>
          ((On("C05") \/ On("C09") \/ On("C19")) => e.a.done) /\ (e.a.done => HistOk(SigKey(s, s.idx, e.msg), i, SigOf))
     /\ (On("C06") /\ ~Toy /\ e.a.done /\ InRange(s)) =>
          Len(F(e.a.sig)) = SignatureSize(s.h, s.w) /\ PositionsOk(s, F(e.a.sig), F(e.msg)) /\ (e.w = s.w => e.a.ver)
     /\ On("C19") => e.a.inok /\ e.a.pre = s.idx /\ (InRange(s) => e.a.idx = s.idx + 1)
SignAfter(e) == IF ~(Known(e) /\ Ok(e)) THEN st
  ELSE LET s == S(e)
           t == Track(e, [s EXCEPT !.idx = e.a.idx])
       IN IF e.a.done THEN [t EXCEPT !.used = Put(@, e.h, @[e.h] \cup {s.idx}), !.hist = Note(@, SigKey(s, s.idx, e.msg), i)] ELSE t

BigAllowed(e) ==
  (Known(e) /\ InRange(S(e)) /\ e.w = S(e).w) =>
  LET s == S(e) IN
     /\ Ok(e)
     /\ e.a.done
     /\ (On("C02") \/ On("C03")) => e.a.ver
     /\ On("C02") => e.a.siglen = SignatureSize(s.h, s.w) /\ e.a.hfs = s.h
     /\ On("C03") => ~e.a.ver2 /\ ~e.a.ver3
     /\ On("C19") => e.a.inok
     /\ On("C01") => e.a.pre = s.idx /\ e.a.idx = s.idx + 1
     /\ (On("C05") \/ On("C04")) => HistOk(<< "big", KeyOf(s), s.idx, e.n, e.tag >>, i, SigOf)
BigAfter(e) == IF Known(e) /\ Ok(e) THEN [Track(e, [S(e) EXCEPT !.idx = e.a.idx]) EXCEPT !.hist = Note(@, << "big", KeyOf(S(e)), S(e).idx, e.n, e.tag >>, i)] ELSE st

\* a stretch of consecutive signatures, each verified on the spot
WalkAllowed(e) == Known(e) =>
  /\ Ok(e)
  /\ e.a.pre = S(e).idx
  /\ (On("C02") \/ On("C05")) => e.a.bad = 0
  /\ On("C01") => e.a.idx = e.to
WalkAfter(e) == IF Known(e) /\ Ok(e) THEN Track(e, [S(e) EXCEPT !.idx = e.a.idx]) ELSE st

\* ----------------------------------------------------------- verification --
\* (an unsupported address format and the unused third descriptor byte are nobody's promise: only "accepted
\* implies valid" is judged there.  Indices beyond the tree are never valid.)
VerifyRight(msg, sig, pk, w, v) ==
  WOk(w) => LET a == Accepts(msg, sig, pk, w) IN
            IF WellFormed(sig, pk, w) /\ (PkFmt(pk) # 0 \/ pk[3] # 0) THEN v => a ELSE v = a
VerifyAllowed(e) ==
  /\ Ok(e)
  /\ (On("C03") \/ On("C19")) => e.a.same /\ e.a.inok
  /\ ((On("C03") \/ On("C06")) /\ ~Toy) =>
       LET sig == TLCEval(F(e.sig))  pk == TLCEval(F(e.pk))  msg == TLCEval(F(e.msg)) IN
       VerifyRight(msg, sig, pk, e.w, e.a.v)
  \* signatures known to come from a signer, and known not to (toy hash, cross-implementation)
  /\ (e.expect = "yes" /\ (On("C02") \/ On("C03"))) => e.a.v
  /\ (e.expect = "no" /\ On("C03")) => ~e.a.v
HfsAllowed(e) == (On("C02") /\ WOk(e.w)) =>
    LET base == 36 + 32 * WLen(e.w) IN
    IF e.size < base \/ (e.size - base) % 32 # 0 THEN Err(e)
    ELSE ((e.size - base) \div 32 < 256) => (Ok(e) /\ e.a.h = (e.size - base) \div 32)
BaseAllowed(e) == (On("C02") /\ WOk(e.w)) => Ok(e) /\ e.a.n = 36 + 32 * WLen(e.w)

\* ------------------------------------------------------------ descriptors --
DescAnswer(e, d) == e.a.hf = DescHf(d) /\ e.a.st = DescSt(d) /\ e.a.h = DescHeight(d) /\ e.a.fmt = DescFmt(d)
                    /\ (d[3] = 0 => e.a.bytes = ToHex(d))
DescAllowed(e) == LET b == F(e.b) IN
  On("C09") =>
    CASE e.op = "dbytes" -> IF DescOk(b) THEN (IF DescFmt(b) = 0 \/ Ok(e) THEN Ok(e) /\ DescAnswer(e, b) ELSE TRUE) ELSE Err(e)
      [] e.op = "dext" -> IF Len(b) = 51 /\ DescOk(SubSeq(b, 1, 3)) THEN (IF DescFmt(b) = 0 \/ Ok(e) THEN Ok(e) /\ DescAnswer(e, SubSeq(b, 1, 3)) ELSE TRUE) ELSE Err(e)
      [] OTHER -> IF Len(b) = 67 /\ DescOk(SubSeq(b, 1, 3)) THEN (IF DescFmt(b) = 0 \/ Ok(e) THEN Ok(e) /\ DescAnswer(e, SubSeq(b, 1, 3)) ELSE TRUE) ELSE Err(e)
MakeAllowed(e) == (On("C09") /\ e.hf \in 0..2 /\ e.st = 0 /\ e.height % 2 = 0 /\ e.height <= 30 /\ e.fmt < 16) =>
  Ok(e) /\ e.a.hf = e.hf /\ e.a.st = 0 /\ e.a.h = e.height /\ e.a.fmt = e.fmt
  /\ e.a.bytes = ToHex(DescBytes(e.hf, e.st, e.height, e.fmt))

\* --------------------------------------------------------------- addresses --
AddrAllowed(e) == LET pk == F(e.pk) IN On("C10") =>
  IF HasAddress(pk) THEN Ok(e) /\ e.a.inok /\ (pk[3] = 0 => e.a.a = ToHex(AddressOf(pk))) ELSE Err(e)
AddrOkAllowed(e) == On("C10") => Ok(e) /\ e.a.inok /\ e.a.v = AddressValid(F(e.addr))

\* ------------------------------------------------------------- text codecs --
HexAllowed(e) == OnJ("C12", e) => Ok(e) /\ e.a.inok /\ F(e.a.t) = HexText(F(e.b), e.wrap)
UnhexAllowed(e) == OnJ("C12", e) => LET t == F(e.t) IN IF IsHexText(t) THEN Ok(e) /\ F(e.a.b) = UnHexText(t) ELSE Err(e)
Str2binAllowed(e) == OnJ("C12", e) => Ok(e) /\ e.a.b = e.t
MnAllowed(e) == OnJ("C11", e) => LET b == F(e.b) IN
  IF Len(b) % 3 = 0 THEN Ok(e) /\ e.a.inok /\ F(e.a.t) = MnemonicText(b) ELSE Err(e)
\* Unicode's further white space (UTF-8) may separate words, or make the text refused; nothing else outside ASCII is accepted
UniSpace(t, k) == LET at(j) == IF k + j <= Len(t) THEN t[k + j] ELSE 0 IN
  IF at(0) = 194 /\ at(1) \in {133, 160} THEN 2
  ELSE IF \/ at(0) = 225 /\ at(1) = 154 /\ at(2) = 128
          \/ at(0) = 226 /\ at(1) = 128 /\ (at(2) \in 128..138 \/ at(2) \in {168, 169, 175})
          \/ at(0) = 226 /\ at(1) = 129 /\ at(2) = 159
          \/ at(0) = 227 /\ at(1) = 128 /\ at(2) = 128 THEN 3 ELSE 0
RECURSIVE PlainSpacesFrom(_, _)
PlainSpacesFrom(t, k) == IF k > Len(t) THEN << >> ELSE LET n == UniSpace(t, k) IN
  IF n > 0 THEN <<32>> \o PlainSpacesFrom(t, k + n) ELSE <<t[k]>> \o PlainSpacesFrom(t, k + 1)
PlainSpaces(t) == PlainSpacesFrom(t, 1)
Ascii(t) == \A k \in 1..Len(t) : t[k] < 128
UnmnAllowed(e) == OnJ("C11", e) => LET t == F(e.t) IN
  IF Ascii(t) THEN (IF IsMnemonic(t) THEN Ok(e) /\ F(e.a.b) = UnMnemonic(t) ELSE Err(e))
  ELSE LET u == TLCEval(PlainSpaces(t)) IN Err(e) \/ (Ascii(u) /\ IsMnemonic(u) /\ Ok(e) /\ F(e.a.b) = UnMnemonic(u))

\* ------------------------------------------------------------------ hashes --
HashAllowed(e) == OnJ("C13", e) => LET b == F(e.b) IN
  CASE e.op = "shake128" -> Ok(e) /\ e.a.inok /\ F(e.a.d) = Shake128(e.n, b)
    [] e.op = "shake256" -> Ok(e) /\ e.a.inok /\ F(e.a.d) = Shake256(e.n, b)
    [] e.op = "sha2" -> Ok(e) /\ e.a.inok /\ F(e.a.d) = Sha256(b)
    [] OTHER -> IF e.n = 0 THEN Err(e) ELSE Ok(e) /\ e.a.inok /\ F(e.a.d) = Sha256N(b, e.n)
HcsAllowed(e) == On("C15") => LET seed == F(e.seed) IN
  /\ Ok(e) /\ e.a.inok /\ Len(e.a.seeds) = e.n
  /\ \A k \in 1..e.n : F(e.a.seeds[k]) = HashChainSeed(seed, F(e.shiftle), k - 1)

\* of a long list only the elements at some positions are recorded
HcsAtAllowed(e) == On("C15") => LET seed == F(e.seed) IN
  /\ Ok(e) /\ e.a.inok /\ e.a.count = e.n
  /\ \A k \in 1..Len(e.at) : F(e.a.seeds[k]) = HashChainSeed(seed, F(e.shiftle), e.at[k])

\* -------------------------------------------------------------- random seeds --
\* taken: the first n bytes the source handed out during the call; fault: how the source behaved
\* ("none", "open", or chunk sizes, ending with .eof / .err if it gave up before n bytes were out)
SourceGivesUp(f) == f = "open" \/ f = "fail" \/ (Len(f) > 4 /\ SubSeq(f, Len(f) - 3, Len(f)) \in {".eof", ".err"})
RngAllowed(e) == On("C14") =>
  /\ Ok(e)
  /\ IF SourceGivesUp(e.fault) THEN (~e.a.done \/ (e.n = 0 /\ e.a.b = "-"))   \* no bytes asked for, none needed
     ELSE e.a.done /\ Len(F(e.a.taken)) >= e.n /\ F(e.a.b) = Shake256(e.n, Prefix(F(e.a.taken), e.n) \o F(e.entropy))
\* the browser version; cls: "pos" (a positive integer e.n), "def" (no size given: 48), "bad" (anything else)
AllZero(b) == \A k \in 1..Len(b) : b[k] = 0
JsRngAllowed(e) == On("C14") =>
  /\ Ok(e)
  /\ LET n == IF e.cls = "def" THEN 48 ELSE e.n
         b == IF e.a.done THEN F(e.a.b) ELSE << >>
         t == F(e.a.taken)
     IN /\ e.a.done => e.cls # "bad" /\ e.fault = "none" /\ Len(b) = n /\ b = t /\ (n >= 16 => ~AllZero(b))
        /\ (e.cls # "bad" /\ e.fault = "none" /\ e.where = "global" /\ n <= 65536 /\ ~(n >= 16 /\ Len(t) = n /\ AllZero(t))) => e.a.done

\* ------------------------------------------------------ Dilithium and Kyber --
HLen(t) == IF t = "-" THEN 0 ELSE Len(t) \div 2
HCut(t, k) == IF k = 0 THEN "-" ELSE SubSeq(t, 1, 2 * k)                  \* first k bytes
HFrom(t, k) == IF k >= HLen(t) THEN "-" ELSE SubSeq(t, 2 * k + 1, Len(t)) \* without the first k bytes
Rusty(e) == e.impl = "rust"
DilSize(e) == IF Rusty(e) THEN [pk |-> 2592, sk |-> 4864, sig |-> 4595] ELSE [pk |-> 1472, sk |-> 3504, sig |-> 2701]
KemSize(e) == IF Rusty(e) THEN [pk |-> 1184, sk |-> 2400, ct |-> 1088, key |-> 32] ELSE [pk |-> 1088, sk |-> 2400, ct |-> 1152, key |-> 32]
Raws(e) == "pkraw" \in DOMAIN e.a => e.a.pkraw = e.a.pk /\ e.a.skraw = e.a.sk
DO(h) == << "d", h >>
KO(h) == << "k", h >>
FO(w) == << "fault", w >>
HasO(k) == k \in DOMAIN st.o
PutO(k, v) == [st EXCEPT !.o = Put(@, k, v)]
NewPair(s, pk, sk) == [s EXCEPT !.pairs = IF sk \in DOMAIN @ THEN @ ELSE Put(@, sk, pk)]
FreshPair(e) == e.a.sk \notin DOMAIN st.pairs /\ \A x \in DOMAIN st.pairs : st.pairs[x] # e.a.pk
DilFacts(e, o) == /\ e.a.pk = o.pk /\ e.a.sk = o.sk /\ Raws(e)
                  /\ e.a.pksz = DilSize(e).pk /\ e.a.sksz = DilSize(e).sk
DilAllowed(e) == On("C16") =>
  CASE e.op = "dnew" -> /\ Ok(e) /\ HLen(e.a.pk) = DilSize(e).pk /\ HLen(e.a.sk) = DilSize(e).sk
                        /\ FreshPair(e) /\ DilFacts(e, [pk |-> e.a.pk, sk |-> e.a.sk])
    [] e.op = "dfrom" -> /\ Ok(e) /\ e.a.inok
                         /\ e.a.done <=> (HLen(e.pk) = DilSize(e).pk /\ HLen(e.sk) = DilSize(e).sk)
                         /\ e.a.done => DilFacts(e, [pk |-> e.pk, sk |-> e.sk])
    [] e.op = "dget" -> HasO(DO(e.h)) => Ok(e) /\ DilFacts(e, st.o[DO(e.h)])
    [] e.op = "dcopy" -> HasO(DO(e.src)) => Ok(e) /\ DilFacts(e, st.o[DO(e.src)])
    [] e.op = "dsign" -> HasO(DO(e.h)) => /\ Ok(e) /\ e.a.inok /\ HLen(e.a.sm) = DilSize(e).sig + HLen(e.msg)
                                          /\ HFrom(e.a.sm, DilSize(e).sig) = e.msg
    [] e.op = "dopen" -> /\ Ok(e) /\ e.a.inok /\ e.a.v = Opens(st.signed, e.pk, e.sm)
                         /\ e.a.v => LET m == HFrom(e.sm, DilSize(e).sig) IN
                                     IF Rusty(e) THEN e.a.m = m ELSE HLen(e.a.m) >= HLen(m) /\ HCut(e.a.m, HLen(m)) = m
                         \* what the output buffer held before makes no difference
                         /\ "v2" \in DOMAIN e.a => /\ e.a.v2 = e.a.v /\ HLen(e.a.m2) = HLen(e.a.m)
                                                   /\ e.a.v => HCut(e.a.m2, HLen(HFrom(e.sm, DilSize(e).sig))) = HFrom(e.sm, DilSize(e).sig)
    [] OTHER -> /\ Ok(e) /\ e.a.inok
                /\ e.a.done <=> HLen(e.sm) >= DilSize(e).sig
                /\ e.a.done => e.a.b = IF e.op = "dmsg" THEN HFrom(e.sm, DilSize(e).sig) ELSE HCut(e.sm, DilSize(e).sig)
DilAfter(e) ==
  CASE e.op = "dnew" /\ Ok(e) -> NewPair(PutO(DO(e.h), [pk |-> e.a.pk, sk |-> e.a.sk]), e.a.pk, e.a.sk)
    [] e.op = "dfrom" /\ Ok(e) -> IF e.a.done THEN PutO(DO(e.h), [pk |-> e.pk, sk |-> e.sk]) ELSE st
    [] e.op = "dcopy" /\ Ok(e) -> IF HasO(DO(e.src)) THEN PutO(DO(e.h), st.o[DO(e.src)]) ELSE st
    [] e.op = "dsign" /\ Ok(e) -> IF HasO(DO(e.h)) THEN [st EXCEPT !.signed = SignedBy(st.pairs, @, st.o[DO(e.h)].sk, e.a.sm)] ELSE st
    [] OTHER -> st

KemFacts(e, o) == e.a.pk = o.pk /\ e.a.sk = o.sk /\ Raws(e)
KemSame(e, o) == KemFacts(e, o) /\ e.a.key = o.key /\ e.a.ct = o.ct
Faulty(w) == HasO(FO(w)) /\ st.o[FO(w)] > 0
KemAllowed(e) == On("C17") =>
  CASE e.op = "knew" -> Ok(e) /\ HLen(e.a.pk) = KemSize(e).pk /\ HLen(e.a.sk) = KemSize(e).sk /\ FreshPair(e) /\ Raws(e)
    [] e.op = "kfrom" -> /\ Ok(e) /\ e.a.inok
                         /\ e.a.done <=> (HLen(e.pk) = KemSize(e).pk /\ HLen(e.sk) = KemSize(e).sk)
                         /\ e.a.done => KemFacts(e, [pk |-> e.pk, sk |-> e.sk])
    [] e.op = "kget" -> HasO(KO(e.h)) => Ok(e) /\ KemSame(e, st.o[KO(e.h)])
    [] e.op = "kcopy" -> HasO(KO(e.src)) => Ok(e) /\ KemSame(e, st.o[KO(e.src)])
    [] e.op = "kenc" -> HasO(KO(e.h)) => LET o == st.o[KO(e.h)] IN
          /\ Ok(e) /\ e.a.inok /\ KemFacts(e, o)
          /\ IF HLen(e.pk) # KemSize(e).pk THEN ~e.a.v /\ KemSame(e, o)
             ELSE IF Faulty("enc") THEN ~e.a.v
             ELSE /\ e.a.v /\ HLen(e.a.key) = KemSize(e).key /\ HLen(e.a.ct) = KemSize(e).ct
                  /\ << e.pk, e.a.ct >> \in DOMAIN st.enc => st.enc[<< e.pk, e.a.ct >>] = e.a.key
    [] OTHER -> HasO(KO(e.h)) => LET o == st.o[KO(e.h)] IN
          /\ Ok(e) /\ e.a.inok /\ KemFacts(e, o) /\ e.a.ct = o.ct
          /\ IF HLen(e.ct) # KemSize(e).ct THEN ~e.a.v /\ KemSame(e, o)
             ELSE IF Faulty("dec") THEN ~e.a.v
             ELSE /\ HLen(e.a.key) = KemSize(e).key /\ DecKeyOk(st.pairs, st.enc, o.sk, e.ct, e.a.key)
                  /\ (\E p \in PubOf(st.pairs, o.sk) : << p, e.ct >> \in DOMAIN st.enc) => e.a.v
KO2(e) == PutO(KO(e.h), [pk |-> e.a.pk, sk |-> e.a.sk, key |-> e.a.key, ct |-> e.a.ct])
\* the Rust objects encapsulate to themselves when they are made
SelfEnc(s, e) == IF Rusty(e) THEN [s EXCEPT !.enc = EncWorld(@, e.a.pk, e.a.ct, e.a.key)] ELSE s
UseFault(s, w) == IF Faulty(w) THEN [s EXCEPT !.o = Put(@, FO(w), @[FO(w)] - 1)] ELSE s
KemAfter(e) == IF ~Ok(e) THEN st ELSE
  CASE e.op = "knew" -> SelfEnc(NewPair(KO2(e), e.a.pk, e.a.sk), e)
    [] e.op = "kfrom" -> IF e.a.done THEN SelfEnc(KO2(e), e) ELSE st
    [] e.op = "kcopy" -> IF HasO(KO(e.src)) THEN KO2(e) ELSE st
    [] e.op = "kenc" -> IF HLen(e.pk) # KemSize(e).pk THEN st
                        ELSE IF Faulty("enc") THEN UseFault(KO2(e), "enc")
                        ELSE [KO2(e) EXCEPT !.enc = EncWorld(@, e.pk, e.a.ct, e.a.key)]
    [] e.op = "kdec" -> IF HLen(e.ct) # KemSize(e).ct THEN st ELSE UseFault(KO2(e), "dec")
    [] OTHER -> st
FaultAfter(e) == PutO(FO(e.what), e.n)

\* ------------------------------------------------- the JavaScript interface --
JsPk(s) == PublicKey(F(s.seed), s.h, s.hf, s.w, s.fmt)
JsFactsOk(e, s) ==
  IF Toy THEN /\ e.a.idx = s.idx /\ e.a.height = s.h /\ e.a.hexseed = ToHex(HexSeedOf(s))
              /\ HistOk(<< "jspk", KeyOf(s), s.fmt >>, i, LAMBDA ev : << ev.a.pkt >>)
  ELSE LET v == TLCEval(View(s, JsPk(s))) IN \A f \in DOMAIN v : f \in DOMAIN e.a /\ e.a[f] = v[f]
JsFresh(e, s) == [st EXCEPT !.s = Put(@, e.h, [s EXCEPT !.idx = e.a.idx]), !.used = Put(@, e.h, {}), !.hist = Note(@, << "jspk", KeyOf(s), s.fmt >>, i)]
JsNewS(e) == IF e.kind = "basic" THEN NewS(e) ELSE [NewS(e) EXCEPT !.fmt = 0, !.w = 16]
JsExtBytes(e) == IF e.op = "jhex" THEN LET t == F(e.ext) IN IF IsHexText(t) THEN TLCEval(UnHexText(t)) ELSE << >>
                 ELSE LET t == F(e.ext) IN IF IsMnemonic(t) THEN TLCEval(UnMnemonic(t)) ELSE << >>
JsSetAllowed(e) == Known(e) =>
  LET s == S(e)  o == SetIndexOutcome(s, e.n) IN
  /\ Ok(e)
  /\ s.idx > Keys(s.h) \/
     ( /\ e.a.pre = s.idx
       /\ IF s.kind = "fast" \/ o.done THEN /\ e.a.done = o.done /\ e.a.idx = o.idx /\ (o.done => e.a.ret = e.n)
                                       ELSE e.a.idx \in {s.idx, e.n} )
JsSignAllowed(e) == Known(e) =>
  LET s == S(e)  o == SignOutcome(s) IN
  /\ Ok(e)
  /\ IF s.idx > Keys(s.h) THEN ~e.a.done
     ELSE /\ e.a.pre = s.idx /\ e.a.done = o.done /\ e.a.idx = o.idx
          /\ (e.a.done /\ "ver" \in DOMAIN e.a /\ e.w = s.w) => e.a.ver
          /\ (e.a.done /\ ~Toy) => F(e.a.sig) = Signature(F(s.seed), s.h, s.hf, s.w, s.idx, F(e.msg))
JsAllowed(e) == (On("C18") \/ (On("C20") /\ e.op \in {"jnew", "jhex", "jmn", "jget", "jset", "jsign"})) =>
  CASE e.op = "jnew" -> IF NewOk(e) THEN Ok(e) /\ JsFactsOk(e, JsNewS(e)) ELSE Err(e)
    [] e.op \in {"jhex", "jmn"} -> LET b == TLCEval(JsExtBytes(e)) IN
         IF ExtOk(b) THEN ExtUnjudged(b) \/ (Ok(e) /\ JsFactsOk(e, ExtS(b))) ELSE Err(e)
    [] e.op = "jget" -> Known(e) => Ok(e) /\ JsFactsOk(e, S(e))
    [] e.op = "jset" -> JsSetAllowed(e)
    [] e.op = "jsign" -> JsSignAllowed(e)
    [] e.op = "jverify" -> /\ Ok(e) /\ e.a.same
                           /\ ~Toy => VerifyRight(F(e.msg), F(e.sig), F(e.pk), e.w, e.a.v)
    [] e.op = "jaddr" -> LET t == F(e.t) IN
         IF PkTextOk(t) THEN Ok(e) /\ (UnHexText(t)[3] = 0 => F(e.a.t) = PkTextAddress(t)) ELSE Err(e)
    [] e.op = "jaddrraw" -> LET pk == F(e.pk) IN
         IF HasAddress(pk) THEN Ok(e) /\ (pk[3] = 0 => e.a.a = ToHex(AddressOf(pk))) ELSE Err(e)
    [] e.op = "jvalid" -> LET t == F(e.t)  v == TextValid(t) IN
         ((t # << >> /\ t[1] = 81) \/ Len(t) < MinText) => IF v = -1 THEN Err(e) ELSE Ok(e) /\ e.a.v = (v = 1)
    [] e.op = "jvalidraw" -> Ok(e) /\ e.a.v = AddressValid(F(e.addr))
    [] e.op = "jdesc" -> LET t == F(e.t)  d == TextDesc(t)
                             plain == AddrTextOk(t) /\ DescOk(SubSeq(AddrTextBytes(t), 1, 3)) /\ (DescFmt(AddrTextBytes(t)) # 0 \/ AddrTextBytes(t)[3] # 0)
                             got == << e.a.hf, e.a.st, e.a.h >> IN
         Ok(e) /\ (((t # << >> /\ t[1] = 81) \/ Len(t) < MinText) => (got = d \/ (plain /\ got = << -1, -1, -1 >>)))
    [] OTHER -> Ok(e) /\ << e.a.sha2, e.a.shake128, e.a.shake256, e.a.xmss, e.a.fmt >> = << 0, 1, 2, 0, 0 >>
JsAfter(e) ==
  IF ~Ok(e) THEN st ELSE
  CASE e.op = "jnew" -> IF NewOk(e) THEN JsFresh(e, JsNewS(e)) ELSE st
    [] e.op \in {"jhex", "jmn"} -> LET b == TLCEval(JsExtBytes(e)) IN IF ExtOk(b) /\ ~ExtUnjudged(b) THEN JsFresh(e, ExtS(b)) ELSE st
    [] e.op \in {"jset", "jsign"} -> IF Known(e) THEN Track(e, [S(e) EXCEPT !.idx = e.a.idx]) ELSE st
    [] OTHER -> st
JsOps == {"jnew", "jhex", "jmn", "jget", "jset", "jsign", "jverify", "jaddr", "jaddrraw", "jvalid", "jvalidraw", "jdesc", "jenum"}

\* ------------------------------------------------ calls as such (Api.tla) --
\* these answer every input
Total == {"verify", "addrok", "shake128", "shake256", "sha2", "hex", "hexs", "hcs", "dopen", "jverify", "jvalidraw"}
\* no memory is left behind: live bytes do not grow by a block in every round
RepAllowed(e) == On("C21") => Ok(e) /\ ~(e.a.d1 >= 16 * e.n /\ e.a.d2 >= 16 * e.n)
CallAllowed(e) == (On("C21") /\ e.op \in Total) => Ok(e)

\* ---------------------------------------------------------------- dispatch --
Allowed(e) ==
  IF e.a.r \in Fatal THEN FALSE
  ELSE IF e.a.r = "noop" THEN TRUE
  ELSE CallAllowed(e) /\ (e.op \in PureOps => PureAllowed(e)) /\
  CASE e.op = "xnew" -> NewAllowed(e)
    [] e.op \in {"xext", "xexthex", "xextmn"} -> ExtAllowed(e)
    [] e.op = "xbak" -> BakAllowed(e)
    [] e.op = "xres" -> ResAllowed(e)
    [] e.op = "xinit" -> InitAllowed(e)
    [] e.op = "xget" -> GetAllowed(e)
    [] e.op = "xidx" -> IdxAllowed(e)
    [] e.op \in {"xcopy", "xmove", "xassign", "xswap"} -> CopyAllowed(e)
    [] e.op = "xset" -> SetAllowed(e)
    [] e.op = "xsign" -> SignAllowed(e)
    [] e.op = "xsignbig" -> BigAllowed(e)
    [] e.op = "xwalk" -> WalkAllowed(e)
    [] e.op = "verify" -> VerifyAllowed(e)
    [] e.op = "hfs" -> HfsAllowed(e)
    [] e.op = "basesz" -> BaseAllowed(e)
    [] e.op \in {"dbytes", "dext", "dpk"} -> DescAllowed(e)
    [] e.op = "dmake" -> MakeAllowed(e)
    [] e.op = "addr" -> AddrAllowed(e)
    [] e.op = "addrok" -> AddrOkAllowed(e)
    [] e.op \in {"hex", "hexs"} -> HexAllowed(e)
    [] e.op = "unhex" -> UnhexAllowed(e)
    [] e.op = "str2bin" -> Str2binAllowed(e)
    [] e.op = "mn" -> MnAllowed(e)
    [] e.op = "unmn" -> UnmnAllowed(e)
    [] e.op \in {"shake128", "shake256", "sha2", "sha2n"} -> HashAllowed(e)
    [] e.op = "hcs" -> HcsAllowed(e)
    [] e.op = "hcsat" -> HcsAtAllowed(e)
    [] e.op = "rng" -> RngAllowed(e)
    [] e.op = "jsrng" -> JsRngAllowed(e)
    [] e.op \in {"dnew", "dfrom", "dget", "dcopy", "dsign", "dopen", "dmsg", "dsig"} -> DilAllowed(e)
    [] e.op \in {"knew", "kfrom", "kget", "kcopy", "kenc", "kdec"} -> KemAllowed(e)
    [] e.op = "jspqbad" -> (On("C16") \/ On("C17")) => Ok(e) /\ e.a.accepted = 0
    [] e.op \in JsOps -> JsAllowed(e)
    [] e.op = "rep" -> RepAllowed(e)
    [] e.op \in {"xhold", "pshare"} -> HoldAllowed(e)
    [] e.op \in {"xfree", "fault"} -> TRUE
After(e) ==
  IF e.a.r = "noop" THEN st ELSE
  CASE e.op = "xnew" -> NewAfter(e)
    [] e.op \in {"xext", "xexthex", "xextmn"} -> ExtAfter(e)
    [] e.op = "xbak" -> BakAfter(e)
    [] e.op = "xres" -> ResAfter(e)
    [] e.op = "xinit" -> InitAfter(e)
    [] e.op \in {"xcopy", "xmove", "xassign"} -> CopyAfter(e)
    [] e.op = "xswap" -> SwapAfter(e)
    [] e.op = "xset" -> SetAfter(e)
    [] e.op = "xsign" -> SignAfter(e)
    [] e.op = "xsignbig" -> BigAfter(e)
    [] e.op = "xwalk" -> WalkAfter(e)
    [] e.op = "xfree" -> IF Known(e) THEN [st EXCEPT !.s = Rem(@, e.h)] ELSE st
    [] e.op \in {"dnew", "dfrom", "dcopy", "dsign"} -> DilAfter(e)
    [] e.op \in {"knew", "kfrom", "kcopy", "kenc", "kdec"} -> KemAfter(e)
    [] e.op = "fault" -> FaultAfter(e)
    [] e.op = "xhold" -> HoldAfter(e)
    [] e.op \in PureOps /\ On("C19") -> [st EXCEPT !.hist = Note(@, PureKey(e), i)]
    [] e.op \in {"jnew", "jhex", "jmn", "jset", "jsign"} -> JsAfter(e)
    [] OTHER -> st

Init == /\ shard \in 1..Len(Shards) /\ i = Shards[shard][1] /\ st = Empty /\ verdict = "ok"
Next == /\ verdict = "ok" /\ i <= Shards[shard][2]
        /\ UNCHANGED shard
        /\ IF Allowed(T[i]) THEN i' = i + 1 /\ st' = After(T[i]) /\ UNCHANGED verdict
                            ELSE verdict' = "rejected" /\ UNCHANGED << i, st >>
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok"
\* of a rejected trace only the place is printed: the state grows with the trace
Where == [shard |-> shard, i |-> i]
=============================================================================
