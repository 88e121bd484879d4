--------------------------------- MODULE Js ---------------------------------
(* What the JavaScript interface shows of a signer and of addresses: the same  *)
(* values as the core library, in text.  Text is a sequence of character codes.*)
EXTENDS Xmss, Codec

Q == << 81 >>
TextAddress(pk) == Q \o HexText(AddressOf(pk), 0)

\* a text offered as an address: "err", or the bytes after the prefix
MinText == 7                                   \* the prefix and one descriptor
AddrTextOk(t) == Len(t) >= MinText /\ IsHexText(Tail(t))
AddrTextBytes(t) == UnHexText(Tail(t))
\* answers: 1 yes, 0 no, -1 refused
TextValid(t) == IF ~AddrTextOk(t) THEN -1 ELSE IF AddressValid(AddrTextBytes(t)) THEN 1 ELSE 0
TextDesc(t) == IF ~AddrTextOk(t) THEN << -1, -1, -1 >>
               ELSE LET d == SubSeq(AddrTextBytes(t), 1, 3) IN
                    IF DescOk(d) THEN << DescHf(d), DescSt(d), DescHeight(d) >> ELSE << -1, -1, -1 >>
\* the address (hexadecimal, without prefix) of a public key given as text
PkTextOk(t) == Len(t) = 134 /\ IsHexText(t) /\ HasAddress(UnHexText(t))
PkTextAddress(t) == HexText(AddressOf(UnHexText(t)), 0)

HexSeedOf(s) == HexText(DescBytes(s.hf, 0, s.h, s.fmt) \o FromHex(s.seed), 0)
MnemonicOf(s) == MnemonicText(DescBytes(s.hf, 0, s.h, s.fmt) \o FromHex(s.seed))
\* everything a signer object shows, as functions of seed, height, hash function, parameter
View(s, pk) ==
  LET common == [idx |-> s.idx, height |-> s.h, pkt |-> ToHex(HexText(pk, 0)), hexseed |-> ToHex(HexSeedOf(s))] IN
  IF s.kind = "basic" THEN common
  ELSE common @@ [pk |-> ToHex(pk), addr |-> ToHex(AddressOf(pk)), addrt |-> ToHex(TextAddress(pk)), mn |-> ToHex(MnemonicOf(s))]
=============================================================================
