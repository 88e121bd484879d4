-------------------------------- MODULE MCJs --------------------------------
(* The text interface on its own: an address text is valid exactly when it is  *)
(* whole and unchanged up to letter case; texts shorter than the prefix and a  *)
(* descriptor, of odd length or with a foreign character are refused; a signer *)
(* rebuilt from what it shows is the same signer.                              *)
EXTENDS Js
VARIABLES hf, h, cut, change, pos
vars == << hf, h, cut, change, pos >>
SeedHex == ToHex([k \in 1..48 |-> (k * 37) % 256])
Pk == DescBytes(hf, 0, h, 0) \o [k \in 1..64 |-> (k * 11 + h) % 256]
A == Memo(<< "mcjs", hf, h >>, TextAddress(Pk))
Full == 79
Init == hf \in 0..2 /\ h \in {4, 30} /\ cut = 0 /\ change \in {"none", "upper", "foreign", "digit"} /\ pos = 1
Next == \/ cut < Full /\ pos = 1 /\ cut' = cut + 1 /\ UNCHANGED << hf, h, change, pos >>
        \/ change \in {"foreign", "digit"} /\ pos < 78 /\ cut \in {0, 6, 7, 8, 70, 71, 77, 78, 79} /\ pos' = pos + 1 /\ UNCHANGED << hf, h, change, cut >>
Upper(t) == [k \in 1..Len(t) |-> IF t[k] \in 97..102 THEN t[k] - 32 ELSE t[k]]
Text == LET t == SubSeq(A, 1, cut) IN
        CASE change = "upper" -> Upper(t)
          [] change = "foreign" /\ pos < cut -> [t EXCEPT ![pos + 1] = 103]
          [] change = "digit" /\ pos < cut -> [t EXCEPT ![pos + 1] = IF @ = 48 THEN 49 ELSE 48]
          [] OTHER -> t
Changed == change \in {"foreign", "digit"} /\ pos < cut
Length == Len(A) = Full
ValidExactly == (TextValid(Text) = 1) <=> (cut = Full /\ ~Changed)
Refused == (TextValid(Text) = -1) <=> (cut < 7 \/ cut % 2 = 0 \/ (change = "foreign" /\ pos < cut))
DescFollows == (TextValid(Text) >= 0 /\ ~Changed) => TextDesc(Text) = << hf, 0, h >>
\* rebuilding from the shown texts gives the same parameters
S0 == [kind |-> "fast", seed |-> SeedHex, h |-> h, hf |-> hf, fmt |-> 0, w |-> 16, idx |-> 0]
Rebuild == cut = 0 =>
  LET ext == DescBytes(hf, 0, h, 0) \o FromHex(SeedHex) IN
  /\ IsHexText(HexSeedOf(S0)) /\ UnHexText(HexSeedOf(S0)) = ext
  /\ IsMnemonic(MnemonicOf(S0)) /\ UnMnemonic(MnemonicOf(S0)) = ext
  /\ DescHf(ext) = hf /\ DescHeight(ext) = h /\ DescOk(SubSeq(ext, 1, 3))
=============================================================================
