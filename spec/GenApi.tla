------------------------------- MODULE GenApi -------------------------------
(* Every call of the interface with every combination of argument classes,      *)
(* and the short histories of two objects.                                      *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils
VARIABLE x
\* lengths around the size an argument should have
Around(n) == {0, 1, 2, n - 1, n, n + 1, 2 * n} \cup (IF n > 8 THEN {n \div 2, n - 2, n + 2} ELSE {})
Fills == {"zero", "ones", "rand", "good"}
Bytes(n) == { << "b", l, f, n >> : l \in Around(n), f \in Fills }
Text(n) == { << "t", l, f, n >> : l \in Around(n), f \in {"rand", "good", "nul", "wide", "tail", "deep"} }
Free == { << "b", l, f, 0 >> : l \in {0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 135, 136, 137, 167, 168, 169, 1000}, f \in {"zero", "rand"} }
Num(s) == { << "n", v, "", 0 >> : v \in s }
Ws == Num({4, 16, 256})
WotsLen(w) == CASE w = 4 -> 133 [] w = 16 -> 67 [] w = 256 -> 34
SigLen(h, w) == 4 + 32 + 32 * WotsLen(w) + 32 * h
C1(op, A) == { << op, << a >> >> : a \in A }
C2(op, A, B) == { << op, << a, b >> >> : a \in A, b \in B }
Msgs == { << "b", l, "rand", 0 >> : l \in {0, 1, 64} }
Sigs(w) == { << "b", l, f, h >> : l \in UNION { Around(SigLen(h, w)) : h \in {0, 1, 4, 30} }, f \in {"zero", "good"}, h \in {4} }
Pks == { << "b", l, f, 67 >> : l \in {0, 2, 3, 66, 67, 68}, f \in {"zero", "ones", "good"} }
Verify == UNION { { << "verify", << m, s, p, << "n", w, "", 0 >> >> >> : m \in { << "b", 5, "rand", 0 >> }, s \in Sigs(w), p \in Pks } : w \in {4, 16, 256} }
          \cup { << "verify", << << "b", 5, "rand", 0 >>, << "b", SigLen(h, 16) + d, f, 4 >>, << "b", 67, "good", 67 >>, << "n", 16, "", 0 >> >> >> :
                  h \in {2, 31, 32, 33, 62, 63, 64, 127, 128, 253, 254, 255, 256, 257, 260, 512}, d \in {0, 1, 31}, f \in {"ones", "good"} }
          \cup { << "verify", << m, << "b", SigLen(4, w), "good", 4 >>, << "b", 67, "good", 67 >>, << "n", w, "", 0 >> >> >> : m \in Msgs, w \in {4, 16, 256} }
Calls == C1("xext", Bytes(51)) \cup C1("xexthex", Text(102)) \cup C1("xextmn", Text(200))
  \cup C1("dbytes", Bytes(3)) \cup C1("dext", Bytes(51)) \cup C1("dpk", Bytes(67)) \cup C1("addr", Bytes(67)) \cup C1("addrok", Bytes(39))
  \cup C2("hex", Free, Num({0, 1, 2, 3, 64, 2147483647})) \cup C1("unhex", Text(64)) \cup C1("unhex", Text(102)) \cup C1("str2bin", Text(30))
  \cup C1("mn", Bytes(51)) \cup C1("mn", Bytes(6)) \cup C1("unmn", Text(200)) \cup C1("unmn", Text(12))
  \cup C2("shake128", Num({0, 1, 31, 32, 33, 167, 168, 169, 400}), Free) \cup C2("shake256", Num({0, 1, 31, 32, 33, 135, 136, 137, 400}), Free)
  \cup C1("sha2", Free) \cup C2("sha2n", Free, Num({0, 1, 2, 3})) \cup C2("hfs", Num(UNION { Around(SigLen(h, w)) : h \in {0, 4, 30}, w \in {4, 16, 256} }), Ws) \cup C1("basesz", Ws)
  \cup { << "hcs", << s, a, b >> >> : s \in Bytes(48), a \in Num({0, 1, 65536}), b \in Num({0, 1, 3}) }
  \cup { << "dmake", << << "n", f, "", 0 >>, << "n", 0, "", 0 >>, << "n", h, "", 0 >>, << "n", a, "", 0 >> >> >> : f \in 0..2, h \in {0, 2, 4, 30, 32, 254}, a \in 0..1 }
  \cup Verify
Rows == { [op |-> c[1], args |-> c[2]] : c \in Calls }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Rows))
Init == x = 0
Next == UNCHANGED x
=============================================================================
