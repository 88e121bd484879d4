"""Kyber objects: every ordered pair of operations of the specified machine (MCKem), all sizes, bent
ciphertexts, failing primitives; judged by TLC over an ideal key encapsulation."""
from ..pq import *


def sizes(c, impl):
    pk, sk, ct = kem(impl)
    r, cmds = c.rng, ["knew A", "knew B", "kenc A $pk.B", "kget A"]
    near = lambda n: [0, 1, 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n, n // 2] + [r.randrange(2 * n) for _ in range(4)]
    z = lambda reg, n: "$%s:<%d" % (reg, n) if n <= 1088 or reg.startswith("sk") and n <= sk else "$%s:+%s" % (reg, "5a" * 4)
    for n in near(pk) + [sk, ct]:
        t = "$pk.A:<%d" % n if n <= pk else "$pk.A:+" + "11" * (n - pk)
        cmds += ["kfrom X %s $sk.A" % t, "kenc B %s" % t, "kget B"]
    for n in near(sk) + [pk, ct]:
        t = "$sk.A:<%d" % n if n <= sk else "$sk.A:+" + "22" * (n - sk)
        cmds += ["kfrom X $pk.A %s" % t]
    for n in near(ct) + [pk, sk, 32]:
        t = "$ct.A:<%d" % n if n <= ct else "$ct.A:+" + "33" * (n - ct)
        cmds += ["kdec B %s" % t, "kget B"]
    cmds += ["kfrom X $sk.A $pk.A", "kfrom X - -", "kfrom X - $sk.A", "kfrom X $pk.A -", "kenc B -", "kdec B -", "kget B", "kdec B $ct.A", "kget B"]
    return Script(impl, cmds, label="sizes")


def bent(c, impl):
    pk, sk, ct = kem(impl)
    r = c.rng
    cmds = ["knew A", "knew B", "kfrom C $pk.B $sk.B", "kenc A $pk.B"]
    pos = sorted(set([0, 1, 15, 16, 31, 32, 33, ct // 2, ct - 33, ct - 32, ct - 2, ct - 1] + [r.randrange(ct) for _ in range(12 if not c.thorough else 200)]))
    for p in pos:
        cmds += ["kdec B $ct.A:^%d" % p]
    cmds += ["kdec B $ct.A", "kdec C $ct.A", "kdec A $ct.A", "kdec B $ct.A", "kget B", "kget C", "kget A"]
    return Script(impl, cmds, label="bent ciphertexts")


def rebuilt(c, impl):
    """keys exported, parties rebuilt, several exchanges in flight"""
    cmds = ["knew A", "knew B", "knew D", "kenc A $pk.B one", "kenc A $pk.D two", "kenc D $pk.B three", "kenc A $pk.A four",
            "kfrom B2 $pk.B $sk.B", "kfrom D2 $pk.D $sk.D", "kfrom M $pk.A $sk.B"]
    for o in ("B", "B2", "D", "D2", "A", "M"):
        for t in ("one", "two", "three", "four"):
            cmds.append("kdec %s $%s" % (o, t))
    cmds += ["kget M", "kget B2", "kenc B2 $pk.D2 five", "kdec D $five", "kget B2", "knew A", "knew B", "kget A", "kget B"]
    if impl not in ("jspq", "jspqasan"):
        cmds += ["kcopy Z D", "kget Z", "kdec Z $two", "kget D", "kenc Z $pk.B2 six", "kdec B $six", "kget D"]
    return Script(impl, cmds, label="rebuilt parties")


def faults(c, impl):
    cmds = ["knew A", "knew B", "kenc A $pk.B", "kdec B $ct.A"]
    for k in (1, 2, 3):
        cmds += ["fault enc %d" % k] + ["kenc A $pk.B"] * (k + 1) + ["kdec B $ct.A", "kget A", "fault dec %d" % k] + ["kdec B $ct.A"] * (k + 1) + ["kget B"]
    return Script(impl, cmds, label="failing primitive")


def check(c):
    c.drivers("pq", "pqasan", "jspq", "jspqasan", "rust")
    c.model("MCKem")
    ops = [q for q in c.generate("GenPq") if q["fam"] == "kem"]
    scripts = []
    r = c.rng
    for impl in ("pq", "jspq", "rust"):
        use = ops if impl != "rust" else [q for q in ops if q["t"] != "fail"]
        scripts += sessions(c, impl, use, kem_setup(impl), lambda q: kem_cmd(q, impl, r), 70, "every pair of operations")
    for impl in ("pq", "pqasan", "jspq", "jspqasan", "rust"):
        scripts += [sizes(c, impl), bent(c, impl), rebuilt(c, impl)]
        if impl != "rust":
            scripts += [faults(c, impl)]
            if impl in ("pq", "jspq"):
                s = faults(c, impl)
                s.env = {"QRL_PQ_POSITIVE": "1"}
                scripts.append(s)
        for k in range(2 if not c.thorough else 30):
            w = [r.choice(ops) for _ in range(40)]
            scripts.append(Script(impl, kem_setup(impl) + [x for q in w if not (impl == "rust" and q["t"] == "fail") for x in kem_cmd(q, impl, r)], label="random histories"))
    for impl in ("jspq", "jspqasan"):
        scripts.append(Script(impl, ["jspqbad " + hx(t.encode()) for t in ("zz", "0g", "g0", " 0", "0x", "..", "-1", "+1", "é")], label="text that is not hexadecimal"))
    c.replay(scripts)
    return {"coverage": {"operations_of_the_machine": len(ops)},
            "assumptions": ["the kyber reference code (absent submodule) and the pqcrypto crate are replaced by an ideal key encapsulation"]}
