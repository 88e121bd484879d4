"""Dilithium objects: every ordered pair of operations of the specified machine (MCDil), all message lengths,
changes and sizes; judged by TLC over an ideal signature."""
from ..pq import *

OBJ = "ABCM"


def setup(impl, r):
    return ["dnew A", "dnew B", "dfrom C $pk.A $sk.A", "dfrom M $pk.B $sk.A"] + ["dsign %s %s sm.%s" % (o, hx(b"start" + o.encode()), o) for o in OBJ]


def cmd(q, impl, r):
    pk, sk, sig = dil(impl)
    o, t, k = q["o"], q["t"], q["k"]
    if k == "sign":
        return ["dsign %s %s sm.%s" % (o, hx(t.encode()), o)]
    if k == "open":
        return ["dopen $sm.%s $pk.%s" % (t, o)]
    own = {"C": "A", "M": "A"}.get(o, o)
    if k == "bent":
        return ["dopen $sm.%s:^%d $pk.%s" % (o, r.choice([0, sig - 1, sig, -1, r.randrange(sig)]), own)]
    if k == "cut":
        return ["dopen $sm.%s:<%d $pk.%s" % (o, r.choice([0, 1, sig - 1, sig, sig + 1]), own)]
    if k == "grown":
        return ["dopen $sm.%s:+%s $pk.%s" % (o, "00" * r.choice([1, 2, 100]), own)]
    if k == "othermsg":
        return ["dopen $sm.%s:<%d,%s $pk.%s" % (o, sig, hx(b"other"), own)]
    if k == "badpk":
        return ["dopen $sm.%s $pk.%s:%s" % (o, own, r.choice(["<%d" % (pk - 1), "<0", "+00", "^%d" % r.randrange(pk)]))]
    return ["dmsg $sm.%s" % o, "dsig $sm.%s" % o]


def lengths(c, impl):
    r = c.rng
    pk, sk, sig = dil(impl)
    cmds = ["dnew A"]
    ls = [0, 1, 2, 7, 31, 32, 33, 255, 256, 257, 1000, sig - 1, sig, sig + 1] + ([2 * sig, 2 * sig + 1, 65535, 100000] if c.thorough else [])
    for n in ls:
        cmds += ["dsign A %s s" % hx(mb(r, n)), "dopen $s $pk.A", "dmsg $s", "dsig $s", "dopen $s:^-1 $pk.A", "dopen $s:^0 $pk.A", "dopen $s:^%d $pk.A" % (sig - 1)]
        if n:
            cmds += ["dopen $s:^%d $pk.A" % sig, "dopen $s:<%d $pk.A" % (sig + n - 1)]
        # a signed message signed again
        if n in (0, 7, 33):
            cmds += ["dsign A $s t", "dopen $t $pk.A", "dmsg $t", "dsig $t"]
    for b in ("00" * 40, "ff" * 40, "41" * 100, "0d0a00"):
        cmds += ["dsign A %s s" % b, "dopen $s $pk.A", "dmsg $s"]
    long = ["dnew A"]                       # beyond 16 bits
    for n in (65536, 65537) if not c.thorough else (65535, 65536, 65537, 131072 + 5, 2**18):
        long += ["dsign A %s s" % hx(mb(r, n)), "dopen $s $pk.A", "dmsg $s", "dopen $s:<%d $pk.A" % (sig + n - 1)]
    return [Script(impl, long, label="long messages")] + [Script(impl, ["dnew A"] + x, label="message lengths") for x in split_new(cmds[1:], 40)]


def split_new(cmds, n):
    """cut before a signing command, at least n commands each"""
    out, cur = [], []
    for x in cmds:
        if len(cur) >= n and x.startswith("dsign A") and "$s" not in x:
            out.append(cur)
            cur = []
        cur.append(x)
    return out + [cur]


def changed(c, impl):
    r = c.rng
    pk, sk, sig = dil(impl)
    m = rb(r, 60)
    cmds = ["dnew A", "dnew B", "dsign A %s s" % hx(m), "dsign A %s s2" % hx(rb(r, 60)), "dsign B %s s3" % hx(m)]
    n = sig + 60
    for p in sorted({0, 1, 2, 31, 32, sig // 2, sig - 2, sig - 1, sig, sig + 1, n - 1} | {r.randrange(n) for _ in range(10 if not c.thorough else 150)}):
        cmds.append("dopen $s:^%d $pk.A" % p)
    for k in (0, 1, sig - 1, sig, sig + 1, n - 1):
        cmds.append("dopen $s:<%d $pk.A" % k)
    cmds += ["dopen $s:+00 $pk.A", "dopen $s,$s $pk.A", "dopen $s:>1 $pk.A", "dopen $s $pk.B", "dopen $s3 $pk.A", "dopen $s3 $pk.B", "dopen $s:<%d,$s2:>%d $pk.A" % (sig, sig),
             "dopen $s2:<%d,$s:>%d $pk.A" % (sig, sig), "dopen $s:>%d,$s:<%d $pk.A" % (sig, sig), "dopen $s $pk.A"]
    for k in (0, 1, pk - 1, pk):
        cmds.append("dopen $s $pk.A:<%d" % k)
    cmds += ["dopen $s $pk.A:+00", "dopen $s $pk.A:^0", "dopen $s $pk.A:^%d" % (pk - 1), "dopen $s $sk.A", "dopen - $pk.A", "dopen $s -", "dopen - -"]
    for k in (0, 1, 2, sig // 2, sig - 1, sig, sig + 1, n):
        cmds += ["dmsg $s:<%d" % k, "dsig $s:<%d" % k]
    return [Script(impl, cmds, label="changed signed messages")]


def sizes(c, impl):
    r = c.rng
    pk, sk, sig = dil(impl)
    cmds = ["dnew A"]
    near = lambda n: [0, 1, 2, n - 2, n - 1, n, n + 1, n + 2, 2 * n, n // 2, r.randrange(n)]
    for n in near(pk) + [sk, sig]:
        cmds.append("dfrom X %s $sk.A" % ("$pk.A:<%d" % n if n <= pk else "$pk.A:+" + "11" * (n - pk)))
    for n in near(sk) + [pk, sig]:
        cmds.append("dfrom X $pk.A %s" % ("$sk.A:<%d" % n if n <= sk else "$sk.A:+" + "22" * (n - sk)))
    cmds += ["dfrom X $sk.A $pk.A", "dfrom X - -", "dfrom X - $sk.A", "dfrom X $pk.A -", "dfrom X $pk.A $sk.A", "dget X", "dsign X 0011 x", "dopen $x $pk.A", "dsign A 0011 y", "dopen $y $pk.X"]
    # fresh pairs
    cmds += ["dnew A", "dnew A", "dnew B", "dnew D"]
    if impl in ("pq", "pqasan"):
        cmds += ["dcopy E D", "dget E", "dsign E 55 z", "dopen $z $pk.D", "dsign D 56 z", "dopen $z $pk.E", "dget D"]
    return [Script(impl, cmds, label="key sizes")]


def check(c):
    c.drivers("pq", "pqasan", "jspq", "jspqasan", "rust")
    c.model("MCDil")
    ops = [q for q in c.generate("GenPq") if q["fam"] == "dil"]
    r, scripts = c.rng, []
    for impl in ("pq", "jspq", "rust"):
        scripts += sessions(c, impl, ops, setup(impl, r), lambda q: cmd(q, impl, r), 150, "every pair of operations")
    for impl in ("pq", "pqasan", "jspq", "jspqasan", "rust"):
        scripts += lengths(c, impl) + changed(c, impl) + sizes(c, impl)
    for impl in ("jspq", "jspqasan"):
        scripts.append(Script(impl, ["jspqbad " + hx(t.encode()) for t in ("zz", "0g", "g0", " 0", "0x", "..", "-1", "+1", "é")], label="text that is not hexadecimal"))
    c.replay(scripts)
    return {"coverage": {"operations_of_the_machine": len(ops)},
            "assumptions": ["the dilithium reference code (absent submodule) and the pqcrypto crate are replaced by an ideal signature"]}
