"""Calls as such: every call with every class of arguments (GenApi) on builds that notice any access outside a buffer
(ASan with bounds and vector checks), any value made from uninitialised memory (valgrind) and any panic (Rust);
histories of objects (GenLife) repeated while the bytes in use are counted."""
import hashlib, json, os
from concurrent.futures import ThreadPoolExecutor
from ..drive import Script, hx
from .. import tlc
from ..gen import *
from ..pq import dil, kem

def new(h, kind, sd, height, hf, w):
    return "xnew %s %s %s %d %d 0 %d" % (h, kind, hx(sd), height, hf, w)


def ext(r, h=4, hf=S128):
    return bytes([hf, h // 2, 0]) + rb(r, 48)


def value(c, op, a):
    r, (kind, n, fill, nom) = c.rng, a
    if kind == "n":
        return str(n)
    if fill == "zero":
        b = bytes(n)
    elif fill == "ones":
        b = b"\xff" * n
    elif kind == "t":
        if op in ("xexthex", "unhex"):
            g = ext(r).hex().encode()
        elif op in ("xextmn", "unmn"):
            g = MN[0] if n >= 100 else MN[0][:6] * 3
        else:
            g = b"some text "
        g = (g * (1 + n // len(g)))[:n] if op not in ("xextmn",) or n < len(g) else g + b" aback" * (n - len(g))
        wide = r.choice(["\u20ac", "\u00e9", "\U0001f511", "\u0660", "\u2003"]).encode()
        if fill in ("wide", "tail", "deep"):       # a character of several bytes, at the front, the end or inside
            k = max(0, n - len(wide))
            g = {"wide": wide + g[:k], "tail": g[:k] + wide, "deep": g[:k // 2] + wide + g[k // 2:k]}[fill]
        b = g if fill in ("good", "wide", "tail", "deep") else rb(r, n) if fill == "rand" else (g[:n // 2] + b"\0" + g[n // 2 + 1:])[:n]
    elif fill == "rand" or op in ("sha2", "mn"):
        b = rb(r, n)
    elif op == "verify" and nom == 67 or op in ("dpk", "addr"):
        b = (bytes([S128, 2, 0]) + rb(r, n))[:n]
    elif op == "verify":
        b = (bytes([0, 0, 0, 3]) + rb(r, n))[:n]
    elif op == "addrok":
        d = bytes([S128, 2, 0]) + rb(r, 32)
        b = ((d + hashlib.sha256(d).digest()[-4:]) * 3)[:n]
    else:
        b = (ext(r) + rb(r, n))[:n]
    return hx(b)


MN = [b""]

def step(c, q, sd):
    r, (op, h) = c.rng, q
    o = "B" if h == "A" else "A"
    if op == "new fast":
        return [new(h, "fast", sd, 4, SHA, 16)]
    if op == "new basic":
        return [new(h, "basic", sd, 4, SHA, 16)]
    if op == "new ext":
        return ["xext %s %s" % (h, hx(bytes([SHA, 2, 0]) + sd))]
    if op == "badheight":
        return [new("X", "fast" if r.random() < .5 else "basic", sd, r.choice([0, 1, 2, 3, 5]), SHA, 16)]
    if op == "badext":
        e = bytes([r.choice([SHA, 7]), r.choice([2, 0x12]), 0]) + sd + (b"" if r.random() < .4 else b"x")
        return ["xext X " + hx(e if e[0] == 7 or e[1] == 0x12 or len(e) != 51 else e[:50])]
    if op == "badtext":
        return [r.choice(["xexthex X " + hx(b"0g" * 51), "xextmn X " + hx(b"aback nosuchword"), "unmn " + hx(b"aback"), "unhex " + hx(b"abc"), "mn 0102", "sha2n 01 0", "dbytes 07"])]
    if op == "badcopy":
        return ["addr 01", "addr " + hx(bytes([9, 9, 9]) + sd), "addrok 00", "dext 00"]
    if op == "badfmt":
        return [new("X", "fast", sd[:47], 4, SHA, 16)]
    if op == "sign":
        return ["xsign %s 0a0b" % h]
    if op == "jump":
        return ["xset %s %d" % (h, 5)]
    if op == "past":
        return ["xset %s 16" % h, "xset %s 4000000000" % h]
    if op == "used up":
        return ["xset %s 15" % h, "xsign %s 01" % h, "xsign %s 02" % h]
    if op == "get":
        return ["xget %s 16" % h]
    if op == "verify":
        return ["verify 00 %s %s 16" % (hx(bytes(r.choice([0, 100, 2308, 2309]))), hx(bytes([SHA, 2, 0]) + rb(r, 64))), "addr " + hx(bytes([SHA, 2, 0]) + rb(r, 64)), "hcs %s 1 3" % hx(sd)]
    if op in ("copy", "move", "assign"):
        return ["x%s %s %s" % (op, o, h)]
    if op == "swap":
        return ["xswap %s %s" % (h, o)]
    return ["xfree " + h]


def rep(n, cmds):
    return "rep %d %s" % (n, "\n".join(cmds).encode().hex())


TIDY = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}


def lives(c):
    rows = c.generate("GenLife", "GenLife.cfg")
    if c.thorough:
        rows += c.rng.sample(c.generate("GenLife", "GenLifeDeep.cfg"), 6000)
    else:
        rows = c.rng.sample(rows, 900)
    out = []
    for k, part in enumerate(chunks(rows, 50)):
        cmds, asan = [], []
        for q in part:
            sd = rb(c.rng, 48)
            s = [x for p in q["path"] for x in step(c, p, sd)] + ["xfree A", "xfree B", "xfree X"]
            cmds.append(rep(8, s))
            asan += s
        out.append(Script("cpp", cmds, label="lives, memory in use", env=dict(TIDY, QRL_SHA_MODE="toy")))
        if k % 4 == 1:
            out.append(Script("rust", asan, label="lives", env={"QRL_SHA_MODE": "toy"}))
            out.append(Script("rust", cmds[:20], label="lives, memory in use", env={"QRL_SHA_MODE": "toy"}))
        if k % 3 == 0:
            out.append(Script("cppmem", asan, label="lives, memory accesses", env={"QRL_SHA_MODE": "toy"}))
            if c.thorough:
                out.append(Script("cppvg", asan[:120], label="lives, initialised memory", env={"QRL_SHA_MODE": "toy"}))
    return out


def calls(c):
    rows = c.generate("GenApi")
    c.rng.shuffle(rows)
    cmds = [q["op"] + " " + " ".join(value(c, q["op"], a) for a in q["args"]) for q in rows]
    cmds = [x.replace("xext ", "xext X ", 1).replace("xexthex ", "xexthex X ", 1).replace("xextmn ", "xextmn X ", 1) for x in cmds]
    return cmds


def objects(impl):
    """Dilithium and Kyber objects: refusals and answers"""
    pk, sk, sig = dil(impl)
    kpk, ksk, ct = kem(impl)
    d = ["dnew A", "dnew B", "dsign A 0102 s", "dsign A - e", "dopen $s $pk.A", "dopen $e $pk.A", "dopen $s $pk.B", "dget A"]
    for n in (0, 1, sig - 1, sig, sig + 1):
        d += ["dopen $s:<%d $pk.A" % n, "dmsg $s:<%d" % n, "dsig $s:<%d" % n]
    for n in (0, 1, pk - 1):
        d += ["dopen $s $pk.A:<%d" % n, "dfrom X $pk.A:<%d $sk.A" % n]
    d += ["dopen $s $pk.A:+00", "dfrom X $pk.A:+00 $sk.A", "dfrom X $pk.A $sk.A:+00", "dfrom X $pk.A $sk.A:<%d" % (sk - 1), "dfrom X - -", "dfrom X $pk.A $sk.A", "dsign X 07 t", "dopen $t $pk.A"]
    k = ["knew A", "knew B", "kenc A $pk.B", "kdec B $ct.A", "kget A", "kget B"]
    for n in (0, 1, kpk - 1):
        k += ["kenc A $pk.B:<%d" % n, "kfrom X $pk.A:<%d $sk.A" % n]
    for n in (0, 1, ct - 1):
        k += ["kenc A $pk.B", "kdec B $ct.A:<%d" % n]
    k += ["kenc A $pk.B:+00", "kdec B $ct.A:+00", "kfrom X $pk.A:+00 $sk.A", "kfrom X $pk.A $sk.A:+00", "kfrom X $pk.A $sk.A:<%d" % (ksk - 1), "kfrom X - -", "kfrom X $pk.A $sk.A", "kenc B $pk.X", "kdec X $ct.B"]
    return d, k


def bindings(c):
    r = c.rng
    sd, pkb = rb(r, 48), bytes([S128, 2, 0]) + rb(r, 64)
    d = bytes([S128, 2, 0]) + rb(r, 32)
    ad = d + hashlib.sha256(d).digest()[-4:]
    e = (bytes([S128, 2, 0]) + sd)
    cm = ["jnew A fast %s 4 1 0 16" % hx(sd), "jget A", "jsign A 01", "jset A 3", "jset A 16", "jnew B basic %s 4 1 0 16" % hx(sd), "jsign B 02 16", "jset B 15", "jsign B 02", "jsign B 03",
          "jnew X fast %s 3 1 0 16" % hx(sd), "jnew X fast %s 4 1 0 16" % hx(sd[:47]), "jenum"]
    for n in (0, 1, 2, 50, 51, 52, 66, 67, 68, 100, 101, 102, 103, 134):
        cm += ["jhex X " + hx((e.hex() * 2).encode()[:n]), "jaddr " + hx((pkb.hex() * 2).encode()[:n]), "jaddrraw " + hx((pkb * 2)[:n])]
    for n in list(range(0, 9)) + [38, 39, 40, 77, 78, 79, 80, 81]:
        t = ("Q" + ad.hex() + "00ff")[:n].encode()
        cm += ["jvalid " + hx(t), "jdesc " + hx(t), "jvalidraw " + hx((ad * 3)[:n]), "jvalid " + hx(t[:n // 2] + b"\xff" + t[n // 2 + 1:] if n else b"")]
    for n in (0, 1, 35, 36, 36 + 67 * 32, 2308, 2309, 2307, 4 + 32 + 34 * 32 + 128, 4 + 32 + 133 * 32 + 128):
        for p in (0, 66, 67, 68):
            for w in (4, 16, 256):
                cm.append("jverify 05 %s %s %d" % (hx(bytes(n)), hx((pkb + b"\0")[:p]), w))
    cm += ["jmn X " + hx(MN[0]), "jmn X " + hx(MN[0][:50]), "jmn X -", "jmn X " + hx(MN[0] + b" aback")]
    return cm


def check(c):
    c.drivers("cpp", "cppmem", "cppvg", "rust", "jsq", "jsqmem", "jsqvg", "pq", "pqasan", "pqvg", "jspq", "jspqasan", "pool")
    with ThreadPoolExecutor(2) as ex:
        ms = [ex.submit(c.model, "Api"), ex.submit(c.model, "Api", "ApiLeaky.cfg", expect_ok=False)]
        for m in ms:
            m.result()
    r = c.rng
    words = [bytes.fromhex(w) for w in json.load(open(os.path.join(tlc.SPEC, "words.json")))]
    e = (bytes([S128, 2, 0]) + rb(r, 48)).hex()
    MN[0] = b" ".join(words[int(e[k:k + 3], 16)] for k in range(0, len(e), 3))
    cm = calls(c)
    scripts = [Script("cppmem", p, label="every call, memory accesses") for p in chunks(cm, 1 + len(cm) // 4)]
    scripts += [Script("cppvg", p, label="every call, initialised memory") for p in chunks(cm, 1 + len(cm) // 6)]
    scripts += [Script("rust", p, label="every call") for p in chunks(cm, 1 + len(cm) // 3)]
    scripts += [Script(i, [rep(5, p) for p in chunks(c.rng.sample(cm, 1200 if c.thorough else 500), 40)], label="every call, memory in use", env=TIDY) for i in ("cpp", "rust")]
    scripts += lives(c)
    sd = rb(r, 48)
    one = [new("A", "fast", sd, 4, S128, 16), "xget A 16", "xsign A 0102 16", "xset A 9", "xset A 16", "xcopy B A", "xsign B 03 16", "xassign A B", "xswap A B", "xset A 15", "xsign A 04 16", "xsign A 05", "xidx A", "xfree A", "xfree B"]
    for w in (4, 16, 256):
        for hf in (SHA, S128, S256):
            vg = [new("A", "basic", sd, 4, hf, w), "xget A %d" % w, "xsign A 0102 %d" % w, "xset A 15", "xsign A 05 %d" % w, "xsign A 06", "xfree A",
                  new("A", "fast", sd, 4, hf, w), "xget A %d" % w, "xsign A 0102 %d" % w, "xset A 7", "xsign A 05 %d" % w, "xsign A - %d" % w, "xfree A"]
            scripts.append(Script("cppmem", vg, label="signers, memory accesses"))
            if c.thorough or (hf, w) in ((SHA, 256), (S128, 16), (S256, 4), (SHA, 4)):
                scripts.append(Script("cppvg", vg, label="signers, initialised memory", env={"QRL_SHA_MODE": "toy"} if hf == SHA else {}))
    scripts += [Script("cppvg", one, label="signers, initialised memory")]
    # whole walks and far jumps, every index range, big messages, on the build that watches memory
    toy = {"QRL_SHA_MODE": "toy"}
    walks = [("cppmem", h, w, k) for h, w, k in ((4, 16, "fast"), (4, 4, "fast"), (4, 256, "basic"), (6, 16, "fast"), (6, 16, "basic"), (8, 16, "fast"), (8, 4, "fast"), (10, 16, "fast"))]
    walks += [("rust", 4, 4, "fast"), ("rust", 6, 16, "basic"), ("rust", 8, 16, "fast"), ("cppvg", 4, 16, "fast"), ("cppvg", 6, 16, "fast")] + ([("cppmem", 12, 16, "fast"), ("cppmem", 12, 256, "fast"), ("cppvg", 8, 16, "fast"), ("rust", 10, 16, "fast")] if c.thorough else [])
    for i, h, w, k in walks:
        n, sd = 2 ** h, rb(r, 48)
        cm2 = [new("A", k, sd, h, SHA, w), "xwalk A %d %d 0102" % (n, w), "xsign A 01 %d" % w] + ["xset A %d" % x for x in (0, 1, n - 1, n, n + 1, 2**31 - 1, 2**31, 2**32 - 1)] + ["xsign A 01"]
        if k == "fast":
            for _ in range(6 if h < 8 else 2 if h < 10 else 0):
                to = sorted(r.sample(range(n), 3))
                cm2 += [new("A", k, sd, h, SHA, w)] + [y for x in to for y in ("xset A %d" % x, "xsign A 0%d %d" % (r.randrange(10), w))] + ["xfree A"]
        scripts.append(Script(i, cm2, label="walks and jumps", env=toy))
    for i in ("cpp", "rust"):
        scripts.append(Script(i, [new("A", k, rb(r, 48), 4, SHA, 16)  for k in ("fast",)] + ["xsignbig A %d 3 16" % n for n in (70000, 1000003, 9000001)], label="big messages", env=toy))
    odd = ["xnew X %s %s %d %d %d %d" % (k, hx(rb(r, n)), h, hf, fm, 16) for k in ("fast", "basic") for n, h, hf, fm in
           [(n, 4, 0, 0) for n in (0, 1, 32, 47, 49, 51, 96, 200)] + [(48, h, 1, 0) for h in (0, 1, 2, 3, 5, 31, 33, 63, 127, 255)] + [(48, 4, 2, f) for f in range(1, 16)] + [(48, 4, hf, 0) for hf in range(3, 16)]]
    scripts += [Script(i, [x for x in odd if "basic" not in x or x.split()[4] in ("4",)], label="parameters", env=toy) for i in ("cppmem", "cppvg", "rust")]
    pools = []
    for size, height, calls_ in ((0, 4, 2), (1, 4, 2), (3, 4, 3), (2, 3, 3), (3, 4, 0), (1, 5, 0)):
        pools.append(rep(8, ["pnew p %s %d 0 %d 0" % (hx(sd), height, size)] + ["pgo 1 next", "pgo 2 next"] * calls_ + ["pgo 3 cur", "pgo 3 avail", "pjoin", "pgo 1 free", "pjoin"]))
    scripts.append(Script("pool", pools, label="pools, memory in use", env=dict(TIDY, QRL_SHA_MODE="toy")))
    b = bindings(c)
    scripts += [Script(i, b, label="bindings") for i in ("jsqmem", "jsqvg")]
    scripts.append(Script("jsq", [rep(15, p) for p in chunks(b, 25)], label="bindings, memory in use", env=TIDY))
    for i in ("pq", "pqasan", "pqvg", "jspq", "jspqasan", "rust"):
        d, k = objects(i)
        if i in ("pq", "jspq", "rust"):
            scripts.append(Script(i, d + k + [rep(15, d), rep(15, k)], label="objects, memory in use", env=TIDY))
        else:
            scripts.append(Script(i, d + k, label="objects"))
    c.replay(scripts, judge="C21", direct=False)
