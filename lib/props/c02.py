from ..drive import Script, hx
from ..gen import *


def all_indices(c, impl, kind, height, hf, w, lens):
    r = c.rng
    cmds = [new("a", kind, seed(r), height, hf, w)]
    for i in range(2 ** height):
        cmds.append("xsign a %s %d" % (hx(mb(r, r.choice(lens))), w))
    cmds.append("xget a %d" % w)
    return Script(impl, cmds, label="every index %s h=%d" % (kind, height))


def copied(c, impl, kind, height, hf, w, idxs, walk):
    """objects copied, assigned, moved and exchanged at some index; all of them go on signing, the source first or last"""
    r = c.rng
    n = 2 ** height
    m = lambda: hx(mb(r, r.choice([0, 1, 33])))
    on = (lambda h: ["xwalk %s %d %d %s" % (h, n, w, m())]) if walk else (lambda h: ["xsign %s %s %d" % (h, m(), w)] * 2)
    cmds = []
    for k, i in enumerate(idxs):
        cmds += [new("a", kind, seed(r), height, hf, w)] + (["xset a %d" % i] if i else [])
        if i < n - 1 and r.random() < 0.5:
            cmds += ["xsign a %s %d" % (m(), w)]
        how = k % 5
        if how == 0:
            cmds += ["xcopy b a"] + on("b") + on("a")
        elif how == 1:
            cmds += ["xcopy b a", "xfree a"] + on("b")
        elif how == 2:
            z = r.choice([x for x in (4, 6, 8) if x != height])
            cmds += [new("b", kind, seed(r), z, r.choice([hf, SHA]), w), "xset b 1", "xassign b a"] + on("a") + on("b")
        elif how == 3:
            cmds += ["xmove b a", "xcopy a b", "xassign b b"] + on("b") + on("a")
        else:
            cmds += [new("b", kind, seed(r), height, hf, w), "xsign b %s %d" % (m(), w), "xswap a b"] + on("a") + on("b")
        cmds += ["xfree a", "xfree b"]
    return Script(impl, cmds, label="copies %s h=%d" % (kind, height), timeout=400)


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    r = c.rng
    lens = [0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 100, 135, 136, 137, 167, 168, 169, 200, 300, 500, 1000]
    real = []
    ws = (4, 16, 256)
    for impl in ("cpp", "rust"):
        for hf in (0, 1, 2):
            for w in ws:
                real.append(all_indices(c, impl, "fast", 4, hf, w, lens))
        for w in ws:
            real.append(all_indices(c, impl, "basic", 4, r.randrange(3), w, lens) if w != 256 or c.thorough else
                        Script(impl, [new("a", "basic", seed(r), 4, SHA, w)] + ["xset a %d" % 13] + ["xsign a %s %d" % (hx(rb(r, n)), w) for n in (0, 32, 64)], label="basic w=256"))
        if c.thorough:
            for hf in (0, 1, 2):
                real.append(all_indices(c, impl, "fast", 6, hf, 16, lens))
                real.append(all_indices(c, impl, "fast", 8, hf, r.choice(ws[:2]), lens))
    # message lengths: every length around the hash block boundaries
    for impl in ("cpp", "rust"):
        for hf in (0, 1, 2):
            cmds = [new("a", "fast", seed(r), 8 if c.thorough else 6, hf, 4)]
            for n in r.sample(range(0, 420), 250 if c.thorough else 60):
                cmds.append("xsign a %s 4" % hx(mb(r, n)))
            real.append(Script(impl, cmds, label="message lengths"))
        big = [new("a", "fast", seed(r), 4, r.choice([0, 1, 2]), 16)] + ["xsignbig a %d %d 16" % (n, r.randrange(256)) for n in (0, 1, 4096, 65535, 65536, 70000, 1 << 20, 9 << 20)]
        real.append(Script(impl, big, label="large messages"))
        big = [new("a", "basic", seed(r), 4, 0, 16)] + ["xsignbig a %d %d 16" % (n, r.randrange(256)) for n in (65536, 9 << 20)]
        real.append(Script(impl, big, label="large messages, basic"))
    cmds = [new("a", "fast", seed(r), 4, 0, 16)] + ["xsign a %s 16" % hx(rb(r, n)) for n in (0, 1, 64, 200)] + [new("b", "basic", seed(r), 4, 0, 4), "xsign b 00 4"]
    real.append(Script("cppasan", cmds, label="sanitizer"))
    for impl in ("cpp", "cppasan"):
        real += [copied(c, impl, "fast", 4, r.randrange(3), r.choice([4, 16]), ix, False) for ix in chunks(r.sample(range(15), 10), 5)]
        real.append(copied(c, impl, "basic", 4, r.randrange(3), 4, r.sample(range(15), 3), False))
    # sizes announced
    sz = []
    for w in ws:
        base = 36 + 32 * {4: 133, 16: 67, 256: 34}[w]
        sz.append("basesz %d" % w)
        for s in [0, 3, 4, 35, 36, base - 32, base - 1, base, base + 1, base + 31] + [base + 32 * k for k in range(1, 41)] + [base + 32 * k + r.randrange(1, 32) for k in range(12)] + [base + 32 * 254]:
            sz.append("hfs %d %d" % (s, w))
    real += [Script(i, sz, label="sizes") for i in ("cpp", "rust")]
    c.replay(real)
    # larger trees, every index signed and verified on the spot (toy hash)
    toy = []
    for h, k, w in ((4, 16, 4), (6, 15, 16), (8, 10, 4)) if not c.thorough else ((4, 16, 4), (6, 64, 16), (8, 40, 4), (10, 15, 4)):
        for ix in chunks(r.sample(range(2 ** h), k), 5):
            toy.append(copied(c, "cpp", "fast", h, SHA, w, ix, True))
    toy.append(copied(c, "cpp", "basic", 4, SHA, 4, r.sample(range(16), 5), True))
    hs = [(6, 4), (6, 16), (6, 256), (8, 16), (8, 4), (10, 4), (8, 256), (10, 16), (12, 16)] + ([(10, 256), (12, 4), (14, 4)] if c.thorough else [])
    for impl in ("cpp", "rust"):
        for h, w in hs:
            n = 2 ** h
            toy.append(Script(impl, [new("a", "fast", seed(r), h, SHA, w), "xwalk a %d %d %s" % (n, w, hx(rb(r, 20)))], label="walk over every index", timeout=800))
        toy.append(Script(impl, [new("a", "basic", seed(r), 6, SHA, 16), "xwalk a 64 16 aa"], label="walk basic"))
        # the basic signer at unusual indices of a larger tree
        h = 8
        toy.append(Script(impl, [new("a", "basic", seed(r), h, SHA, 4)] + [x for k in r.sample(range(2**h), 6) for x in ("xset a %d" % k, "xsign a 00 4")], label="basic, scattered indices"))
        # a stack as small, against this tree, as the usual one of 8 MB is against a tree of height 18: nothing on it may grow with the tree
        h, kb = (12, 224) if impl == "cpp" else (12, 240)
        for kind in ("basic", "fast"):
            toy.append(Script(impl, [new("a", kind, seed(r), h, SHA, 4), "xset a %d" % r.randrange(2**h - 2), "xsign a %s 4" % hx(rb(r, 30)), "xsign a 00 4"], {"VERIF_STACK_KB": str(kb)}, label="tall tree, small stack", timeout=200))
        for h in (12,) + ((14, 16) if c.thorough else (14,) if impl == "cpp" else ()):
            marks = sorted({k for k in (255, 256, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65279, 65535, 65536, 131071, 131072, 2**h - 2) if k < 2**h - 1} | set(r.sample(range(2**h - 1), 6)))
            toy.append(Script(impl, [new("a", "fast", seed(r), h, SHA, 16)] + [x for k in marks for x in ("xset a %d" % k, "xsign a %s 16" % hx(rb(r, 5)))] + ["xsign a 00 16"], label="index boundaries h=%d" % h, timeout=850))
        if c.thorough and impl == "cpp":
            toy.append(Script(impl, [new("a", "basic", seed(r), 16, SHA, 4), "xset a 65535", "xsign a 00 4"], label="basic, tall tree", timeout=900))
    c.replay(toy, toy=True)
    # many keys: whatever bytes root, seeds and digests happen to have
    many = []
    for impl in ("cpp", "rust"):
        for _ in range(12 if not c.thorough else 60):
            cmds = []
            for k in range(60):
                cmds += [new("a", "fast", keyed(r) if k % 3 == 0 else seed(r), 4, SHA, 4), "xset a %d" % r.randrange(15), "xsign a %s 4" % hx(mb(r, 33)), "xsign a %s 4" % hx(mb(r, 5))]
            many.append(Script(impl, cmds, label="many keys"))
    c.replay(many, toy=True)
    # signatures of one implementation verified by the other
    xs = [Script(i, [new("a", "fast", seed(r), 4, hf, w), "xset a %d" % r.randrange(16), "xsign a %s %d" % (hx(mb(r, 40)), w)], label="signed here") for i in ("cpp", "rust") for hf in (0, 1, 2) for w in (4, 16)]
    shards = c.replay(xs)
    ver = {"cpp": [], "rust": []}
    for s, sh in zip([x for x in xs if x.impl in c.drv.cmd], shards):
        e = sh[-1]
        if e["op"] == "xsign" and e["a"].get("sig"):
            for i in ver:
                if i != s.impl:
                    ver[i].append("verify %s %s %s %d yes" % (e["msg"], e["a"]["sig"], e["a"]["pk"], e["w"]))
    c.replay([Script(i, v, label="verified by the other implementation") for i, v in ver.items() if v])
    return {"assumptions": ["trees above height 8 are exercised with a toy hash in place of SHA-256"]}
