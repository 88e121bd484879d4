"""A signature does not depend on how its index was reached."""
from ..drive import Script, hx
from ..gen import *

M = "c0ffee"


def reference(height, sd, hf, w, h="ref"):
    return [new(h, "fast", sd, height, hf, w)] + ["xsign %s %s" % (h, M)] * (2 ** height)


def path(c, h, sd, height, hf, w, stops, tail=2):
    """visit the given indices (jumping), sign a few there, go on"""
    n = 2 ** height
    cmds = [new(h, "fast", sd, height, hf, w)]
    for (i, k) in stops:
        cmds.append("xset %s %d" % (h, i))
        cmds += ["xsign %s %s" % (h, M)] * min(k, n - i)
    return cmds + ["xfree " + h]


def random_stops(r, n, m):
    out, i = [], 0
    while i < n and len(out) < m:
        i += r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, n // 8, n // 4, n // 2 + 1])
        if i >= n:
            break
        k = r.choice([0, 0, 1, 1, 1, 2, 3, 5])
        out.append((i, k))
        i += k
    return out or [(0, 1)]


def copied(c, sd, height, hf, w, idxs):
    """the same signatures from copies, assigned and exchanged objects"""
    r = c.rng
    n = 2 ** height
    k = min(n, 20)
    sign = lambda h, i: ["xsign %s %s" % (h, M)] * min(k, n - i)
    cmds = reference(height, sd, hf, w)
    for t, i in enumerate(idxs):
        cmds += [new("a", "fast", sd, height, hf, w), "xset a %d" % i]
        if t % 4 == 0:
            cmds += ["xcopy b a"] + sign("a", i) + sign("b", i)
        elif t % 4 == 1:
            z = r.choice([x for x in (4, 6, 8) if x != height])
            cmds += [new("b", "fast", seed(r), z, hf, w), "xassign b a", "xfree a"] + sign("b", i)
        elif t % 4 == 2:
            cmds += ["xmove b a"] + sign("b", i)
        else:
            j = r.randrange(n)
            cmds += [new("b", "fast", sd, height, hf, w), "xset b %d" % j, "xswap a b"] + sign("a", j) + sign("b", i)
        cmds += ["xfree a", "xfree b"]
    return Script("cpp", cmds, label="copies h=%d" % height, timeout=400)


def check(c):
    c.drivers("cpp", "rust")
    r = c.rng
    for k in ("4_2", "6_2", "6_4", "8_2", "10_2") + (("12_2", "14_2") if c.thorough else ()):
        c.model("MCBds", "MCBds_%s.cfg" % k, timeout=800)
    toy = []
    for impl in ("cpp", "rust"):
        # every pair (i, j): jump to i, then to j, sign there; the rest of the tree from j for some
        sd = seed(r)
        n = 16
        cmds = reference(4, sd, SHA, 4)
        for i in range(n):
            for j in range(i, n):
                cmds += path(c, "p", sd, 4, SHA, 4, [(i, 0), (j, n if (i + j) % 5 == 0 else 2)])
                if i < j:
                    cmds += path(c, "p", sd, 4, SHA, 4, [(i, 1), (j, 1)])
        toy.append(Script(impl, cmds, label="all pairs of jumps h=4"))
        sd = seed(r)
        pairs = [(i, j) for i in range(64) for j in range(i, 64)]
        if not c.thorough:
            pairs = r.sample(pairs, 240)
        for ch in chunks(pairs, 120):
            cmds = reference(6, sd, SHA, 4)
            for i, j in ch:
                cmds += path(c, "p", sd, 6, SHA, 4, [(i, r.choice([0, 0, 1, 2])), (j, 3)] if i + 2 < j else [(i, 0), (j, 3)])
            toy.append(Script(impl, cmds, label="pairs of jumps h=6"))
        for h, paths in ((6, 10), (8, 8), (10, 6), (12, 2)) if not c.thorough else ((6, 60), (8, 40), (10, 20), (12, 6), (14, 2)):
            for rep in range(1 if not c.thorough else 2):
                sd = seed(r)
                cmds = reference(h, sd, SHA, 4)
                for k in range(paths):
                    cmds += path(c, "p", sd, h, SHA, 4, random_stops(r, 2 ** h, 40))
                toy.append(Script(impl, cmds, label="random paths h=%d" % h, timeout=800))
        # single jumps to the far end, then to the end of the tree one by one
        h = 8
        sd = seed(r)
        cmds = reference(h, sd, SHA, 16)
        for i in (1, 2, 3, 100, 127, 128, 129, 191, 192, 250):
            cmds += path(c, "p", sd, h, SHA, 16, [(i, 40)])
        toy.append(Script(impl, cmds, label="one jump h=8"))
    for h, k in ((4, 16), (6, 16), (8, 8)) if not c.thorough else ((4, 16), (6, 64), (8, 40), (10, 12)):
        for ix in chunks(r.sample(range(2 ** h), k), 8):
            toy.append(copied(c, seed(r), h, SHA, 4, ix))
    c.replay(toy, toy=True)
    real = []
    for impl in ("cpp", "rust"):
        for hf in (0, 1, 2):
            sd = seed(r)
            w = r.choice([4, 16])
            cmds = reference(4, sd, hf, w)
            for k in range(6):
                cmds += path(c, "p", sd, 4, hf, w, random_stops(r, 16, 10))
            real.append(Script(impl, cmds, label="real hashes h=4"))
    for hf in (0, 1, 2):
        real.append(copied(c, seed(r), 4, hf, 4, r.sample(range(15), 4)))
    c.replay(real)
    return {"assumptions": ["trees of height 6 and above use a toy hash in place of SHA-256"]}
