from ..drive import Script, hx
from ..gen import *


def check(c):
    c.drivers("cpp", "rust")
    c.model("SelfCheck")
    r = c.rng
    out = []

    def script(impl, kind, sd, height, hf, w, idxs, msgs):
        cmds = [new("a", kind, sd, height, hf, w), "xget a %d" % w]
        for i, m in zip(idxs, msgs):
            cmds += ["xset a %d" % i, "xsign a %s" % m]
        cmds.append("xget a %d" % w)
        out.append(Script(impl, cmds, label="values %s h=%d" % (kind, height)))
    params = [(4, hf, w) for hf in (0, 1, 2) for w in (4, 16, 256)] + [(6, 1, 16), (6, 0, 4), (6, 2, 16), (8, 1, 16), (8, 0, 4), (10, 1, 4), (10, 2, 16)]
    if c.thorough:
        params += [(12, 0, 4)] + [(10, hf, w) for hf in (0, 1, 2) for w in (4, 16)] + [(6, hf, w) for hf in (0, 1, 2) for w in (4, 16, 256)] + [(4, hf, w) for hf in (0, 1, 2) for w in (4, 16, 256)] * 3
    for h, hf, w in params:
        sd = seed(r)
        n = 2 ** h
        idxs = sorted(r.sample(range(n), 5)) + [n - 1]
        msgs = [hx(mb(r, r.choice([0, 1, 32, 63, 64, 100, 136, 168, 300]))) for _ in idxs]
        for impl in ("cpp", "rust"):
            script(impl, "fast", sd, h, hf, w, idxs, msgs)
            if h <= 8 or c.thorough and h == 10:
                script(impl, "basic", sd, h, hf, w, [idxs[0], idxs[-1]] + ([idxs[2]] if w != 256 and h <= 6 else []), [msgs[0], msgs[-1], msgs[2]])
    # special seeds
    for sd in ("00" * 48, "ff" * 48, "".join("%02x" % k for k in range(48))):
        for impl in ("cpp", "rust"):
            script(impl, "fast", sd, 4, 1, 16, [0, 1, 2, 3, 7, 8, 15], [hx(mb(r, 5)) for _ in range(7)])
    # seeds whose derived keys begin or end with special bytes
    for at in (0, 31, 32, 63, 64, 95):
        for val in (0, 255):
            sd, hf, w = keyed(r, at, val), r.choice([0, 1, 2]), r.choice([4, 16])
            for impl in ("cpp", "rust"):
                script(impl, "fast", sd, 4, hf, w, [r.randrange(8), 15], [hx(mb(r, 5)) for _ in range(2)])
            script(("cpp", "rust")[at % 2], "basic", sd, 4, hf, w, [r.randrange(16)], [hx(mb(r, 5))])
    # all signatures of one tree in order
    for impl in ("cpp", "rust"):
        for hf in (0, 1, 2):
            out.append(Script(impl, [new("a", "fast", seed(r), 4 if not c.thorough else 6, hf, 16)] + ["xsign a %s" % hx(mb(r, 33))] * (16 if not c.thorough else 64), label="whole tree"))
    # another w after construction
    for impl in ("cpp", "rust"):
        out.append(Script(impl, [new("a", "fast", seed(r), 4, 1, 16), "xsign a 00", "xinit a 4", "xsign a 01", "xget a 4", "xinit a 16", "xsign a 02", "xset a 9", "xsign a 03"], label="re-initialised tree"))
    c.replay(out)
    # larger trees: only that implementations and signers agree among themselves (toy hash)
    toy = []
    for h in (10, 12) + ((14,) if c.thorough else ()):
        sd = seed(r)
        idxs = sorted(r.sample(range(2**h), 8))
        for impl in ("cpp", "rust"):
            toy.append(Script(impl, [new("a", "fast", sd, h, 0, 4)] + [x for i in idxs for x in ("xset a %d" % i, "xsign a aabb")], label="agreement h=%d" % h, timeout=800))
            if h <= (10 if not c.thorough else 12):
                toy.append(Script(impl, [new("b", "basic", sd, h, 0, 4)] + [x for i in idxs[::3] for x in ("xset b %d" % i, "xsign b aabb")], label="agreement h=%d" % h, timeout=800))
    sh = c.replay(toy, toy=True)
    # the same events of both implementations in one history: same key, index and message, same signature
    both = {}
    for s, evs in zip([t for t in toy if t.impl in c.drv.cmd], sh):
        both.setdefault(s.label, []).append([dict(e, h=e["h"] + s.impl) for e in evs])
    merged = [sum(v, []) for v in both.values() if len(v) >= 2]
    c.judge(merged, toy=True, label="C++ and Rust in one history")
    return {"assumptions": ["SHA-256 itself (PicoSHA2, sha2 crate) is a stand-in checked against the TLA+ definition in C13"]}
