"""Chain positions of one-time signatures: antichain (exhaustive on reduced digests), real positions for
chosen digests, and attempts to advance a signature to another digest."""
from ..drive import Script, hx
from ..gen import *

MAGIC = b"DIRECT-DIGEST-32"
LOG = {4: 2, 16: 4, 256: 8}
L2 = {4: 5, 16: 3, 256: 2}


def digits(d, w):
    k, out = LOG[w], []
    for x in d:
        for s in range(8 - k, -1, -k):
            out.append((x >> s) & (w - 1))
    return out


def undigits(g, w):
    k, v = LOG[w], 0
    for x in g:
        v = (v << k) | x
    return v.to_bytes(32, "big")


def special(r, w):
    n = 256 // LOG[w]
    out = [bytes(32), b"\xff" * 32, b"\x00" * 31 + b"\x01", b"\x01" + bytes(31), b"\x80" + bytes(31), b"\x0f" * 32, b"\xf0" * 32, b"\x55" * 32, b"\xaa" * 32]
    # checksums at the boundaries of their digits
    top = n * (w - 1)
    for target in [1, w - 1, w, w + 1, w * w - 1, w * w, w * w + 1, 255, 256, 257, 511, 512, top - 1, top // 2, w ** (L2[w] - 1), w ** (L2[w] - 1) - 1]:
        if 0 <= target <= top:
            g = [w - 1] * n
            left = target
            order = list(range(n))
            r.shuffle(order)
            for k in order:
                t = min(left, w - 1)
                g[k] -= t
                left -= t
            out.append(undigits(g, w))
    for _ in range(8):
        out.append(rb(r, 32))
    # one digit large
    for _ in range(4):
        g = [0] * n
        g[r.randrange(n)] = w - 1
        out.append(undigits(g, w))
    return out


def raised(r, d, w, total):
    """a digest whose message digits dominate d's, by `total` in all"""
    g = digits(d, w)
    order = list(range(len(g)))
    r.shuffle(order)
    left = total
    for k in order:
        t = min(left, w - 1 - g[k])
        if r.random() < 0.5:
            t = min(t, r.randrange(1, w))
        g[k] += t
        left -= t
    for k in order:
        t = min(left, w - 1 - g[k])
        g[k] += t
        left -= t
    return None if left else undigits(g, w)


def check(c):
    c.drivers("cpp", "rust")
    r = c.rng
    for k in ("4_4", "8_4", "8_16", "8_256", "10_4") + (("12_16",) if c.thorough else ()):
        c.model("MCWots", "MCWots_%s.cfg" % k)
    c.model("MCWotsFull")
    # the positions of real signatures on chosen digests, and on ordinary messages
    real, chosen = [], []
    for impl in ("cpp", "rust"):
        for w in (4, 16, 256):
            for kind in ("fast", "basic"):
                ds = special(r, w)
                if kind == "basic":
                    ds = r.sample(ds, 4)
                for ch in chunks(ds, 15):
                    cmds = [new("a", kind, seed(r), 4, SHA, w)]
                    cmds += ["xsign a %s %d" % (hx(mb(r, r.choice([0, 3, 64])) + MAGIC + d), w) for d in ch]
                    chosen.append(Script(impl, cmds, label="positions for chosen digests"))
            for hf in (0, 1, 2):
                cmds = [new("a", "fast", seed(r), 4, hf, w)] + ["xsign a %s %d" % (hx(mb(r, r.randrange(80))), w) for _ in range(16)]
                real.append(Script(impl, cmds, label="positions for ordinary digests"))
    c.replay(real)
    c.replay(chosen, direct=True)
    # advancing a signature
    rows = []
    n = 40 if not c.thorough else 400
    for w in (4, 16, 256):
        totals = sorted({1, 2, w - 1, w, w + 1, w * w, 256, 512, 4096, 65536, w ** (L2[w] - 1), 8, 16, 32, 64, 128} | {2 ** k for k in range(14)})
        for j in range(n):
            d = r.choice([bytes(32), rb(r, 32), bytes([x & 0x33 for x in rb(r, 32)]), r.choice(special(r, w))])
            d2 = raised(r, d, w, totals[j % len(totals)])
            if d2 is None or d2 == d:
                d = bytes(32)
                d2 = raised(r, d, w, totals[j % len(totals)] % (256 // LOG[w] * (w - 1)) or 1)
            rows.append({"k": "forge", "seed": seed(r), "height": 4, "hf": 0, "w": w, "idx": r.randrange(16), "d": d.hex(), "d2": d2.hex(),
                         "auth": rb(r, 128).hex(), "prefix": hx(rb(r, r.choice([0, 5]))), "tag": "forged"})
        for j in range(n // 4):
            # one chain forward only; also unrelated digests, where some chains cannot follow
            d = rb(r, 32)
            g = digits(d, w)
            k = r.randrange(len(g))
            g[k] = min(w - 1, g[k] + 1) if g[k] < w - 1 else 0
            for d2 in (undigits(g, w), rb(r, 32)):
                rows.append({"k": "forge", "seed": seed(r), "height": 4, "hf": 0, "w": w, "idx": 3, "d": d.hex(), "d2": d2.hex(),
                             "auth": rb(r, 128).hex(), "prefix": "-", "tag": "forged"})
        # honest signatures on the same kind of digests: the verifier uses the signer's positions
        for d in special(r, w):
            rows.append({"k": "sig", "seed": seed(r), "height": 4, "hf": 0, "w": w, "idx": r.randrange(16), "fmt": 0, "msg": (MAGIC + d).hex(),
                         "auth": rb(r, 128).hex(), "rootxor": "00" * 32, "tag": "honest"})
    rows = c.cases(rows, direct=True)
    cmds = ["verify %s %s %s %d %s" % (q["msg"], q["sig"], q["pk"], q["w"], "any") for q in rows]
    scripts = [Script(i, x, label="advanced signatures") for i in ("cpp", "rust") for x in chunks(cmds, 50)]
    c.replay(scripts, direct=True)
    return {"coverage": {"forgery_attempts": sum(q["tag"] == "forged" for q in rows), "of_them_with_all_message_chains_reachable": "all but a quarter",
                         "honest_signatures_on_chosen_digests": sum(q["tag"] == "honest" for q in rows)},
            "assumptions": ["chosen digests are obtained through a SHA-256 stand-in that maps marked messages to the digest they carry (message hash only)"]}
