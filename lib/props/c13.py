from ..drive import Script, hx
from ..gen import mb, neighbours


def cases(c):
    r = c.rng
    lens = set(range(0, 20)) | set(range(52, 76)) | set(range(116, 140)) | set(range(164, 172)) | {268, 271, 272, 273, 332, 335, 336, 337, 403, 404, 405, 503, 504, 505, 671, 672, 673, 1000, 4096}
    if c.thorough:
        lens |= set(range(0, 700))
    outs = [0, 1, 16, 31, 32, 33, 48, 64, 96, 135, 136, 137, 167, 168, 169, 271, 272, 273, 335, 336, 337, 672, 1000]
    out = []
    for n in sorted(lens):
        b = mb(r, n)
        o = r.choice(outs)
        out.append("shake128 %d %s" % (r.choice(outs), hx(b)))
        out.append("shake256 %d %s" % (r.choice(outs), hx(b)))
        out.append("shake128 32 %s" % hx(b))
        out.append("shake256 32 %s" % hx(b))
        out.append("sha2 %s" % hx(b))
    for o in outs + ([] if not c.thorough else list(range(0, 700, 3))):
        for n in (0, 3, r.randrange(400)):
            b = bytes(r.randrange(256) for _ in range(n))
            out += ["shake128 %d %s" % (o, hx(b)), "shake256 %d %s" % (o, hx(b))]
    for n in (0, 1, 2, 3, 5, 17, 100) + ((1000, 5000) if c.thorough else (257,)):
        for ln in (0, 32, 55, 64, 200):
            out.append("sha2n %s %d" % (hx(mb(r, ln)), n))
    for fill in (b"\0", b"\xff", b"\x80", b"0", b" "):
        for ln in (1, 31, 32, 33, 64, 100):
            b = bytes(r.randrange(256) for _ in range(ln))
            k = r.choice([1, 1, 2, 5])
            for x in (b + fill * k, fill * k + b, fill * (ln + k)):
                out += ["sha2n %s %d" % (hx(x), r.choice([2, 3, 9])), r.choice(["sha2 ", "shake128 32 ", "shake256 32 "]) + hx(x)]
    out += ["sha2n %s %d" % (hx(bytes(r.randrange(256) for _ in range(32))), n) for n in (256, 32769, 65536, 65537)]
    for fill in (0x00, 0xff, 0x80, 0x1f, 0x01):
        for n in (135, 136, 167, 168, 63, 64, 55, 56):
            b = bytes([fill]) * n
            out += ["shake128 40 " + hx(b), "shake256 40 " + hx(b), "sha2 " + hx(b)]
    out += neighbours(r, [x for x in out if len(x) < 800], 40 if not c.thorough else 300)
    for n in (65535, 65536, 65537, 70001):
        b = hx(bytes(r.randrange(256) for _ in range(n)))
        out += ["shake128 32 " + b, "shake256 48 " + b, "sha2 " + b]
    out += ["shake128 65537 00", "shake256 65800 0102"]
    return out


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    c.model("SelfCheck", "SelfCheck.cfg")
    cs = cases(c)
    n = 90
    scripts = []
    for impl in ("cpp", "rust", "cppasan"):
        # the sanitizer build: every third case
        src = cs if impl != "cppasan" else cs[::3]
        for k in range(0, len(src), n):
            scripts.append(Script(impl, src[k:k + n], label="hash values"))
    c.replay(scripts)
    # one process computes everything in another order: no state carries over
    sh = cs[:]
    c.rng.shuffle(sh)
    c.replay([Script(i, sh[:200], label="hash values, shuffled") for i in ("cpp", "rust")])
