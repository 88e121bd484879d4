from ..drive import Script, hx
from ..gen import *


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    c.model("MCHashChain")
    r = c.rng
    cmds = []
    seeds = [b"", b"\0", rb(r, 1), rb(r, 32), rb(r, 48), rb(r, 51), rb(r, 127), rb(r, 128), rb(r, 129), rb(r, 135), rb(r, 136), rb(r, 200), rb(r, 264), bytes(48), b"\xff" * 48]
    for s in seeds:
        for sh in (0, 1, r.randrange(2**32)):
            cmds.append("hcs %s %d %d" % (hx(s), sh, r.choice([0, 1, 2, 5])))
    s = rb(r, 48)
    for sh in [0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 65537, 0xffffff, 0x1000000, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff] + [r.randrange(2**32) for _ in range(12 if not c.thorough else 200)]:
        cmds.append("hcs %s %d %d" % (hx(s), sh, 3))
    # the same call with fewer and more, and overlapping shifts
    for n in (0, 1, 2, 3, 4, 7, 16, 64, 65, 100, 255, 256, 257, 258) + ((300, 1000, 4000) if c.thorough else (520,)):
        cmds.append("hcs %s %d %d" % (hx(s), 5, n))
    for sh in (6, 7, 256, 256 + 5, 5 << 8, 5 << 16, 5 << 24):
        cmds.append("hcs %s %d 8" % (hx(s), sh))
    # a seed that ends in what could be a shift
    for t in ("00000000", "01000000", "05000000"):
        cmds += ["hcs %s%s 0 3" % (hx(s), t), "hcs %s 0 3" % hx(s)]
    for _ in range(20 if not c.thorough else 400):
        cmds.append("hcs %s %d %d" % (hx(mb(r, r.randrange(0, 150))), r.choice([r.randrange(2**32), r.randrange(70000)]), r.randrange(0, 9)))
    cmds += neighbours(r, cmds, 25)
    scripts = [Script(i, x, label="hash chain seeds") for i in ("cpp", "rust", "cppasan") for x in chunks(cmds if i != "cppasan" else cmds[::3], 60)]
    scripts += [Script(i, ["hcs %s 1 2" % hx(rb(r, n)) for n in (65528, 65536, 66000)], label="long seeds") for i in ("cpp", "rust")]
    # long lists: every byte of the position takes part
    def at(n, edge):
        ks = sorted({k for k in edge + [r.randrange(n) for _ in range(12)] if k < n})
        return "".join(k.to_bytes(4, "little").hex() for k in ks)
    edge = [0, 1, 127, 128, 255, 256, 257, 4095, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65792, 131071, 131072]
    for n in (32769, 131073):
        scripts += [Script(i, ["hcsat %s %d %d %s" % (hx(s), r.randrange(2**32), n, at(n, edge + [n - 1]))], label="long lists") for i in ("cpp", "rust")]
    if c.thorough:
        scripts += [Script(i, ["hcs %s %d %d" % (hx(s), 70000, 66000)], label="many seeds") for i in ("cpp", "rust")]
    n = 2**24 + 300
    scripts += [Script(i, ["hcsat %s %d %d %s" % (hx(s), r.randrange(2**32), n, at(n, edge + [2**23, 2**24 - 1, 2**24, 2**24 + 1, 2**24 + 256, n - 1]))], label="long lists", timeout=600) for i in ("cpp", "rust")]
    c.replay(scripts)
