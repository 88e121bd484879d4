"""Signing index: TLC explores the index machine, every one of its transitions is replayed on the
real signers, and random histories are judged by the trace specification."""
from ..drive import Script, hx
from ..gen import *


def transition_scripts(c, impl, rows):
    """One test per transition of the specified machine: reach the pre-state, make the call, probe."""
    r, out = c.rng, []
    sd = seed(r)
    cmds, n = [], 0

    def flush():
        nonlocal cmds
        if cmds:
            out.append(Script(impl, cmds, label="one test per transition"))
        cmds = []
    loops = {}
    for t in rows:
        kind, pre, post = t["kind"], t["pre"], t["post"]
        if t["call"] == "set" and post == pre and kind == "fast":
            loops.setdefault((kind, pre), []).append(t["arg"])
            continue
        n += 1
        h = "t%d" % n
        cmds.append(new(h, kind, sd, 4, SHA, 16))
        if pre:
            if kind == "basic":
                cmds += ["xset %s %d" % (h, pre - 1), "xsign %s aa" % h]
            elif pre == 16:
                cmds += ["xset %s 15" % h, "xsign %s aa" % h]
            elif r.random() < 0.5:
                cmds.append("xset %s %d" % (h, pre))
            else:
                k = r.randrange(pre)
                cmds += (["xset %s %d" % (h, k)] if k else []) + ["xsign %s aa" % h] * (pre - k)
        cmds.append("xsign %s bb" % h if t["call"] == "sign" else "xset %s %d" % (h, t["arg"]))
        cmds += ["xidx %s" % h, "xsign %s aa" % h, "xidx %s" % h, "xfree %s" % h]
        if len(cmds) > 150:
            flush()
    # refused calls and jumps to the current index: all of them at every index, on one signer
    for kind in ("fast",):
        h = "L"
        cmds.append(new(h, kind, sd, 4, SHA, 16))
        for i in range(17):
            for a in loops.get((kind, i), []):
                cmds.append("xset %s %d" % (h, a if a < 2**31 - 1 else r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32 - 2])))
            cmds += ["xidx " + h, "xsign %s aa" % h, "xidx " + h]
        cmds += ["xsign %s aa" % h] * 3
        flush()
    return out


def history(c, impl, kind, height, hf, w, steps, toy=True):
    r = c.rng
    n = 2 ** height
    cmds = [new("a", kind, seed(r), height, hf, w)]
    idx, live = 0, ["a"]
    pos = {"a": 0}
    texts = [hx(mb(r, k)) for k in (1, 65, 130, 400)]
    for _ in range(steps):
        h = r.choice(live)
        i = pos[h]
        x = r.random()
        if x < 0.35:
            # messages repeat: signing the same one again is a new signature
            cmds.append("xsign %s %s" % (h, r.choice(texts) if r.random() < 0.6 else hx(rb(r, r.choice([0, 1, 3])))))
            pos[h] = min(i + 1, n)
        elif x < 0.55:
            t = min(n - 1, i + r.choice([0, 1, 1, 2, 3, 5, n // 4]))
            cmds.append("xset %s %d" % (h, t))
            pos[h] = max(t, i) if i < n else i
        elif x < 0.85:
            if kind == "fast":
                t = r.choice([max(i - 1, 0), 0, n, n + 1, 2**31, 2**32 - 1, i // 2, 2 * n, n + i, 65536 * n + i, 256 * n + i])
                cmds.append("xset %s %d" % (h, t))
                if t >= i and t < n:
                    pos[h] = t
            else:
                t = r.randrange(n)
                cmds.append("xset %s %d" % (h, t))
                pos[h] = t
        elif x < 0.9 and impl != "rust" and len(live) < 3:
            m = "a%d" % len(live)
            cmds.append("xcopy %s %s" % (m, h))
            live.append(m)
            pos[m] = i
        elif x < 0.92 and impl != "rust":
            m = r.choice(live)
            if r.random() < 0.5:
                cmds.append("xassign %s %s" % (m, h))
                pos[m] = i
            elif m != h:
                cmds.append("xswap %s %s" % (m, h))
                pos[m], pos[h] = pos[h], pos[m]
        else:
            cmds.append("xidx " + h)
    h = live[0]
    # to the end and past it
    if kind == "basic" or pos[h] < n - 3:
        cmds.append("xset %s %d" % (h, n - 2))
    cmds += ["xsign %s %s" % (h, r.choice(["01", texts[2]]))] * 4 + ["xset %s %d" % (h, n - 1), "xset %s %d" % (h, n), "xidx " + h]
    return Script(impl, cmds, label="random histories %s h=%d" % (kind, height))


def boundary(c, impl, kind, height, w=0):
    """index byte boundaries and the last keys"""
    n = 2 ** height
    cmds = [new("a", kind, seed(c.rng), height, SHA, w or (4 if kind == "fast" else 16))]
    marks = [x for x in (255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65279, 65280, 65535, 65536, 131071, 131072, n // 2 - 1, n // 2, n - 2) if x < n]
    for m in sorted(set(marks)):
        cmds += ["xset a %d" % m, "xsign a 00", "xset a %d" % m, "xsign a 01", "xidx a"]
    cmds += ["xset a %d" % (n - 1), "xsign a 02", "xsign a 02", "xsign a 02", "xset a %d" % (n - 1), "xset a %d" % n, "xset a 0", "xidx a"]
    return Script(impl, cmds, label="index boundaries h=%d" % height, timeout=300)


def check(c):
    c.drivers("cpp", "rust")
    c.model("MCSigner")
    rows = c.generate("GenSigner")
    scripts = []
    for impl in ("cpp", "rust"):
        scripts += transition_scripts(c, impl, rows)
    # the index of the basic signer is four big-endian bytes, whatever the tree
    for impl in ("cpp", "rust"):
        cmds = [new("b", "basic", seed(c.rng), 4, SHA, 16)]
        for v in (1, 15, 255, 256, 65535, 65536, 0x01020304, 0x7ffffffe, 3):
            cmds += ["xset b %d" % v, "xidx b"]
        cmds += ["xset b 14", "xsign b 00", "xsign b 01", "xsign b 02", "xidx b", "xset b 15", "xsign b 01"]
        scripts.append(Script(impl, cmds, label="basic index bytes"))
    k = 6 if not c.thorough else 40
    for impl in ("cpp", "rust"):
        for j in range(k):
            scripts.append(history(c, impl, "fast", c.rng.choice([4, 4, 6, 8]), SHA, c.rng.choice([4, 16]), 40))
        for j in range(k // 2):
            scripts.append(history(c, impl, "basic", 4, SHA, 16, 25))
        for h in (10, 12) + ((14,) if c.thorough else ()):
            scripts.append(boundary(c, impl, "fast", h, 16 if h > 10 else 0))
        scripts.append(boundary(c, impl, "basic", 8))
        if c.thorough:
            scripts.append(boundary(c, impl, "basic", 10))
    c.replay(scripts, toy=True)
    real = []
    for impl in ("cpp", "rust"):
        for hf in (0, 1, 2):
            real.append(history(c, impl, "fast", 4, hf, c.rng.choice([4, 16]), 25))
    c.replay(real)
    return {"coverage": {"transitions_of_the_index_machine_replayed": len(rows)},
            "assumptions": ["large trees use a toy hash in place of SHA-256 (the index logic does not look at hash values)"]}
