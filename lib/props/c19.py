"""Objects are independent: every history of two signers, their copies and moved ones answers like each signer does
alone in a process of its own; calls that are functions answer the same wherever they stand, after whatever failed,
and on several threads at once; what was passed in and what was returned stays as it was."""
from hashlib import sha256
from ..drive import Script, hx
from ..gen import *

M = "c0ffee"
T = lambda s: hx(s.encode())


def reference(k, q, msg=M):
    """a signer alone: every signature of it (of a taller tree, the first)"""
    cmds = [new("r%d" % k, "fast", q["seed"], q.get("h", 4), q["hf"], q["w"]), "xget r%d %d" % (k, q["w"])]
    cmds += ["xsign r%d %s" % (k, msg) for _ in range(16)]
    return cmds


def history(r, path, qs, ab, pures, tag):
    """one generated history as commands; handles get a prefix of their own; the key pair each handle stands for is tracked"""
    cmds, who, idx = [], {}, {}
    n = lambda h: tag + h
    for h in "ab":
        who[h], idx[h] = ab[h], 0
        q = qs[ab[h]]
        cmds.append(new(n(h), "fast", q["seed"], 4, q["hf"], q["w"]))
    if r.random() < 0.5:
        for h in "ab":
            i = r.randrange(0, 9)
            idx[h] = i
            cmds.append("xset %s %d" % (n(h), i))
    for s in path:
        op, h, g = s["op"], s["h"], s["g"]
        if op == "sign":
            cmds.append("xsign %s %s" % (n(h), M))
            idx[h] += 1
        elif op == "jump":
            idx[h] = min(13, idx[h] + r.choice([0, 1, 2]))
            cmds.append("xset %s %d" % (n(h), idx[h]))
        elif op == "swap":
            cmds.append("xswap %s %s" % (n(h), n(g)))
            who[h], who[g], idx[h], idx[g] = who[g], who[h], idx[g], idx[h]
        elif op in ("copy", "assign", "move"):
            cmds.append("x%s %s %s" % (op, n(h), n(g)))
            who[h], idx[h] = who[g], idx[g]
            if op == "move":
                del who[g], idx[g]
        else:
            cmds.append("xfree %s" % n(h))
            del who[h], idx[h]
        if r.random() < 0.3:
            cmds.append(r.choice(pures))
    live = sorted(who)
    for h in live:
        cmds.append("xget %s %d" % (n(h), qs[who[h]]["w"]))
    for _ in range(2):
        r.shuffle(live)
        cmds += ["xsign %s %s" % (n(h), M) for h in live]
    cmds += ["xfree %s" % n(h) for h in live]
    return cmds


def failing(r, pk, sig):
    """calls that must be refused, or answer no"""
    ext = bytes([1, 2, 0]) + rb(r, 48)
    out = ["xext z " + hx(ext[:-1]), "xext z " + hx(bytes([0x07]) + ext[1:]), new("z", "fast", "00" * 47, 4, 0, 16), new("z", "fast", "00" * 48, 5, 0, 16), new("z", "basic", "00" * 48, 4, 9, 16),
           "unmn " + T("aback zzzz"), "unmn " + T("aback"), "unhex " + T("0g"), "unhex " + T("abc"), "mn 0102", "dbytes ffffff", "dext 00", "dpk 0102", "addr 01", "addr " + hx(b"\x03" * 67), "addrok 00",
           "addrok " + "ff" * 39, "hfs 5 16", "sha2n 01 0", "xexthex z " + T("xy"), "xextmn z " + T("aback abbey"),
           "verify %s %s %s 16" % (M, sig[:-2], pk), "verify %s %s %s 16" % (M, "-", pk), "verify %s %s %s 16" % (M, sig, pk[:-2]), "verify %s %s %s 16" % (M, sig, "ff" + pk[2:])]
    return out


def flip(r, t):
    k = r.randrange(len(t))
    return t[:k] + r.choice([x for x in "0123456789abcdef" if x != t[k]]) + t[k + 1:]


def pure(r, refs):
    out = []
    for sh in refs:
        pk, w = sh[1]["a"]["pk"], sh[0]["w"]
        for e in r.sample(sh[2:], 2):
            sig = e["a"].get("sig", "00")
            out += ["verify %s %s %s %d" % (M, sig, pk, w), "verify %s %s %s %d" % ("c0ffef", sig, pk, w), "verify %s %s %s %d" % (M, flip(r, sig), pk, w), "verify %s %s %s %d" % (M, sig, flip(r, pk), w)]
        long = hx(mb(r, r.choice([33, 64, 200, 1000])))
        out += ["verify %s %s %s %d" % (long, sig, pk, w), "verify %s %s %s %d" % (hx(b"\xff" * 70), sig, pk, w)]
        a = bytes.fromhex(pk[:6]) + sha256(bytes.fromhex(pk)).digest()
        a += sha256(a).digest()[28:]
        out += ["addrok " + hx(a), "addrok " + flip(r, hx(a)), "addrok " + hx(a[:38] + bytes([a[38] ^ 1]))]
        out += ["addr " + pk, "dpk " + pk, "hex %s 0" % pk, "mn " + sh[1]["a"]["ext"], "dext " + sh[1]["a"]["ext"]]
    for n in (0, 1, 31, 32, 33, 64, 135, 136, 137, 168, 200, 300):
        b = hx(mb(r, n))
        out += ["shake128 %d %s" % (r.choice([1, 32, 168, 169, 400]), b), "shake256 %d %s" % (r.choice([1, 32, 136, 137, 400]), b), "sha2 " + b, "sha2n %s %d" % (b, r.randrange(1, 5)), "hex %s 0" % b]
    for n in (1000, 5000, 20001):
        b = hx(mb(r, n))
        out += ["shake128 32 %s" % b, "shake256 48 %s" % b, "sha2 " + b, "hex %s 0" % b, "unhex " + T(b)] + (["mn " + b] if n % 3 == 0 else [])
    for n in (3, 6, 48, 51, 99):
        b = hx(mb(r, n))
        out += ["mn " + b, "addrok " + hx(rb(r, 39))]
    for n in (0, 1, 10, 67):
        out.append("unhex " + T(rb(r, n).hex()))
    for t in ("aback abbey", "aback abbey abbot able", "zurich zurich", "  law   bunny "):
        out.append("unmn " + T(t))
    out += ["hcs %s %d %d" % (hx(rb(r, 32)), s, n) for s, n in ((0, 2), (7, 1), (2**32 - 1, 3))]
    out += ["hfs %d %d" % (n, w) for n in (2180 + 128, 2180 + 192, 4) for w in (4, 16, 256)] + ["basesz %d" % w for w in (4, 16, 256)]
    out += neighbours(r, [x for x in out if len(x) < 3000 and x.split()[0] in ("addr", "addrok", "shake128", "shake256", "sha2", "sha2n", "mn", "hex", "hcs")], 25)
    return list(dict.fromkeys(out))


def par(threads):
    return "par %d %s" % (len(threads), " ".join("\n".join(t).encode().hex() for t in threads))


def own(r, k, q, steps, h="r", msg=M):
    """a thread's work on a signer of its own"""
    n = "%s%d" % (h, k)
    cmds, i = [new(n, "fast", q["seed"], q.get("h", 4), q["hf"], q["w"])], 0
    for _ in range(steps):
        if r.random() < 0.3:
            i = min(13, i + r.choice([0, 1, 3]))
            cmds.append("xset %s %d" % (n, i))
        cmds.append("xsign %s %s" % (n, msg))
        i = min(15, i + 1)
    return cmds[:1] + [x for x in cmds[1:]] + ["xget %s %d" % (n, q["w"])]


def check(c):
    c.drivers("cpp", "rust", "cppasan", "cpptsan")
    c.model("MCObjects", "MCObjects.cfg" if c.thorough else "MCObjects2.cfg")
    c.model("MCObjects", "MCObjectsShallow.cfg", expect_ok=False)
    c.model("MCObjects", "MCObjectsScratch.cfg", expect_ok=False)
    paths = [p["path"] if isinstance(p, dict) else p for p in c.generate("GenObjects", "GenObjects.cfg")]
    r = c.rng
    qs = [{"seed": seed(r), "hf": hf, "w": w} for hf in (0, 1, 2) for w in ((16, 4) if hf else (16, 256))]
    qs += [dict(qs[0], seed=qs[2]["seed"]), dict(qs[0], w=4)]      # same seed under two hash functions, and under two parameters
    often = [k for k, q in enumerate(qs) for _ in range(1 if q["w"] == 256 else 6)]
    refs = {i: [Script(i, reference(k, q), label="alone") for k, q in enumerate(qs)] for i in ("cpp", "rust")}
    got = {i: c.replay(refs[i]) for i in refs}
    if c.violations:
        return
    scripts = []
    for impl in ("cpp", "rust", "cppasan"):
        base = "rust" if impl == "rust" else "cpp"
        if impl not in c.drv.cmd or not got.get(base):
            continue
        good = got[base]
        pures = pure(r, good)
        bad = failing(r, good[0][1]["a"]["pk"], good[0][2]["a"]["sig"])
        solo = [Script(impl, pures, label="functions alone"), Script(impl, pures[::-1], label="functions alone, other order")]
        # functions among failing calls
        mixed = [x for p in pures for x in (r.choice(bad), p)] + bad
        r.shuffle(mixed)
        scripts.append(Script(impl, mixed + bad + pures, label="functions among refusals", before=solo))
        if impl == "cppasan":
            mine = r.sample([p for p in paths], 60 if not c.thorough else 1500)
        elif impl == "rust":
            ok = [p for p in paths if not any(s["op"] in ("copy", "assign", "swap") for s in p)]
            mine = r.sample(ok, min(len(ok), 100 if not c.thorough else 4000))
        else:
            mine = r.sample(paths, 240 if not c.thorough else 6000)
        for part in chunks(mine, 20):
            cmds = []
            for k, p in enumerate(part):
                a, b = r.choice(often), r.choice(often)
                if r.random() < 0.25:
                    b = a
                cmds += history(r, p, qs, {"a": a, "b": b}, pures + bad, "h%d" % k)
            scripts.append(Script(impl, cmds, label="histories of objects", before=[Script(impl, reference(k, q)) for k, q in enumerate(qs)] + solo[:1]))
        # many objects at once, all exhausted in turn, one-time keys of the others untouched
        cmds = [new("m%d" % k, "fast", q["seed"], 4, q["hf"], q["w"]) for k, q in enumerate(qs)]
        todo = [k for k in range(len(qs)) for _ in range(18)]
        r.shuffle(todo)
        cmds += ["xsign m%d %s" % (k, M) for k in todo if r.random() < 0.9] + ["xget m%d %d" % (k, q["w"]) for k, q in enumerate(qs)]
        scripts.append(Script(impl, cmds, label="many objects", before=[Script(impl, reference(k, q)) for k, q in enumerate(qs)]))
    c.replay(scripts)
    # threads
    scripts = []
    for impl in ("cpp", "rust", "cpptsan"):
        base = "rust" if impl == "rust" else "cpp"
        if impl not in c.drv.cmd or not got.get(base):
            continue
        good = got[base]
        pures = pure(r, good)
        bad = failing(r, good[0][1]["a"]["pk"], good[0][2]["a"]["sig"])
        before = [Script(impl, reference(k, q)) for k, q in enumerate(qs)] + [Script(impl, pures, label="functions alone")]
        for _ in range(({"cpp": 12, "rust": 6, "cpptsan": 3} if not c.thorough else {"cpp": 300, "rust": 100, "cpptsan": 60})[impl]):
            n = r.choice([2, 4, 6])
            th = []
            for k in range(n):
                if r.random() < 0.65:
                    th.append(own(r, k, qs[r.choice(often)], 6 if impl != "cpptsan" else 4, "t"))
                else:
                    x = r.sample(pures, 30 if impl != "cpptsan" else 15) + r.sample(bad, 5)
                    r.shuffle(x)
                    th.append(x)
            cmds = [par(th)]
            scripts.append(Script(impl, cmds + [r.choice(pures)], label="threads", before=before if impl != "cpptsan" else ()))
        # messages larger than any fixed buffer, and taller trees, on threads
        for n in ((5000, 70000) if impl != "rust" else (5000,)) if not c.thorough else (300, 1100, 2100, 4200, 5000, 9000, 17000, 70000, 300000):
            big = hx(rb(r, n))
            ks = r.sample(sorted(set(often) - {k for k in often if qs[k]["w"] == 256}), 3)
            th = [own(r, k, qs[k], 3, "t%d" % j, big) for j, k in enumerate(ks + ks[:1])]
            scripts.append(Script(impl, [par(th)], label="large messages on threads", before=[Script(impl, reference(k, qs[k], big)) for k in ks] if impl != "cpptsan" else ()))
        tall = [dict(qs[k], h=h) for k, h in zip(r.sample(sorted(set(often)), 3), (6, 8, 10 if impl != "cpptsan" else 6))]
        scripts.append(Script(impl, [par([own(r, k, q, 6, "t%d" % k) for k, q in enumerate(tall + [qs[0]])])], label="taller trees on threads",
                              before=[Script(impl, reference(k, q)) for k, q in enumerate(tall)] + before[:1] if impl != "cpptsan" else ()))
        # the same few functions first thing in the process, on every thread
        fam = {}
        for p in pures:
            fam.setdefault(p.split()[0], []).append(p)
        for f, l in sorted(fam.items()):
            if impl != "cpptsan" and not c.thorough and r.random() < 0.5:
                continue
            x = r.sample(l, min(len(l), 3))
            scripts.append(Script(impl, [par([x] * 4)] + x, label="first calls on threads: " + f, before=[Script(impl, pures)] if impl != "cpptsan" else ()))
        q = qs[r.choice(often)]
        scripts.append(Script(impl, [par([own(r, 10 * k, q, 3, "t") for k in range(4)])], label="first signers on threads, one seed", before=before[:-1] if impl != "cpptsan" else ()))
        if impl != "rust":
            # copies used on another thread than the original
            for q in qs[:4] if not c.thorough else qs:
                cmds = [new("o", "fast", q["seed"], 4, q["hf"], q["w"]), "xset o %d" % r.randrange(6), "xcopy p o", "xcopy q p", new("s", "fast", q["seed"], 4, q["hf"], q["w"]), "xassign s o"]
                cmds += [par([["xsign %s %s" % (h, M)] * 4 + ["xget %s %d" % (h, q["w"])] for h in "opqs"])]
                scripts.append(Script(impl, cmds, label="copies on threads", before=before[:-1] if impl != "cpptsan" else ()))
            g = good[0]
            for sh in good[:3] if not c.thorough else good:
                e = r.choice(sh[2:])
                scripts.append(Script(impl, ["pshare 4 %s %s %s %d" % (M, e["a"]["sig"], sh[1]["a"]["pk"], sh[0]["w"])], label="shared arguments"))
    if "cpp" in c.drv.cmd:
        for impl in ("cpp", "cppasan"):
            cmds = []
            for k in range(len(qs)):
                for j in (k, (k + 1) % len(qs), (k + 2) % len(qs)):
                    cmds += [new("x", "fast", qs[k]["seed"], 4, qs[k]["hf"], qs[k]["w"]), new("y", "fast", qs[j]["seed"], 4, qs[j]["hf"], qs[j]["w"]), "xhold x y " + M]
                cmds += [new("x", "basic", qs[k]["seed"], 4, qs[k]["hf"], qs[k]["w"]), "xhold x y " + M] if k < 2 else []
            scripts.append(Script(impl, cmds, label="values kept"))
    c.replay(scripts)
    return {"coverage": {"histories": "GenObjects: every sequence of 4 calls on three handles (sampled)", "generated": len(paths)},
            "assumptions": ["threads use objects of their own or constant arguments; one object on two threads is nobody's promise (the pool is C07/C08)"]}
