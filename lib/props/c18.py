"""The JavaScript bindings, called by their registered names: signers, rebuilding, addresses, texts and
conversions give what the specification says (the same values the core library is held to)."""
from ..drive import Script, hx
from ..gen import *

T = lambda s: hx(s.encode("latin-1"))


def texts(r, a):
    """texts around one valid text address"""
    t = "Q" + a
    i = lambda n: r.randrange(1, n)
    out = [t, "Q" + a.upper(), t[:-1], t + "0", t + "00", t[:-2], t[:1] + t[3:], "Q", "", "Q0", "Q00", "Q00020", "Q000200", "Q0002000", "Q00020000", "Q" + "00" * 39, "Q" + a + a, "Q" + " " * 78]
    for _ in range(6):
        k = i(len(t))
        out.append(t[:k] + r.choice("gG z:@`/\n\xff") + t[k + 1:])
        k = i(len(t))
        out.append(t[:k] + r.choice([x for x in "0123456789abcdef" if x != t[k]]) + t[k + 1:])
    k = i(len(t) - 1)
    out.append(t[:k] + t[k + 1] + t[k] + t[k + 2:])
    return out


def signer(c, kind, q, w=16, steps=14):
    r, n = c.rng, 2 ** q["height"]
    new = "jnew %s %s %s %d %d %d %d" % ("a", kind, q["seed"], q["height"], q["hf"], 0, w)
    cmds, idx = [new, "jget a"], 0
    for _ in range(steps):
        x = r.random()
        if x < 0.5:
            cmds.append("jsign a %s %d" % (hx(mb(r, r.choice([0, 1, 31, 64, 200]))), w))
            idx = min(n, idx + 1)
        elif x < 0.75:
            idx = min(n - 1, idx + r.choice([0, 1, 2, n // 4])) if idx < n else idx
            cmds.append("jset a %d" % idx)
        elif kind == "fast":
            cmds.append("jset a %d" % r.choice([0, max(0, idx - 1), n, n + 1, 2**31, 2**32 - 1, 256 * n + idx, 65536 + idx, 65536 * r.choice([1, 2, n]) + min(idx + 1, n - 1), 2**31 + idx, 2**24 + idx]))
            if cmds[-1] == "jset a 0" and idx == 0:
                pass
        else:
            cmds.append("jget a")
    if kind == "fast":
        cmds += ["jset a %d" % (v + idx) for v in (256, 65536, 2**24, 2**31) if v >= n]
    cmds += ["jset a %d" % (n - 1), "jsign a 01 %d" % w, "jsign a 02 %d" % w, "jget a"]
    return cmds


def transitions(rows, kind):
    cmds, n = [], 0
    seed = "17" * 48
    for t in rows:
        if t["kind"] != kind:
            continue
        cmds.append("jnew t %s %s 4 0 0 16" % (kind, seed))
        if t["pre"]:
            cmds.append("jset t %d" % (t["pre"] - 1))
            cmds.append("jsign t 00")
        cmds += ["jsign t 01" if t["call"] == "sign" else "jset t %d" % t["arg"], "jget t", "jsign t 02"]
    return cmds


def check(c):
    c.drivers("jsq", "jsqasan")
    c.model("MCJs")
    rows = c.generate("GenSigner")
    r, scripts, toy = c.rng, [], []
    ws = []
    for hf in (0, 1, 2):
        for h in (4, 6) if not c.thorough else (4, 4, 6, 8):
            ws.append({"k": "wallet", "seed": seed(r), "height": h, "hf": hf, "fmt": 0})
    ws += [{"k": "wallet", "seed": s, "height": 4, "hf": hf, "fmt": 0} for s, hf in (("00" * 48, 0), ("ff" * 48, 1), ("0a" * 48, 2))]
    ws = c.cases(ws)
    for q in ws:
        n = 2 ** q["height"]
        scripts.append(Script("jsq", ["jenum"] + signer(c, "fast", q), label="signers"))
        up = bytes.fromhex(q["hextext"]).decode().upper()
        mn = bytes.fromhex(q["mn"]).decode()
        mixed = "".join(x if x != " " else r.choice([" ", "  ", "\n", "\t"]) for x in mn)
        cmds = []
        for k, x in enumerate(("jhex b " + q["hextext"], "jhex b " + T(up), "jmn b " + q["mn"], "jmn b " + T(mixed))):
            cmds += [x, "jget b", "jsign b c0ffee 16", "jset b %d" % (n - 2 + k % 2), "jsign b c0ffee 16"]
        scripts.append(Script("jsq", cmds, label="rebuilt signers"))
    # near-identical seeds, one right after the other: each text gives its own signer
    base = bytearray.fromhex(seed(r))
    near = []
    for k in (47, 46, 40, 25, r.randrange(1, 47), 0):
        b = bytearray(base)
        b[k] ^= 1 << r.randrange(8)
        near.append(bytes(b).hex())
    near = c.cases([{"k": "wallet", "seed": s, "height": 4, "hf": 1, "fmt": 0} for s in [base.hex()] + near])
    cmds = []
    for q in near + near[:1]:
        cmds += ["jhex b " + q["hextext"], "jget b", "jsign b 01 16"]
    for q in near + near[:1]:
        cmds += ["jmn b " + q["mn"], "jget b", "jsign b 01 16", "jnew b fast %s 4 1 0 16" % q["seed"], "jget b"]
    scripts.append(Script("jsq", cmds, label="near-identical seeds"))
    for w in (4, 16, 256):
        for hf in (0, 1, 2):
            q = {"seed": seed(r), "height": 4, "hf": hf}
            scripts.append(Script("jsq", signer(c, "basic", q, w, 5), label="basic signers"))
    # taller trees
    for h in (8, 10) if not c.thorough else (8, 10, 12):
        q = {"seed": seed(r), "height": h, "hf": r.randrange(3)}
        scripts.append(Script("jsq", signer(c, "fast", q, 16, 10), label="taller signers"))
        ext = "%02x%02x00" % (q["hf"], h // 2) + q["seed"]
        scripts.append(Script("jsq", ["jhex b " + T(ext), "jget b", "jsign b c0ffee 16", "jset b %d" % (2 ** h - 2), "jsign b c0ffee 16"], label="taller signers"))
    scripts.append(Script("jsq", signer(c, "basic", {"seed": seed(r), "height": 8, "hf": r.randrange(3)}, 16, 3), label="taller signers"))
    # the same signer from the core library's point of view: verification through the bindings
    req = []
    for hf in (0, 1, 2):
        for w in (4, 16, 256):
            for h in (4, 10, 20, 30) if w == 16 else (4, 8):
                req.append({"k": "sig", "seed": seed(r), "height": h, "hf": hf, "w": w, "idx": r.randrange(min(2 ** h, 2**31 - 1)), "msg": hx(mb(r, r.choice([0, 1, 33, 100]))), "auth": rb(r, 32 * h).hex(), "rootxor": "00" * 32, "fmt": 0, "tag": "v"})
    vs = c.cases(req)
    cmds = []
    flip = lambda t, k: "%s%02x%s" % (t[:2 * k], int(t[2 * k:2 * k + 2], 16) ^ (1 << r.randrange(8)), t[2 * k + 2:])
    for v in vs:
        m, s, p = v["msg"], v["sig"], v["pk"]
        go = lambda m, s, p, w=v["w"]: cmds.append("jverify %s %s %s %d" % (m, s, p, w))
        go(m, s, p)
        go(hx(bytes.fromhex("" if m == "-" else m) + b"\0"), s, p)
        ns = len(s) // 2
        for k in (0, 3, 4, 35, 36, ns - 1, r.randrange(ns)):
            go(m, flip(s, k), p)
        for k in (0, 1, 3, 34, 35, 66):
            go(m, s, flip(p, k))
        go(m, s[:-2], p); go(m, s + "00", p); go(m, s[:-64], p); go(m, "-", p); go(m, s, p[:-2]); go(m, s, p + "00"); go(m, s, "-")
        for w in (4, 16, 256):
            if w != v["w"]:
                go(m, s, p, w)
    scripts += [Script("jsq", x, label="verification") for x in chunks(cmds, 60)]
    scripts += [Script("jsqasan", x[::3], label="verification") for x in chunks(cmds, 90)]
    # addresses
    pks = [bytes([hf, h, 0]) + mb(r, 64) for hf in (0, 1, 2) for h in (2, 3, 5, 15)] + [bytes([1, 5, 0]) + x * 64 for x in (b"\0", b"\xff")]
    odd = [bytes(d) + rb(r, 64) for d in ((3, 2, 0), (0x10, 2, 0), (0xf1, 2, 0), (0, 0x12, 0), (1, 0xf5, 0), (0x20, 2, 0), (15, 15, 0))]
    ad = c.cases([{"k": "addr", "pk": p.hex()} for p in pks])
    cmds = []
    for q in ad:
        p = bytes.fromhex(q["pk"])
        cmds += ["jaddr " + T(p.hex()), "jaddr " + T(p.hex().upper()), "jaddrraw " + p.hex(), "jvalidraw " + q["addr"], "jvalidraw " + flip(q["addr"], r.randrange(39)), "jvalidraw " + q["addr"][:-2]]
        for t in texts(r, q["addr"]):
            cmds += ["jvalid " + T(t), "jdesc " + T(t)]
    p = pks[0].hex()
    for t in (p[:-1], p + "0", p[:-2], p + "00", p[:70] + "g" + p[71:], " " + p[1:], "Q" + p, "Q" + p[1:], "", "0", "0x" + p[2:], p[:-1] + "\n", p[:-1] + "\xff"):
        cmds.append("jaddr " + T(t))
    for n in (0, 1, 2, 3, 35, 39, 66, 68, 134):
        cmds.append("jaddrraw " + hx(rb(r, n)))
    for o in odd:
        cmds += ["jaddr " + T(o.hex()), "jaddrraw " + o.hex()]
    for b0 in list(range(0, 20)) + [32, 0x80, 0xf0, 0xff]:
        for b1 in (0, 2, 9, 15, 0x10, 0x25, 0xff):
            cmds.append("jdesc " + T("Q%02x%02x00" % (b0, b1) + "5a" * r.choice([0, 1, 36])))
    # right checksums around odd descriptors
    for q in c.cases([{"k": "addr35", "b": (bytes([a, b, 0]) + rb(r, 32)).hex()} for a in (0, 2, 3, 15, 16, 17, 255) for b in (2, 15, 16, 0xf2)]):
        cmds += ["jvalid " + T("Q" + q["addr"]), "jvalidraw " + q["addr"]]
    for n in range(0, 90, 1):
        cmds += ["jvalid " + T("Q" + ("0002" + "00" * 90)[:n]), "jdesc " + T(("Q" + "0002" + "00" * 90)[:n])]
    scripts += [Script(d, x, label="addresses") for d in ("jsq", "jsqasan") for x in chunks(cmds, 250)]
    # refused construction
    q = ws[0]
    t = bytes.fromhex(q["hextext"]).decode()
    wd = bytes.fromhex(q["mn"]).decode().split()
    bad = ["jhex z " + T(x) for x in (t[:-1], t + "0", t[:-2], t + "00", t[:-1] + "g", "0x" + t[2:], "", "0", "00", "000200", "Q" + t, "Q" + t[1:], " " + t, t + "\n", "03" + t[2:], "10" + t[2:], t[:2] + "00" + t[4:], t[:2] + "01" + t[4:])]
    bad += ["jmn z " + T(" ".join(x)) for x in (wd[:-1], wd[:-2], wd + ["aback"], wd + wd[:2], ["zzz"] + wd[1:], wd[:1], [], [wd[0].upper()] + wd[1:])]
    bad += ["jnew z %s %s %d %d 0 16" % (k, sd, h, hf) for k in ("fast", "basic") for sd, h, hf in ((seed(r)[:-2], 4, 0), (seed(r) + "00", 4, 0), ("-", 4, 0), (seed(r), 3, 0), (seed(r), 2, 1), (seed(r), 0, 2), (seed(r), 5, 0), (seed(r), 4, 3), (seed(r), 4, 15))]
    scripts += [Script(d, bad, label="refusals") for d in ("jsq", "jsqasan")]
    # conversions and hashes
    cmds = []
    for n in (0, 1, 2, 3, 31, 32, 33, 51, 67, 168, 169, 500):
        b = rb(r, n)
        cmds += ["hex %s 0" % hx(b), "unhex " + T(b.hex()), "unhex " + T(b.hex().upper()), "str2bin " + hx(b), "mn " + hx(b), "sha2 " + hx(b), "shake128 %d %s" % (r.choice([0, 1, 32, 64, 168, 400]), hx(b))]
    for x in ("0", "0g", "g0", " 00", "00 ", "0x00", "abc", "\xe9\xe9", "-1", "+1"):
        cmds.append("unhex " + T(x))
    for q in c.cases([{"k": "mn", "b": hx(rb(r, n))} for n in (3, 6, 51, 99)]):
        x = bytes.fromhex(q["t"]).decode().split()
        cmds += ["unmn " + q["t"], "unmn " + T(" ".join(x[:-1])), "unmn " + T("  ".join(x) + "\n"), "unmn " + T(" ".join(x[:-1] + ["qqq"]))]
    scripts += [Script(d, cmds, label="conversions and hashes") for d in ("jsq", "jsqasan")]
    c.replay(scripts)
    # index behaviour: every transition of the index machine, long histories (toy hash)
    toy = [Script("jsq", x, label="index transitions") for k in ("fast", "basic") for x in [transitions(rows, k)]]
    for h in (4, 6, 8, 10):
        toy.append(Script("jsq", signer(c, "fast", {"seed": seed(r), "height": h, "hf": 0}, 16, 60), label="index histories"))
    toy.append(Script("jsq", signer(c, "basic", {"seed": seed(r), "height": 4, "hf": 0}, 16, 20), label="index histories"))
    c.replay(toy, toy=True)
    return {"coverage": {"transitions_of_the_index_machine_replayed": len(rows), "wallets": len(ws), "signatures_made_by_the_specification": len(vs)},
            "assumptions": ["the compiled bundle cannot be built here: the registered functions are called natively through a stand-in for embind, so the JavaScript side of the conversions is not exercised",
                            "text without the letter Q in front is not judged"]}
