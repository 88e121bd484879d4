"""Descriptors exhaustively; wallets rebuilt from extended seeds made by the specification; refusals."""
from ..drive import Script, hx
from ..gen import *

M = "c0ffee"


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    c.model("MCDesc")
    r = c.rng
    scripts = []
    # descriptors
    b0s = list(range(256))
    few = sorted({0, 1, 2, 3, 4, 15, 16, 17, 32, 0x13, 0x80, 0xf0, 0xf2, 0xff})
    ds = []
    if c.thorough:
        ds = [(a, b, 0) for a in b0s for b in range(256)]
    else:
        ds = [(a, b, 0) for a in b0s for b in (0, 2, 15, 16, 0xf5, r.randrange(256))] + [(a, b, 0) for a in few for b in range(256)]
    ds += [(r.choice(few), r.randrange(256), r.randrange(1, 256)) for _ in range(100)]
    cmds = ["dbytes %02x%02x%02x" % d for d in ds]
    tail = rb(r, 64)
    sub = r.sample(ds, 1500 if not c.thorough else 12000) + [(a, b, 0) for a in (0, 1, 2) for b in range(16)]
    cmds += ["dext %s" % (bytes(d) + tail[:48]).hex() for d in sub] + ["dpk %s" % (bytes(d) + tail).hex() for d in sub]
    for n in list(range(0, 80)) + [100, 255, 256, 300]:
        b = hx(bytes([0, 2, 0] + [7] * 300)[:n])
        cmds += ["dbytes " + b, "dext " + b, "dpk " + b]
    for hf in range(3):
        for h in range(0, 31, 2):
            for fmt in range(16):
                cmds.append("dmake %d 0 %d %d" % (hf, h, fmt))
    for impl in ("cpp", "rust"):
        scripts += [Script(impl, x, label="descriptors") for x in chunks(cmds, 4000)]
    scripts.append(Script("cppasan", ["%s %s" % (o, hx(bytes([0, 2, 0] + [7] * 300)[:n])) for n in list(range(0, 80)) + [300] for o in ("dbytes", "dext", "dpk")], label="descriptor sizes, sanitizer"))
    # wallets
    ws = []
    for hf in (0, 1, 2):
        for h in (4, 6) if not c.thorough else (4, 4, 6, 6, 8, 10):
            ws.append({"k": "wallet", "seed": seed(r), "height": h, "hf": hf, "fmt": 0})
    for sd in ("00" * 48, "ff" * 48, "20" * 48, "0a" * 48, "61" * 48):
        ws.append({"k": "wallet", "seed": sd, "height": 4, "hf": r.choice([0, 1, 2]), "fmt": 0})
    ws = c.cases(ws)
    for q in ws:
        n = 2 ** q["height"]
        up = bytes.fromhex(q["hextext"]).decode().upper().encode().hex() if r.random() < 0.5 else q["hextext"]
        mn = bytes.fromhex(q["mn"]).decode()
        mixed = "".join(ch if ch != " " else r.choice([" ", "  ", "\n", "\t", " \r\n"]) for ch in mn)
        idx = sorted(r.sample(range(n), 3)) + [n - 1]
        probe = lambda h: [x for i in idx for x in ("xset %s %d" % (h, i), "xsign %s %s" % (h, M))]
        for impl in ("cpp", "rust"):
            cmds = [new("a", "fast", q["seed"], q["height"], q["hf"], 16)] + probe("a")
            for h, x in (("b", "xext b " + q["ext"]), ("c", "xexthex c " + up), ("d", "xextmn d " + q["mn"]), ("e", "xextmn e " + mixed.encode().hex())):
                cmds += [x, "xget %s 16" % h] + probe(h)
            if q["height"] == 4:
                cmds += [new("f", "basic", q["seed"], 4, q["hf"], 16), "xsign f " + M]
            # the copy is one of the moved-on original, a rebuilt one starts again
            if impl == "cpp":
                cmds += ["xcopy g a", "xget g 16"]
            scripts.append(Script(impl, cmds, label="wallets rebuilt"))
    # every height and other address formats (C++)
    for fmt in (1, 2, 7, 15):
        sd, hf = seed(r), r.randrange(3)
        scripts.append(Script("cpp", [new("a", "fast", sd, 4, hf, 16, fmt), "xget a 16", "xsign a " + M], label="address formats"))
        ext = "%02x%02x00" % (hf, fmt * 16 + 2) + sd
        for impl in ("cpp", "rust"):
            scripts.append(Script(impl, ["xext b " + ext, "xget b 16", "xsign b " + M, "xexthex c " + ext.encode().hex(), "xget c 16"], label="address formats rebuilt"))
    # refusals
    bad = []
    for n in [0, 1, 16, 32, 45, 47, 49, 50, 51, 52, 64, 96, 99, 255, 256, 304]:
        for kind in ("fast", "basic"):
            bad.append(new("z", kind, hx(rb(r, n)), 4, 0, 16))
    for h in [0, 1, 2, 3, 5, 7, 9, 11, 13, 15, 17, 29, 31, 33, 63, 65, 127, 129, 253, 255]:
        for kind in ("fast", "basic"):
            bad.append(new("z", kind, seed(r), h, r.choice([0, 1, 2]), 16))
    for hf in (3, 4, 15, 16, 255):
        for kind in ("fast", "basic"):
            bad.append(new("z", kind, seed(r), 4, hf, 16))
    for n in [0, 1, 2, 3, 24, 47, 48, 49, 50, 52, 53, 54, 67, 102, 255, 307]:
        b = (bytes([1, 2, 0]) + rb(r, 304))[:n]
        bad += ["xext z " + hx(b), "xexthex z " + hx(hx(b).encode() if b else b"")]
    ext = bytes([1, 2, 0]) + rb(r, 48)
    for v in list(range(3, 16)) + [16, 17, 18, 32, 128, 240, 242, 255]:
        bad.append("xext z " + (bytes([v]) + ext[1:]).hex())
        bad.append("xexthex z " + (bytes([v]) + ext[1:]).hex().encode().hex())
    for v in (0, 1):
        bad.append("xext z " + (bytes([1, v, 0]) + ext[3:]).hex())
    t = ext.hex()
    for x in (t[:-1], t + "0", t[:-1] + "g", t[:50] + " " + t[51:], t + "00", "0x" + t[2:], t[:-2], t[1:]):
        bad.append("xexthex z " + x.encode().hex())
    q = ws[0]
    words = bytes.fromhex(q["mn"]).decode().split()
    for x in (words[:-1], words[:-2], words + ["aback"], words + words[:2], words[:5] + ["zzz"] + words[6:], [], words[:1]):
        bad.append("xextmn z " + hx(" ".join(x).encode()))
    for impl in ("cpp", "rust", "cppasan"):
        scripts += [Script(impl, x, label="refusals") for x in chunks(bad if impl != "cppasan" else bad[::2], 40)]
    c.replay(scripts)
    return {"coverage": {"descriptors": len(ds), "wallets": len(ws)},
            "assumptions": ["non-zero third descriptor byte and unsupported address formats: only refusal rules are judged"]}
