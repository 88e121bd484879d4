"""Verification: valid signatures made by the specification (any height, any index), their mutations,
near misses and malformed inputs; the specification decides each one."""
from ..drive import Script, hx
from ..gen import *

WL = {4: 133, 16: 67, 256: 34}


def craft(r, h, hf, w, idx=None, msg=None, rootxor=None, auth=None, tag=""):
    idx = r.choice([0, 1, 2**h - 1, 2**h - 2, 2**(h - 1), 2**(h - 1) - 1] + [r.randrange(2**h)] * 6) if idx is None else idx
    return {"k": "sig", "seed": r.choice([seed(r), seed(r), keyed(r)]), "height": h, "hf": hf, "w": w, "idx": idx, "fmt": 0,
            "msg": hx(mb(r, r.choice([0, 1, 20, 32, 63, 64, 65, 71, 72, 100, 136, 200])) if msg is None else msg),
            "auth": auth or mb(r, 32 * h).hex(), "rootxor": (rootxor or bytes(32)).hex(), "tag": tag}


def flip(b, k, x):
    return b[:k] + bytes([b[k] ^ x]) + b[k + 1:]


def mutations(r, q, dense):
    """(msg, sig, pk, w) variations of one valid signature"""
    m, s, p, w = (bytes.fromhex(q["msg"]) if q["msg"] != "-" else b""), bytes.fromhex(q["sig"]), bytes.fromhex(q["pk"]), q["w"]
    bit = lambda: 1 << r.randrange(8)
    out = [(m, s, p, w)]
    # message
    for k in r.sample(range(len(m)), min(len(m), 6 if not dense else 40)):
        out.append((flip(m, k, bit()), s, p, w))
    out += [(m + b"\0", s, p, w), (m + b"x", s, p, w), (b"\0" + m, s, p, w)]
    if m:
        out += [(m[:-1], s, p, w), (m[1:], s, p, w), (b"", s, p, w)]
    # signature: index and R bytewise, one byte in every 32-byte block, first and last bytes
    pos = list(range(0, 4)) + (list(range(4, 36)) if dense else [4, 35] + r.sample(range(5, 35), 4))
    blocks = list(range(WL[w] + q["height"]))
    if not dense:
        blocks = sorted(set(r.sample(blocks, min(len(blocks), 24)) + blocks[:2] + blocks[-q["height"]:][:4] + blocks[-2:] + [WL[w] - 1, WL[w] - 2]))
    pos += [36 + 32 * b + r.randrange(32) for b in blocks] + [len(s) - 1, 36]
    for k in pos:
        out.append((m, flip(s, k, bit()), p, w))
    # swapped and repeated blocks
    b = lambda k: s[36 + 32 * k:68 + 32 * k]
    for _ in range(3):
        i, j = sorted(r.sample(range(WL[w] + q["height"]), 2))
        t = bytearray(s)
        t[36 + 32 * i:68 + 32 * i], t[36 + 32 * j:68 + 32 * j] = b(j), b(i)
        out.append((m, bytes(t), p, w))
    # public key
    for k in (range(67) if dense else [0, 1] + r.sample(range(3, 35), 6) + [3, 34] + r.sample(range(35, 67), 6) + [35, 66]):
        if k != 2:
            out.append((m, s, flip(p, k, bit()), w))
    for hi in range(16):
        for lo in (range(16) if dense else r.sample(range(16), 3)):
            out.append((m, s, bytes([hi * 16 + lo]) + p[1:], w))
    for v in range(16):
        out.append((m, s, p[:1] + bytes([v]) + p[2:], w))
    # another index in the same tree, other parameters
    for d in (1, -1, 2, 256):
        i = (q["idx"] + d) % 2**q["height"]
        out.append((m, i.to_bytes(4, "big") + s[4:], p, w))
    for w2 in (4, 16, 256):
        if w2 != w:
            out.append((m, s, p, w2))
    for hf in (0, 1, 2):
        if hf != p[0]:
            out.append((m, s, bytes([hf]) + p[1:], w))
    # sizes
    for n in (0, 1, 3, 4, 35, 36, 37, 36 + 32 * WL[w], len(s) - 32, len(s) - 1, len(s) - 64):
        if 0 <= n < len(s):
            out.append((m, s[:n], p, w))
    out += [(m, s + b"\0", p, w), (m, s + rb(r, 32), p, w), (m, s + rb(r, 64), p, w), (m, s + rb(r, 31), p, w), (m, s + s[-32:], p, w), (m, s[:36] + s[68:], p, w), (m, s + bytes(32 * (255 - q["height"])), p, w)]
    for n in range(1, 70) if dense else (2, 4, 8, 12, 16, 20, 24, 28, 48):
        out += [(m, s + rb(r, n), p, w), (m, s + bytes(n), p, w)]
        if n <= len(s):
            out.append((m, s[:-n], p, w))
        out += [(m, rb(r, n) + s, p, w), (m, s[:36] + rb(r, n) + s[36:], p, w)] if n % 8 == 0 else []
    for n in range(67) if dense else (0, 1, 2, 3, 34, 35, 66):
        out.append((m, s, p[:n], w))
    for n in range(2, 70) if dense else (2, 29, 64):
        out.append((m, s, p + rb(r, n), w))
    out += [(m, s, p + b"\0", w), (m, s, p + p, w), (m, s, b"\0" + p, w)]
    # signatures whose size matches another height, announced or not
    for h2 in (0, 2, 4, 6, 8, 30):
        if h2 != q["height"]:
            n = 36 + 32 * (WL[w] + h2)
            s2 = (s + rb(r, max(0, n - len(s))))[:n]
            out += [(m, s2, p, w), (m, s2, p[:1] + bytes([h2 // 2]) + p[2:], w)]
    for h2 in (1, 3, 5, 7, 9, 256 + q["height"], 256, 258):
        n = 36 + 32 * (WL[w] + h2)
        s2 = (s + bytes(max(0, n - len(s))))[:n]
        out += [(m, s2, p, w), (m, s2, p[:1] + bytes([(h2 // 2) % 16]) + p[2:], w)]
    return out


def cmd(v, expect="any"):
    m, s, p, w = v
    return "verify %s %s %s %d %s" % (hx(m), hx(s), hx(p), w, expect)


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    r = c.rng
    rows = []
    for h in range(4, 31, 2):
        for w in (4, 16, 256) if c.thorough else (16,):
            for hf in (0, 1, 2):
                rows.append(craft(r, h, hf, w, tag="valid"))
    for hf in (0, 1, 2):
        for w in (4, 256):
            for h in r.sample(range(4, 31, 2), 3):
                rows.append(craft(r, h, hf, w, tag="valid"))
    # every index of small trees
    for i in range(16):
        rows.append(craft(r, 4, r.choice([0, 1, 2]), r.choice([4, 16]), idx=i, tag="valid"))
    for i in range(0, 64, 1 if c.thorough else 5):
        rows.append(craft(r, 6, r.choice([0, 1, 2]), 16, idx=i, tag="valid"))
    # rare contents: roots and digests with special bytes at the ends
    for what in ("root", "digest"):
        for at in (1, 2, 31, 32) if not c.thorough else range(1, 33):
            for val in (0, 255, 128):
                q = craft(r, r.choice([4, 6, 10, 20]), r.choice([0, 1, 2]), r.choice([4, 16, 256]), tag="valid")
                q["idx"] = r.randrange(2 ** min(q["height"], 30))
                rows.append(dict(q, want=what, at=at, val=val))
    # the recomputed root differs from the public key's in one bit: each byte
    near = [craft(r, 4, r.choice([0, 1, 2]), r.choice([4, 16, 256]), rootxor=flip(bytes(32), k, 1 << r.randrange(8)), tag="near") for k in range(32) for _ in range(1 if not c.thorough else 4)]
    # roots in disguise: zero bytes early (string comparison), all differences after a zero
    for k in range(8):
        near.append(craft(r, 4, 0, 16, rootxor=bytes(31 - k) + rb(r, k) + b"\x80", tag="near"))
    # digests with extreme digits come from C06; long messages
    for n in (1000, 4096, 20000):
        rows.append(craft(r, 4, r.choice([0, 1, 2]), 16, msg=mb(r, n), tag="valid"))
    rows = c.cases(rows + near)
    valid = [q for q in rows if q["tag"] == "valid"]
    scripts = []
    plain = [cmd((bytes.fromhex(q["msg"]) if q["msg"] != "-" else b"", bytes.fromhex(q["sig"]), bytes.fromhex(q["pk"]), q["w"]), "yes" if q["tag"] == "valid" else "no") for q in rows]
    r.shuffle(plain)
    nd = 4 if not c.thorough else 30
    dense = r.sample(valid[:-3], nd)
    pick = dense + r.sample(valid[:-3], 8 if not c.thorough else 60)
    muts = []
    for k, q in enumerate(pick):
        l = [cmd(v) for v in mutations(r, q, k < nd)]
        head, rest = l[:1], l[1:]
        r.shuffle(rest)
        # the valid one first, and again between the others
        l = head + rest
        for _ in range(3):
            l.insert(r.randrange(len(l)), head[0])
        muts += chunks(l, 160)
    for impl in ("cpp", "rust"):
        scripts += [Script(impl, x, label="signatures made by the specification") for x in chunks(plain, 40)]
        scripts += [Script(impl, x, label="mutations") for x in muts]
    # the sanitizer build: sizes and parameters mostly
    a = [cmd(v) for q in r.sample(valid[:-3], 3) for v in r.sample(mutations(r, q, False), 40)]
    a += [cmd(v) for q in r.sample(valid[:-3], 4) for v in mutations(r, q, False)[-60:]]
    a += r.sample(plain, 12)
    scripts += [Script("cppasan", x, label="sanitizer") for x in chunks(a, 50)]
    # garbage
    g = []
    for _ in range(60 if not c.thorough else 400):
        h = r.choice([0, 2, 4, 6, 10, 30])
        w = r.choice([4, 16, 256])
        n = r.choice([36 + 32 * (WL[w] + h), 36 + 32 * (WL[w] + h), r.randrange(0, 6000)])
        fill = r.choice([lambda n: rb(r, n), lambda n: bytes(n), lambda n: b"\xff" * n])
        g.append(cmd((rb(r, r.choice([0, 5])), fill(n), (bytes([r.choice([0, 1, 2, 3]), r.choice([h // 2, r.randrange(16)]), 0]) + fill(64))[:r.choice([67, 67, 67, 67, 66, 68, 3])], w)))
    scripts += [Script(i, x, label="garbage") for i in ("cpp", "rust", "cppasan") for x in chunks(g, 60)]
    # large messages: signed, verified, changed at the end
    for impl in ("cpp", "rust"):
        big = [new("a", "fast", seed(r), 4, r.choice([0, 1, 2]), 16)] + ["xsignbig a %d %d 16" % (n, r.randrange(256)) for n in (0, 1, 500, 65535, 65536, 1 << 20, 9 << 20)]
        scripts.append(Script(impl, big, label="large messages"))
    c.replay(scripts)
    return {"coverage": {"valid_signatures_made_by_the_specification": len(valid), "near_misses": len(near)},
            "assumptions": ["unsupported Winternitz parameters, address formats and the unused third descriptor byte are not judged"]}
