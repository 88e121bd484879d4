"""Mnemonics: every word in both positions, every byte; texts that must be refused."""
import json, os
from .. import tlc
from ..drive import Script, hx
from ..gen import *


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    c.model("MCCodec")
    r = c.rng
    words = [bytes.fromhex(w).decode() for w in json.load(open(os.path.join(tlc.SPEC, "words.json")))]
    known = set(words)
    enc, dec = [], []
    # all 4096 words at even and odd places
    order = list(range(4096))
    r.shuffle(order)
    pairs = [(a, b) for a, b in zip(order[::2], order[1::2])] + [(b, a) for a, b in zip(order[::2], order[1::2])]
    for ch in chunks(pairs, 16):
        b = b"".join(((a << 12) | d).to_bytes(3, "big") for a, d in ch)
        enc.append("mn " + b.hex())
        dec.append("unmn " + " ".join(words[x] for p in ch for x in p).encode().hex())
    # one word repeated, neighbours in the list
    for k in [0, 1, 2, 255, 256, 4094, 4095, 2047, 2048] + r.sample(range(4096), 30):
        enc.append("mn " + ((k << 12) | k).to_bytes(3, "big").hex())
        dec.append("unmn " + ("%s %s" % (words[k], words[(k + 1) % 4096])).encode().hex())
    # lengths
    for n in list(range(0, 52)) + [51, 54, 96, 99, 150, 300] + ([301, 302, 600, 999, 1000, 3000] if c.thorough else []):
        enc.append("mn " + hx(mb(r, n)))
        if n % 3 == 0:
            enc += ["mn " + hx(bytes(n)), "mn " + hx(b"\xff" * n)]
    if c.thorough:
        for _ in range(1500):
            n = 3 * r.randrange(1, 25)
            enc.append("mn " + hx(mb(r, n)))
    # white space
    sp = [" ", "  ", "\t", "\n", "\r\n", "\v", "\f", " \t ", "   ", "\n\n"]
    for _ in range(60 if not c.thorough else 600):
        n = 2 * r.randrange(0, 20)
        ws = [r.choice(words) for _ in range(n)]
        t = r.choice(["", "", " ", "\n", "\t", "  "])
        for k, w in enumerate(ws):
            t += (r.choice(sp) if k else "") + w
        t += r.choice(["", "", " ", "\n", "\t", "  ", "\r\n"])
        dec.append("unmn " + hx(t.encode()))
        # with one word less or more: odd, refused whatever the white space
        if ws:
            t2 = t.rstrip().rsplit(None, 1)[0] + r.choice(["", " ", "  ", "\n", "\t\t"]) if len(ws) > 1 else t.lstrip()[:0]
            dec.append("unmn " + hx(t2.encode()))
            dec.append("unmn " + hx((t + r.choice(sp) + r.choice(words)).encode()))
            dec.append("unmn " + hx((r.choice(words) + r.choice(sp) + t).encode()))
    for t in ("", " ", "\n", "   ", "\t\n "):
        dec.append("unmn " + hx(t.encode()))
    # exactly the separators that a count of spaces gets wrong
    for a in ("aback abbey", "aback abbey ", " aback abbey", "aback  abbey", "aback", "aback ", " aback", "aback  ", "aback abbey abide", "aback abbey abide ", "aback  abbey abide", "aback\tabbey", "aback\nabbey abide", "aback abbey abide aback\n"):
        dec.append("unmn " + a.encode().hex())
    # unknown words: case, prefixes, suffixes, near words, empties, other characters; first, middle, last place
    bad = []
    by = sorted(words, key=len)
    for w in r.sample(words, 60 if not c.thorough else 600) + r.sample(by[-60:], 10) + r.sample(by[:60], 10):
        k = r.randrange(len(w))
        for v in (w.upper(), w.capitalize(), w[:-1], w + "s", w[1:], w[:k] + chr(97 + (ord(w[k]) - 97 + 1) % 26) + w[k + 1:], w + ".", w + ",", w + w, w[:k] + w[k:][::-1], "-" + w, w + "\x00", w + "\x08", w[:k] + "-" + w[k:], w[:k] + "\x00" + w[k + 1:]):
            if v and v not in known:
                bad.append(v)
    for n in sorted({len(w) for w in words}):
        same = [w for w in words if len(w) == n]
        bad += [r.choice(same) + x for x in ".,;:!?'\")-_/0s"] + [x + r.choice(same) for x in "('\"-_#0s"]
    bad = [v for v in bad if v not in known]
    bad += ["a", "z", "zzzz", "aa", "0", "00", "1", "aback,abbey", "aback_", "~", "zymurgy", "{", "AAAA"]
    for v in bad:
        n = r.choice([2, 2, 4, 6, 34])
        ws = [r.choice(words) for _ in range(n)]
        ws[r.choice([0, n - 1, r.randrange(n)])] = v
        dec.append("unmn " + " ".join(ws).encode().hex())
    # characters outside ASCII: inside and beside words, alone, at the ends
    for u in ("\ufeff", "\u00e9", "\u00a0", "\u0085", "\u2003", "\u2028", "\u200b", "\u200d", "\u3000", "\u00ad", "\u2019", "\ufffd", "\U0001f600", "\u0430"):
        for _ in range(2):
            ws = [r.choice(words) for _ in range(r.choice([2, 4, 34]))]
            t = " ".join(ws)
            j = t.index(" ")
            w = ws[0]
            dec += ["unmn " + x.encode().hex() for x in (u + t, t + u, u + " " + t, u + " " + u + " " + t, t + " " + u, t + " " + u + u, t[:j] + u + t[j + 1:], t[:j] + u + t[j:], t[:j] + " " + u + t[j:], w[:2] + u + t[2:], u + " " + w, w + " " + u)]
    for t in (b"\x80", b"\xff", b"\xc3", b"\xe2\x80"):
        dec += ["unmn " + (a + t + b).hex() for a, b in ((b"", b"aback abbey"), (b"aback ", b" abbey"), (b"aback", b" abbey"), (b"aback abbey", b""), (b"aback abbey ", b""), (b"", b""))]
    # two unknown words, an unknown word besides an odd count
    for _ in range(10):
        dec.append("unmn " + " ".join([r.choice(words), r.choice(bad), r.choice(bad)]).encode().hex())
    # truncations of one text at every character
    t = " ".join(r.choice(words) for _ in range(4))
    for k in range(len(t)):
        dec.append("unmn " + hx(t[:k].encode()))
    # large text
    n = 400 if not c.thorough else 8000
    big = " ".join(r.choice(words) for _ in range(n))
    dec += ["unmn " + big.encode().hex(), "unmn " + (big + " aback").encode().hex()]
    enc.append("mn " + rb(r, 3 * n // 2).hex())
    enc += neighbours(r, [x for x in enc if len(x) < 800], 40)
    dec += neighbours(r, [x for x in dec if len(x) < 800], 40)
    scripts = []
    for impl in ("cpp", "rust", "cppasan"):
        s = 1 if impl != "cppasan" else 5
        l = (enc + dec)[::s]
        scripts += [Script(impl, x, label="mnemonics") for x in chunks(l, 150)]
    # more than 16 bits of bytes, of characters, of words
    t = " ".join(words[(k * 1237 + 5) % 4096] for k in range(12000))
    for impl in ("cpp", "rust"):
        scripts.append(Script(impl, ["mn " + rb(r, 66000).hex(), "unmn " + t.encode().hex(), "unmn " + (t + " zzz aback").encode().hex()], label="long text"))
    if c.thorough:
        t = " ".join(words[(k * 1237 + 5) % 4096] for k in range(66000))
        scripts += [Script(i, ["unmn " + t.encode().hex(), "mn " + rb(r, 150000).hex()], label="very long text") for i in ("cpp", "rust")]
    sh = c.replay(scripts)
    # what was encoded decodes to what it was
    texts = {}
    for evs in sh:
        for e in evs:
            if e["op"] == "mn" and e["a"]["r"] == "ok" and len(e["a"]["t"]) < 3000:
                texts[e["a"]["t"]] = 1
    ts = r.sample(sorted(texts), min(len(texts), 250))
    c.replay([Script(i, ["unmn " + t for t in x], label="decoding what was encoded") for i in ("cpp", "rust") for x in chunks(ts, 130)])
    return {"coverage": {"words_in_both_places": 4096, "unknown_words": len(bad)}}
