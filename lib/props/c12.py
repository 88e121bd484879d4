"""Hexadecimal text: all bytes, all wrap widths up to the length, every character at every place of a pair."""
from ..drive import Script, hx
from ..gen import *


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    c.model("MCCodec")
    r = c.rng
    cmds = []
    allb = bytes(range(256))
    cmds += ["hex %s 0" % allb.hex(), "unhex " + allb.hex().encode().hex(), "unhex " + allb.hex().upper().encode().hex()]
    for k in range(256):
        cmds.append("hex %02x 0" % k)
        cmds.append("hexs %02x %d" % (k, r.choice([0, 1, 2])))
    for n in list(range(0, 20)) + [31, 32, 33, 39, 51, 63, 64, 65, 67, 100, 255, 256, 257, 1000]:
        b = hx(mb(r, n))
        for w in sorted({0, 1, 2, 3, 4, 5, 7, 8, 16, 32, 64, n, max(n - 1, 0), n + 1, n // 2, n // 3, 255, 256, 2**31 - 1}):
            cmds.append("hex %s %d" % (b, w))
        cmds.append("hexs %s %d" % (b, r.choice([0, 0, 1, 3, n])))
    # every single character, in the high and the low place, first and last pair
    for ch in range(256):
        for t in ([bytes([ch, 48]), bytes([48, ch]), b"ab12" + bytes([ch, 102]), b"ab12" + bytes([70, ch]), bytes([ch, ch])] if True else []):
            cmds.append("unhex " + t.hex())
        cmds.append("unhex %02x" % ch)
        k = r.randrange(40)
        t = bytearray(rb(r, 20).hex().encode())
        t[k] = ch
        cmds.append("unhex " + bytes(t).hex())
    # all pairs of digits in both cases
    dg = b"0123456789abcdefABCDEF"
    for a in dg:
        cmds.append("unhex " + b"".join(bytes([a, x]) for x in dg).hex())
    for n in list(range(0, 20)) + [31, 63, 64, 65, 101, 102, 103, 999, 1000, 1001]:
        t = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n)).encode()
        cmds.append("unhex " + hx(t))
        if n:
            k = r.randrange(n)
            for ch in b" \n\t\0gGxX-+:/@`._\x80\xff":
                cmds.append("unhex " + (t[:k] + bytes([ch]) + t[k + 1:]).hex())
    for t in ("0x00", "0X12", " 12", "12 ", "1 2", "12\n", "\n12", "12\n34", "-1", "+1", "1e", "0x", "x0", "  ", "12,34", "1\x002", "\x00\x00"):
        cmds.append("unhex " + t.encode().hex())
    for n in (2, 4, 30, 32, 34, 50, 62, 64, 66, 78, 100, 102, 134, 200, 1000):
        t = rb(r, n // 2).hex()
        for v in ("0x" + t, "0X" + t, "0x" + t[:-2], "x" + t[1:], "Q" + t, "Q" + t[1:], t + "\n", t + "\n\n", t + "\r\n", " " + t, "  " + t, t[:-1] + "h", t[:-2] + "h0", t + "\0", t + "\0\0", "#" + t[1:], "\\x" + t, "\\x" + t[2:], t[:n // 2] + "\n\n" + t[n // 2:], t[:n // 2] + " " + t[n // 2 + 1:], t[:n // 2] + "_" + t[n // 2 + 1:], t[:-1] + "L", t + "h"):
            cmds.append("unhex " + hx(v.encode()))
    # text to bytes
    for t in [b"", b"a", bytes(range(128)), bytes(range(256)), b"\0", b"a\0b", b"\0\0\0", b"\x80\xff", "héé€😀".encode()] + [rb(r, n) for n in (1, 5, 64, 300)] + [structured(r, n) for n in (8, 16, 255, 256, 257, 300, 1000) for _ in range(4)] + [rb(r, n) + bytes(k) for n in (3, 300, 1000) for k in (1, 2)] + [bytes(r.randrange(128) for _ in range(n)) for n in (3, 50, 256)]:
        cmds.append("str2bin " + hx(t))
    for _ in range(200 if not c.thorough else 4000):
        n = r.randrange(0, 90)
        b = mb(r, n)
        cmds.append("hex %s %d" % (hx(b), r.randrange(0, n + 3)))
        t = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([2 * n, 2 * n + 1])))
        cmds.append("unhex " + hx(t.encode()))
    cmds += neighbours(r, [x for x in cmds if len(x) < 800], 60)
    scripts = []
    for impl in ("cpp", "rust", "cppasan"):
        s = 1 if impl != "cppasan" else 6
        scripts += [Script(impl, x, label="hexadecimal text") for x in chunks(cmds[::s], 500)]
    scripts.append(Script("cppasan", ["unhex %02x" % k for k in range(256)] + ["unhex 616%x" % k for k in range(16)] + ["unhex 6130%02x" % k for k in range(0, 256, 3)] + ["hex - 0", "hex - 1", "hex 00 1"], label="hexadecimal text, sanitizer"))
    # more than 16 bits of bytes and characters
    for impl in ("cpp", "rust"):
        b = rb(r, 66000).hex()
        scripts.append(Script(impl, ["hex %s 0" % b, "hex %s 65537" % b, "unhex " + b.encode().hex(), "unhex " + (b[:-1] + "g").encode().hex(), "unhex " + b[:65537].encode().hex(), "unhex " + b[:65536].encode().hex(), "str2bin " + b], label="long text"))
    sh = c.replay(scripts)
    # what was encoded without line breaks decodes to what it was
    ts = sorted({e["a"]["t"] for evs in sh for e in evs if e["op"] == "hex" and e["wrap"] == 0 and e["a"]["r"] == "ok" and len(e["a"]["t"]) < 20000})
    c.replay([Script(i, ["unhex " + t for t in ts], label="decoding what was encoded") for i in ("cpp", "rust")])
    return {"coverage": {"calls": len(cmds)}}
