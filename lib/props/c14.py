"""Random seeds: every behaviour of the entropy source that TLC finds in Rng.tla becomes a scripted source
for the real function."""
from ..drive import Script, hx
from ..gen import *

BAD = ["0", "-1", "-48", "1.5", "47.999", "0.5", "NaN", "Infinity", "-Infinity", "null", "true", "false", "'16'", "'abc'", "''", "[]", "[16]", "{}", "({valueOf:()=>16})",
       "new Number(16)", "function(){}", "-0", "0.0", "1e-3", "16.0000001", "32n", "'0x10'", "Symbol.iterator", "-1.5", "1/3", "[1,2]", "new Uint8Array(16)"]


def check(c):
    c.drivers("cpprng", "rust", "jsrng")
    r = c.rng
    c.model("Rng")
    rows = c.generate("GenRng", "GenRng.cfg")
    cmds = []
    for q in rows:
        for f in ((7,) if not c.thorough else (1, 7, 16, 100, 1500)):
            if q["fault"] == "open":
                s = "open"
            elif q["fault"] == "none":
                s = "c" + ".".join(str(k * f) for k in q["chunks"]) if q["chunks"] else "none"
            else:
                s = "c" + ".".join([str(k * f) for k in q["chunks"]] + [q["fault"]])
                if not q["chunks"]:
                    s = "c0." + q["fault"]
            cmds.append("rng %d %s %s" % (q["n"] * f, hx(rb(r, r.choice([0, 0, 1, 5, 40, 200]))), s))
    # sizes; sources that give almost enough; buffer boundaries
    for n in [0, 1, 2, 31, 32, 33, 47, 48, 49, 51, 64, 96, 135, 136, 137, 255, 256, 257, 1000, 4095, 4096, 8190, 8191, 8192, 8193, 10000, 16384, 20000, 65535, 65537, 70000]:
        cmds.append("rng %d %s none" % (n, hx(rb(r, r.choice([0, 3, 100])))))
        if n:
            for k in {0, 1, n // 2, n - 1}:
                if k < n:
                    cmds.append("rng %d %s c%d.%s" % (n, hx(rb(r, 4)), k, r.choice(["eof", "err"])))
                    cmds.append("rng %d - c%d.%s" % (n, k, r.choice(["eof", "err"])))
        cmds.append("rng %d %s open" % (n, hx(rb(r, 9))))
    for e in [b"", b"\0", b"\0\0", b"a", b"\xff\x80\x00\x01", bytes(range(256)), b"x" * 5000, "żółć".encode()]:
        cmds.append("rng 48 %s none" % hx(e))
        cmds.append("rng 32 %s c10.22" % hx(e))
    # a failure, then a working source again, and many fresh ones in a row
    for k in range(6):
        cmds += ["rng 48 - open", "rng 48 - none", "rng 48 - c47.eof", "rng 48 - none", "rng 48 - none"]
    scripts = [Script("cpprng", x, label="scripted entropy source", timeout=60) for x in chunks(cmds, 120)]
    # Rust: the operating system's generator is a recording stand-in
    rc = []
    for n in [0, 1, 16, 31, 32, 48, 51, 64, 136, 137, 1000, 5000, 65535, 65537, 70000]:
        for e in (b"", b"abc", b"\0", "żó".encode(), b"y" * 300):
            rc.append("rng %d %s none" % (n, hx(e)))
        if n:
            rc.append("rng %d - fail" % n)
            rc.append("rng %d %s fail" % (n, hx(b"entropy")))
    scripts.append(Script("rust", rc, label="rust entropy source"))
    # browser
    js = []
    lit = lambda s: hx(s.encode())
    sizes = [1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 100, 255, 256, 1000] + ([4096, 65535, 65536, 65537, 100000] if c.thorough else [65536, 65537])
    for n in sizes:
        for z in ("none", "all", "butlast", "butfirst", "first16"):
            js.append("jsrng %s pos %d global none %s" % (lit(str(n)), n, z))
        for w in ("self", "window"):
            js.append("jsrng %s pos %d %s none none" % (lit(str(n)), n, w))
        for f in ("missing", "throw", "nofunc", "notfunc", "null"):
            js.append("jsrng %s pos %d global %s none" % (lit(str(n)), n, f))
    js += ["jsrng %s pos 48 global none none" % lit("48.0"), "jsrng %s pos 1000 global none none" % lit("1e3"), "jsrng %s pos 16 global none none" % lit("0x10")]
    for z in ("none", "all"):
        js += ["jsrng %s def 48 global none %s" % (lit(""), z), "jsrng %s def 48 global none %s" % (lit("undefined"), z)]
    for f in ("missing", "throw", "nofunc"):
        js.append("jsrng %s def 48 global %s none" % (lit("undefined"), f))
    for b in BAD:
        for z in ("none", "all"):
            js.append("jsrng %s bad 0 global none %s" % (lit(b), z))
    js += ["jsrng %s pos 48 global none none" % lit("48")] * 5
    scripts.append(Script("jsrng", js, label="browser generator"))
    c.replay(scripts)
    return {"coverage": {"source_behaviours_from_the_model": len(rows)},
            "assumptions": ["C++: /dev/urandom, /dev/random, getrandom and getentropy are interposed; Rust: the rand crate is a stand-in whose OsRng records; JS: node's vm with a stand-in crypto object"]}
