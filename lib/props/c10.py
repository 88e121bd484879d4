"""Addresses computed by the specification; validation of addresses with right and wrong checksums."""
from ..drive import Script, hx
from hashlib import sha256
from ..gen import *


def check(c):
    c.drivers("cpp", "rust", "cppasan")
    r = c.rng
    reqs = []
    # public keys: every descriptor that has an address, a few that have none
    pks = []
    for hf in (0, 1, 2):
        for hh in range(16):
            pks.append(bytes([hf, hh, r.choice([0, 0, r.randrange(256)])]) + mb(r, 64))
    pks += [bytes([hf, 4, 0]) + f for hf in (0, 1, 2) for f in (bytes(64), b"\xff" * 64, bytes(63) + b"\1", b"\1" + bytes(63))]
    bad = [bytes([a, b, 0]) + rb(r, 64) for a in range(256) for b in (r.randrange(16), r.randrange(256)) if a > 2]
    bad += [bytes([a, b, 0]) + rb(r, 64) for a in (0, 1, 2) for b in range(16, 256, 1 if c.thorough else 7)]
    for n in list(range(0, 67, 3 if not c.thorough else 1)) + [66, 68, 69, 70, 134, 200, 1000]:
        bad.append((bytes([0, 4, 0]) + rb(r, 1000))[:n])
    if c.thorough:
        pks += [bytes([r.randrange(3), r.randrange(16), 0]) + mb(r, 64) for _ in range(1500)]
    # keys that differ in one byte only, one after the other
    near = []
    for p in r.sample(pks, 20 if not c.thorough else 200):
        near.append(p)
        for k in [66, r.randrange(3, 66), r.choice([2, 3, 31, 32, 34, 35, 63, 64, 65])]:
            near += [p[:k] + bytes([p[k] ^ (1 << r.randrange(8))]) + p[k + 1:], p]
    cmds = ["addr " + hx(p) for p in pks + bad + near]
    reqs += [{"k": "addr", "pk": p.hex()} for p in pks]
    # a right checksum around any 35 bytes: known and unknown descriptors
    crafted = [bytes([a, r.randrange(16), 0]) + mb(r, 32) for a in range(256)] + [bytes([a, b, 0]) + mb(r, 32) for a in (0, 1, 2) for b in range(256)] + \
              [bytes([a, r.randrange(16), r.randrange(256)]) + rb(r, 32) for a in (0, 1, 2) for _ in range(10)]
    reqs += [{"k": "addr35", "b": b.hex()} for b in crafted]
    # right checksums of a wrong length
    wl = [(bytes([0, 4, 0]) + rb(r, 200))[:n] for n in list(range(0, 80)) + [100, 150, 200] if n != 35]
    reqs += [{"k": "addr35", "b": hx(b)} for b in wl]
    rows = c.cases(reqs)
    good = [bytes.fromhex(q["addr"]) for q in rows[:len(pks)]]
    assert all(len(g) == 39 for g in good)
    val = ["addrok " + g.hex() for g in good] + ["addrok " + q["addr"] for q in rows[len(pks):]]
    # mistyped: one byte, every bit of a few, swaps, several bytes, truncations, extensions, texts
    mut = []
    for g in r.sample(good, 4 if not c.thorough else 40):
        for k in range(39):
            for x in ([1 << b for b in range(8)] if g is good[0] or c.thorough else [1 << r.randrange(8), r.randrange(1, 256)]):
                mut.append(g[:k] + bytes([g[k] ^ x]) + g[k + 1:])
        for k in range(38):
            mut.append(g[:k] + bytes([g[k + 1], g[k]]) + g[k + 2:])
        for _ in range(20):
            t = bytearray(g)
            for k in r.sample(range(39), r.choice([2, 3, 4])):
                t[k] ^= r.randrange(1, 256)
            mut.append(bytes(t))
        for n in list(range(39)) + []:
            mut.append(g[:n])
        mut += [g + b"\0", g + g, g[1:], b"Q" + g, g[:35] + bytes(4), g[:35] + g[:4], g[:35], g + rb(r, 1), g[:39] + g[35:], b"", bytes(39), b"\xff" * 39]
        # wrong checksum in a single byte, and with the right ones only at some places
        for k in range(35, 39):
            for x in (1, 0x80, 0xff):
                mut.append(g[:k] + bytes([g[k] ^ x]) + g[k + 1:])
        for m in range(1, 16):
            mut.append(g[:35] + bytes(g[35 + k] ^ (0x5a if m >> k & 1 else 0) for k in range(4)))
    # checksums with special bytes, then mistyped there and elsewhere
    for want in [{k: v} for k in range(4) for v in (0, 0xff, 0x20, 0x80)] + [{0: 0, 1: 0}, {2: 0, 3: 0}, {1: 0, 2: 0}, {0: 0, 3: 0}, {0: 0xff, 1: 0xff}]:
        while True:
            head = bytes([r.randrange(3), r.randrange(2, 16), 0]) + rb(r, 32)
            d = sha256(head).digest()[28:]
            if all(d[k] == v for k, v in want.items()):
                break
        g = head + d
        mut.append(g)
        for k in range(4):
            for x in (1 << r.randrange(8), 0xff, r.randrange(1, 256)):
                mut.append(g[:35 + k] + bytes([g[35 + k] ^ x]) + g[36 + k:])
        for k in r.sample(range(35), 3):
            mut.append(g[:k] + bytes([g[k] ^ (1 << r.randrange(8))]) + g[k + 1:])
        z = max(want)
        mut += [g[:35] + bytes(k in want for k in range(4)), g[:35] + bytes(4), g[:35] + rb(r, z) + d[z:], g[:35 + z] + rb(r, 4 - z)]
    val += ["addrok " + hx(m) for m in mut]
    # same head, other tails: another key's checksum
    for _ in range(30):
        a, b = r.sample(good, 2)
        val.append("addrok " + (a[:35] + b[35:]).hex())
    r.shuffle(val)
    scripts = []
    for impl in ("cpp", "rust", "cppasan"):
        every = 1 if impl != "cppasan" else 4
        scripts += [Script(impl, x, label="addresses of keys") for x in chunks(cmds[::every], 300)]
        scripts += [Script(impl, x, label="address validation") for x in chunks(val[::every], 400)]
        # round trip on the library's own signers
    for impl in ("cpp", "rust"):
        l = []
        for hf in (0, 1, 2):
            l += [new("a%d" % hf, "fast", seed(r), 4, hf, 16), "xget a%d 16" % hf]
        l += [new("b", "basic", seed(r), 4, 1, 16)]
        scripts.append(Script(impl, l, label="addresses of signers"))
    sh = c.replay(scripts)
    # the addresses the library itself produced validate
    own = {}
    for evs in sh:
        for e in evs:
            a = e["a"].get("addr") or (e["a"].get("a") if e["op"] == "addr" else None)
            if a and a != "none":
                own.setdefault(e["impl"], set()).add(a)
    allown = sorted(set().union(*own.values())) if own else []
    c.replay([Script(i, ["addrok " + a for a in allown[:400]], label="own addresses validate") for i in own])
    return {"coverage": {"public_keys": len(pks), "keys_without_address": len(bad), "validations": len(val)}}
