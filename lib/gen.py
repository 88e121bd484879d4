"""Small helpers for scripts."""
import hashlib
from .drive import hx

SHA, S128, S256 = 0, 1, 2


def rb(r, n):
    return bytes(r.randrange(256) for _ in range(n))


def structured(r, n, keep=0):
    """n bytes of a shape data-dependent code may treat specially; at least `keep` of them stay random"""
    b = bytearray(rb(r, n))
    if n == 0:
        return b""
    k = r.randrange(max(1, n - keep) + (1 if keep == 0 else 0))
    fill = r.choice([0, 0, 0, 0xff, 0x80, 0x20, 0x30, 1])
    how = r.randrange(6)
    if how == 0:  # a prefix
        b[:k] = bytes([fill]) * k
    elif how == 1:  # a suffix
        b[n - k:] = bytes([fill]) * k
    elif how == 2:  # single bytes
        for _ in range(r.choice([1, 1, 2, 4])):
            b[r.randrange(n)] = fill
    elif how == 3:  # a run somewhere, from a word boundary
        at = min(n - 1, r.randrange(n) & ~7)
        k = min(k, n - at, n - keep if keep else n, 40)
        b[at:at + k] = bytes([fill]) * k
    elif how == 4 and not keep:  # a text
        b = bytearray((hx(bytes(b)) * 2)[:n].encode())
    elif how == 4:
        b[0], b[n - 1] = r.choice([0, 0xff]), r.choice([0, 0xff])
    elif not keep:  # one value, or a repeated block
        q = r.choice([1, 4, 16, 32, 64])
        b = bytearray((bytes(b[:q]) * n)[:n])
    else:  # equal thirds or halves
        q = r.choice([16, 24, 8])
        b = bytearray((bytes(b[:q]) * n)[:n])
    return bytes(b)


def mb(r, n):
    """a message: random, or structured"""
    return rb(r, n) if r.random() < 0.6 else structured(r, n)


def seed(r):
    return (rb(r, 48) if r.random() < 0.7 else structured(r, 48, 8)).hex()


def keyed(r, at=None, val=None):
    """a seed for which one byte of the derived keys (32 bytes each of sk_seed, sk_prf, pub_seed) is special"""
    at = r.choice([0, 31, 32, 63, 64, 95]) if at is None else at
    val = r.choice([0, 0, 255, 128]) if val is None else val
    while True:
        s = rb(r, 48)
        if hashlib.shake_256(s).digest(96)[at] == val:
            return s.hex()


def new(h, kind, sd, height, hf, w, fmt=0):
    return "xnew %s %s %s %d %d %d %d" % (h, kind, sd, height, hf, fmt, w)


def chunks(l, n):
    return [l[k:k + n] for k in range(0, len(l), n)]


def neighbours(r, cmds, k):
    """for k of the commands: the same with one byte changed, one byte less or more, and the command again"""
    out = []
    at_ = lambda w: 2 if w[0].startswith("shake") else 1
    pick = [x for x in cmds if len(x.split()[at_(x.split())]) >= 4]
    for c in r.sample(pick, min(k, len(pick))):
        w = c.split()
        p = at_(w)
        b = bytes.fromhex(w[p])
        at = [r.randrange(len(b)), len(b) - 1, 0]
        v = [b[:j] + bytes([b[j] ^ (1 << r.randrange(8))]) + b[j + 1:] for j in at] + [b + b"\0", b[:-1]]
        out.append(c)
        for x in r.sample(v, 2):
            out += [" ".join(w[:p] + [hx(x)] + w[p + 1:]), c]
    return out
