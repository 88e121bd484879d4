"""Scripts for the Dilithium and Kyber objects."""
from .drive import Script, hx
from .gen import *

DIL = {"rust": (2592, 4864, 4595)}
KEM = {"rust": (1184, 2400, 1088)}
dil = lambda impl: DIL.get(impl, (1472, 3504, 2701))
kem = lambda impl: KEM.get(impl, (1088, 2400, 1152))


def pair_walk(r, ops):
    """A walk through every ordered pair of operations (Euler tour of the complete digraph with loops)."""
    n = len(ops)
    nxt = [list(range(n)) for _ in range(n)]
    for l in nxt:
        r.shuffle(l)
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            out.append(stack.pop())
    return [ops[k] for k in reversed(out)]


def kem_setup(impl):
    return ["knew A", "knew B", "kfrom C $pk.A $sk.A"]


def kem_cmd(q, impl, r):
    pk, sk, ct = kem(impl)
    o, t = q["o"], q["t"]
    if q["k"] == "enc":
        if t in "AB":
            return ["kenc %s $pk.%s" % (o, t)]
        if t == "fail":
            return ["fault enc 1", "kenc %s $pk.%s" % (o, r.choice("AB")), "fault enc 0"] if impl != "rust" else []
        src = r.choice("AB")
        return ["kenc %s $pk.%s:%s" % (o, src, "<%d" % r.choice([0, 1, pk - 1, r.randrange(pk)]) if t == "short" else "+" + "00" * r.choice([1, 2, 32, 64]))]
    if t in "ABC":
        return ["kdec %s $ct.%s" % (o, t)]
    src = r.choice("ABC")
    if t == "bent":
        return ["kdec %s $ct.%s:^%d" % (o, src, r.choice([0, 1, 31, 32, -1, r.randrange(ct)]))]
    if t == "fail":
        return ["fault dec 1", "kdec %s $ct.%s" % (o, src), "fault dec 0"] if impl != "rust" else []
    return ["kdec %s $ct.%s:%s" % (o, src, "<%d" % r.choice([0, 1, ct - 1, r.randrange(ct)]) if t == "short" else "+" + "00" * r.choice([1, 2, 32]))]


def sessions(c, impl, ops, setup, cmd, per, label):
    """The walk cut into sessions that overlap by one operation, so that no pair is lost."""
    w = pair_walk(c.rng, ops)
    out = []
    for k in range(0, len(w) - 1, per):
        cmds = list(setup)
        for q in w[k:k + per + 1]:
            cmds += cmd(q)
        out.append(Script(impl, cmds, label=label, timeout=60))
    return out
