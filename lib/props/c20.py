"""Wallets that crash and are rebuilt: TLC explores the life of a wallet, its histories are replayed on the real
signers, and everything a rebuilt signer does is compared with the uninterrupted one."""
from ..drive import Script, hx
from ..gen import *

M = "c0ffee"
HOW = ["raw", "hex", "mn", "split"]


def reference(sd, height, hf, kind="fast", fmt=0, h="ref"):
    """the uninterrupted signer: all its signatures, and the backup"""
    return [new(h, kind, sd, height, hf, 16, fmt), "xget %s 16" % h, "xbak b " + h] + ["xsign %s %s 16" % (h, M)] * (2 ** height) + ["xget %s 16" % h]


def replayed(c, path, how):
    """one history of the model"""
    cmds, start = [], path[0]["n"]
    cmds = ["xres w b " + how(), "xset w %d" % start]
    for s in path[1:]:
        if s["op"] == "sign":
            cmds.append("xsign w %s 16" % M)
        elif s["op"] == "jump":
            cmds.append("xset w %d" % s["n"])
        elif s["op"] == "crash":
            cmds += ["xfree w", "xres w b " + how(), "xset w %d" % s["n"]]
    if path[-1]["idx"] >= 0:                       # the wallet is open: it goes on
        cmds += ["xsign w " + M] * 2
        if c.rng.random() < 0.2:
            cmds += ["xbak b2 w", "xres v b2 " + how(), "xget w 16"]
    return cmds + ["xfree w"]


def life(c, sd, height, hf, steps, kind="fast", crashes=None):
    """a long random life, with several wallets and backups of backups"""
    r = c.rng
    n = 2 ** height
    cmds = reference(sd, height, hf, kind)
    mem = disk = 0
    cmds.append("xres w b " + r.choice(HOW))
    for _ in range(steps):
        x = r.random()
        if x < 0.4 and mem < n:
            k = min(r.choice([1, 1, 1, 2, 3, 7]), n - mem)
            cmds += ["xsign w %s" % (M if r.random() < 0.8 else hx(mb(r, r.choice([0, 1, 33, 200]))))] * k
            mem += k
        elif x < 0.5 and mem < n:
            t = min(n - 1, mem + r.choice([0, 1, 2, 3, 8, 15, 16, 17, n // 4]))
            cmds.append("xset w %d" % t)
            mem = max(mem, t)
        elif x < 0.6:
            cmds.append("xset w %d" % r.choice([n, n + 1, max(mem - 1, 0) if mem else n, 2**32 - 1]))
        elif x < 0.72:
            disk = max(disk, min(n, mem + r.choice([0, 0, 1, 2, 10])))
        elif disk < n:                             # saved while it is open, or not
            if r.random() < 0.5:
                disk = max(disk, mem)
            if disk == n:
                disk = max(0, n - 3)
            if r.random() < 0.2:
                cmds.append("xbak b w")            # a backup taken late is the same backup
            cmds += ["xfree w", "xres w b " + r.choice(HOW), "xset w %d" % disk]
            mem = disk
            if mem >= n - 2:
                disk = r.randrange(n)              # another device with an older save: same key, same index, same message
                cmds += ["xfree w", "xres w b " + r.choice(HOW), "xset w %d" % disk]
                mem = disk
    k = min(3, n - mem)
    return cmds + ["xget w 16"] + ["xsign w " + M] * k + ["xset w %d" % n, "xidx w"]


def check(c):
    c.drivers("cpp", "rust", "jsq")
    r = c.rng
    c.model("Wallet", "MCWallet.cfg" if not c.thorough else "MCWalletDeep.cfg")
    c.model("Wallet", "MCWalletNone.cfg", expect_ok=False)
    rows = c.generate("GenWallet", "GenWallet.cfg" if not c.thorough else "GenWalletDeep.cfg")
    r.shuffle(rows)
    how = lambda: r.choice(HOW)
    toy, real = [], []
    share = {"cpp": rows, "rust": rows if c.thorough else rows[:len(rows) // 3]}
    sds = [seed(r) for _ in range(3)]
    for impl in ("cpp", "rust"):
        for k, part in enumerate(chunks(share[impl], 100)):
            cmds = reference(sds[k % 3], 4, 0, "basic" if k % 4 == 3 else "fast")
            for path in part:
                cmds += replayed(c, path, how)
            toy.append(Script(impl, cmds, label="histories of the model"))
        # rebuilt at every saved index of a taller tree
        h = 6
        at = list(range(2 ** h))
        for part in chunks(at, 32):
            cmds = reference(seed(r), h, 0)
            for i in part:
                cmds += ["xres w b " + how(), "xset w %d" % i] + ["xsign w " + M] * min(2 ** h - i, 14 if not c.thorough else 64)
            toy.append(Script(impl, cmds, label="rebuilt at every index h=%d" % h))
        for h, k, steps in ((4, 3, 60), (6, 4, 60), (8, 2, 40), (10, 1, 20)) if not c.thorough else ((4, 12, 100), (6, 12, 100), (8, 6, 80), (10, 4, 40), (12, 1, 20)):
            for j in range(k):
                toy.append(Script(impl, life(c, seed(r), h, 0, steps, "basic" if j == 1 and h <= 6 else "fast"), label="long lives h=%d" % h, timeout=800 if c.thorough else None))
    c.replay(toy, toy=True)
    # real hashes; seeds of any shape; both languages on one key, in one history
    pairs = []
    for hf in (0, 1, 2):
        for j in range(2 if not c.thorough else 6):
            sd = r.choice([seed(r), keyed(r), keyed(r), "00" * 48, "ff" * 48]) if j else seed(r)
            part = r.sample(rows, 12 if not c.thorough else 60)
            for impl in ("cpp", "rust"):
                cmds = reference(sd, 4, hf)
                for path in part:
                    cmds += replayed(c, path, how)
                pairs.append(Script(impl, cmds, label="real hashes %d %d" % (hf, j)))
    for h in (6,) if not c.thorough else (6, 8):
        sd, hf = seed(r), r.choice([1, 2])
        for impl in ("cpp", "rust"):
            pairs.append(Script(impl, life(c, sd, h, hf, 30), label="real hashes h=%d" % h))
    sh = c.replay(pairs)
    both = {}
    for s, evs in zip([t for t in pairs if t.impl in c.drv.cmd], sh):
        ren = lambda e: {k: (v + s.impl if k in ("h", "b", "src") and e["op"][0] == "x" else v) for k, v in e.items()}
        both.setdefault(s.label, []).append([ren(e) for e in evs])
    c.judge([sum(v, []) for v in both.values() if len(v) >= 2], label="C++ and Rust share a wallet")
    # other address formats (C++): the same wallet again, or a refusal
    for fmt in (1, 15):
        sd = seed(r)
        cmds = reference(sd, 4, r.choice([0, 1, 2]), fmt=fmt)
        for path in r.sample(rows, 4):
            cmds += replayed(c, path, how)
        real.append(Script("cpp", cmds, label="address formats"))
    # through the JavaScript interface, which has the texts only
    ws = [{"k": "wallet", "seed": r.choice([seed(r), keyed(r)]), "height": 4, "hf": hf, "fmt": 0} for hf in (0, 1, 2) for _ in range(1 if not c.thorough else 4)]
    for q in c.cases(ws):
        cmds = ["jnew a fast %s 4 %d 0 16" % (q["seed"], q["hf"]), "jget a"]
        back = lambda: r.choice(["jhex w " + q["hextext"], "jmn w " + q["mn"]])
        for path in r.sample(rows, 10 if not c.thorough else 60):
            cmds += [back(), "jset w %d" % path[0]["n"]]
            for s in path[1:]:
                if s["op"] == "sign":
                    cmds.append("jsign w %s 16" % M)
                elif s["op"] == "jump":
                    cmds.append("jset w %d" % s["n"])
                elif s["op"] == "crash":
                    cmds += [back(), "jset w %d" % s["n"]]
            if path[-1]["idx"] >= 0:
                cmds.append("jsign w %s 16" % M)
        real.append(Script("jsq", cmds, label="JavaScript wallets"))
    c.replay(real)
    return {"coverage": {"histories_of_the_model": len(rows)},
            "assumptions": ["trees of height 8 and above, and most histories of height 4, use a toy hash in place of SHA-256"]}
