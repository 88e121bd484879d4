"""Scenarios for the tree pool (C07, C08)."""
from .drive import Script
from .gen import *
from .gen import seed as gseed

STARTS = [0, 1, 254, 255, 65534, 2147483640, 4294967294, 2**40 - 2, 2**56 - 3]
PLANS = ["next;next", "next,next;next,next", "next;next;next", "next,cur;next,avail;cur,next", "next,next;next,next;cur,avail",
         "next,next,next;next,avail,cur;avail,next", "next;next;next;next", "avail,next;avail,next;avail,next", "cur,next,cur;cur,next,cur"]


def S(impl, cmds, label, timeout=None):
    return Script(impl, cmds, label=label, timeout=timeout, history=impl != "rust")


def explore(r, n, runs, sizes=(0, 1, 2, 3), fails=False, deep=1):
    """Systematic single preemptions, random double and triple ones."""
    out = []
    for _ in range(n):
        cmds = ["fast 1"]
        for plan in PLANS:
            for sz in sizes:
                f = ""
                if fails:
                    f = " " + " ".join(str(k) for k in sorted(r.sample(range(6), r.choice([1, 2, 3]))))
                sd, st = gseed(r), r.choice(STARTS)
                for pre, m in ((1, runs), (2, runs * deep), (3, runs * deep // 2)):
                    cmds.append("pexplore %s 4 %d %d %s %d %d %d%s" % (sd, st, sz, plan, pre, m, r.randrange(2**31), f))
        # spread over processes
        k = 8
        body = cmds[1:]
        out += [S("poolx", ["fast 1"] + body[j::k], "parked threads") for j in range(k)]
    return out


def new(r, size, height=4, start=None, closed=0, seed=None):
    return "pnew p %s %d %d %d %d" % ((seed.hex() if seed else gseed(r)), height, r.choice(STARTS) if start is None else start, size, closed)


def free_run(r, impl, threads, each, size, fast, height=4, start=None, delay=0, seed=None):
    """Many threads, no control over the schedule."""
    c = ["fast %d %d" % (fast, delay), new(r, size, height, start, seed=seed)]
    for k in range(each):
        for t in range(1, threads + 1):
            c.append("pgo %d %s" % (t, r.choice(["next", "next", "next", "cur", "avail"])))
    c += ["pjoin", "pgo 1 cur", "pjoin", "pgo 1 free", "pjoin"]
    return c


def gated(r, q, fast, height=4):
    """One schedule written by GenPool: every caller is a thread of its own."""
    c = ["fast %d" % fast, new(r, q["size"], height, closed=1)]
    t = 0
    for s in q["path"]:
        if s["a"] == "next":
            t += 1
            c += ["pgo %d next" % t, "psettle"]
        elif s["a"] == "open":
            c += ["popen %d" % s["k"], "psettle"]
        elif s["a"] == "fail":
            c += ["pfail %d" % s["k"], "popen %d" % s["k"], "psettle"]
        else:                                       # queries never wait
            c += ["pgo 9 %s" % s["a"], "pjoin 9"]
    return c, t


def end(r, q, t, busy):
    if busy:                                        # destroyed while builds are held
        return ["popen all"] + (["pjoin"] if t else []) + ["pgo 9 free", "pjoin"]
    return ["popen all", "pjoin"] + (["pgo 9 poll", "pjoin 9"] if q["size"] else ["pgo 9 avail", "pjoin 9"]) + ["pgo 9 cur", "pjoin 9", "pgo 9 free", "pjoin"]


def rust(r, n):
    out = []
    for k in range(n):
        st = r.choice([0, 8, 9, 98, 99, 254, 65534, 999999, 2147480000, r.randrange(10**6)])
        h = r.choice([4, 4, 4, 6, 5, 3, 2, 0])
        sd = mb(r, r.choice([48, 48, 48, 32, 1, 0, 64]))
        c = ["pnew p %s %d %d %d" % (sd.hex() or "-", h, st, r.choice([0, 1, 2, 3, 5]))]
        for _ in range(10):
            c.append(r.choice(["pnext p", "pnext p", "pavail p", "pcur p"]))
        out.append(S("rust", c + ["pcur p", "pfree p"], "Rust pool"))
    return out
