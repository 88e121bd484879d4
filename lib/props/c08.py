"""Progress and failures of the pool: liveness on the implementation-level model; on the real pool gated builds,
planned build failures, queries while callers wait, destruction while builds are under way."""
from ..pool import *


def check(c):
    c.drivers("poolx", "pool", "poolasan", "rust")
    r = c.rng
    c.model("MCPool", "MCPoolLive.cfg")
    c.model("MCPool", "MCPoolLive22.cfg")
    if c.thorough:
        c.model("MCPool", "MCPoolLive31.cfg")
    rows = c.generate("GenPool", "GenPool.cfg")
    fail = [q for q in rows if any(s["a"] == "fail" for s in q["path"])]
    sc = []
    for q in r.sample(rows, 1200 if c.thorough else 60) + r.sample(fail, 1200 if c.thorough else 80):
        body, t = gated(r, q, 1)
        sc.append(body + end(r, q, t, r.random() < 0.3))
    c.replay([S("pool", sum(sc[k::16], []), "gated schedules") for k in range(16)], module="PoolTrace")
    # destruction with builds held: a thread starts destroying, the builds are released afterwards
    sc = []
    for impl in ("pool", "poolasan"):
        for sz in (1, 2, 3, 5):
            for calls in (0, 1, 2):
                for fails in ((), (0,), (calls, calls + 1)):
                    b = ["fast %d" % r.choice([0, 1]), new(r, sz, closed=1)]
                    for k in fails:
                        b.append("pfail %d" % k)
                    for t in range(1, calls + 1):
                        b += ["pgo %d next" % t, "popen %d" % (t - 1), "pjoin %d" % t]
                    b += ["psettle", "pgo 9 avail", "pjoin 9", "pgo 9 lag", "pjoin 9", "pgo 9 free", "psettle", "popen all", "pjoin"]
                    sc.append(S(impl, b, "destroyed while building"))
            # queries come back at once while builds are held, callers waiting or not
            if impl == "pool":
                for calls in (0, 1, 3):
                    b = ["fast 1", new(r, sz, closed=1)] + ["pgo %d next" % t for t in range(1, calls + 1)] + ["psettle", "pgo 9 lag", "pjoin 9"]
                    b += ["popen all", "pjoin", "pgo 9 poll", "pjoin 9", "pgo 9 lag", "pjoin 9", "pgo 9 free", "pjoin"]
                    sc.append(S(impl, b, "queries do not wait"))
            # nothing is held: destroyed at once
            sc.append(S(impl, sum([["fast 1 %d" % d, new(r, sz), "pgo 1 free", "pjoin"] for d in (0, 100, 2000)], []), "destroyed at once"))
            sc.append(S(impl, sum([["fast 0", new(r, sz), "pgo 1 next", "pjoin", "pgo 1 free", "pjoin"] for _ in range(3)], []), "destroyed after one call"))
    # heights no tree can have: every call reports the error, and they go on
    for h in (0, 1, 2, 3, 5, 7):
        for sz in (0, 1, 3):
            for impl in ("pool", "poolasan"):
                sc.append(S(impl, ["fast 1", new(r, sz, h)] + ["pgo %d %s" % (t, w) for t in (1, 2, 3) for w in ("next", "cur", "next", "avail")] + ["pjoin", "pgo 1 cur", "pjoin", "pgo 1 free", "pjoin"],
                            "impossible heights"))
    # busy pools of every size
    for sz in (0, 1, 2, 4, 9):
        for d in (0, 300):
            sc.append(S("pool", free_run(r, "pool", 8, 6, sz, 1, delay=d), "free runs"))
            sc.append(S("poolasan", free_run(r, "poolasan", 6, 4, sz, 1, delay=d), "free runs"))
    c.replay(sc, module="PoolTrace")
    c.replay(explore(r, 2 if c.thorough else 1, 400 if c.thorough else 40, sizes=(0, 1, 2), fails=True), module="PoolTrace")
    c.replay(rust(r, 60 if c.thorough else 12), module="PoolTrace")
    return {"coverage": {"scenario": "sizes 0-9, builds held, released in every order, failing; queries while all builds are held; destruction with builds held; impossible heights"},
            "assumptions": ["a call that has not returned after 10-30 s with every build released counts as stuck", "failure to start a thread is not exercised"]}
