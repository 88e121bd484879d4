"""Every index once: the pool's implementation-level model refines Pool.tla; recorded histories of the real pool must be
linearizable to it (PoolTrace.tla), over systematically parked threads, free runs and gated schedules from GenPool."""
from ..pool import *


def check(c):
    c.drivers("poolx", "pool", "pooltsan", "rust")
    r = c.rng
    c.model("MCPool")
    c.model("MCPool", "MCPool22.cfg")
    rows = c.generate("GenPool", "GenPool.cfg")
    sc = explore(r, 4 if c.thorough else 1, 1000 if c.thorough else 200, deep=3 if c.thorough else 1)
    c.replay(sc, module="PoolTrace", timeout=300)
    sc = []
    for k in range(60 if c.thorough else 12):
        sz = r.choice([0, 1, 2, 3, 5, 8])
        sd = rb(r, r.choice([48, 48, 48, 32, 0, 1, 64, 135, 136, 200]))
        sc.append(S("pool", free_run(r, "pool", r.choice([2, 4, 8]), 3, sz, 0, seed=None if k % 3 else sd or b"\x01"), "free runs, real keys"))
    # the same seed: the same trees for every size
    sd = rb(r, 48)
    for sz in (0, 1, 4):
        for st in STARTS:
            sc.append(S("pool", free_run(r, "pool", 3, 2, sz, 0, start=st, seed=sd), "one seed, several sizes"))
    sc.append(S("pool", free_run(r, "pool", 4, 2, 2, 0, height=6), "height 6"))
    sc.append(S("pool", free_run(r, "pool", 2, 2, 1, 0, height=8), "height 8"))
    for k in range(60 if c.thorough else 14):
        sc.append(S("pool", free_run(r, "pool", r.choice([8, 16]), 12, r.choice([0, 1, 2, 3, 7, 16]), 1, delay=r.choice([0, 0, 20, 200])), "free runs"))
    c.replay(sc, module="PoolTrace", timeout=300)
    c.replay([S("pooltsan", free_run(r, "pooltsan", 8, 8, sz, 1, delay=d), "race detector") for sz in (0, 1, 2, 5) for d in (0, 50)]
             + [S("pooltsan", free_run(r, "pooltsan", 4, 2, sz, 0), "race detector, real keys") for sz in (0, 2)], module="PoolTrace")
    sc = []
    for q in r.sample(rows, 2000 if c.thorough else 120):
        body, t = gated(r, q, 1)
        sc.append(body + end(r, q, t, 0))
    sc = [S("pool", sum(sc[k::16], []), "schedules from GenPool") for k in range(16)]
    c.replay(sc, module="PoolTrace", timeout=300)
    c.replay(rust(r, 60 if c.thorough else 16), module="PoolTrace")
    return {"coverage": {"scenario": "2-16 threads, sizes 0-16, starting indices around byte boundaries up to 2^56; systematic single preemptions and sampled double/triple "
                                     "preemptions at every access to the pool, lock operation and atomic; the race detector's runs are accepted only without a report"},
            "assumptions": ["index arithmetic beyond 2^64 is not exercised", "the exploration forces at most three preemptions per history"]}
