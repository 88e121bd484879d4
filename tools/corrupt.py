#!/usr/bin/env python3
"""Does the specification notice?  Records the traces of a property's quick check, changes one recorded answer at a
time, and asks TLC whether the trace is still allowed.  Prints, per operation and field, changed / noticed.
    tools/corrupt.py C10 [samples per field]
Fields never noticed are either not part of the property or a hole in the specification; they are looked at by hand."""
import os, random, sys, copy
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
import importlib
from lib import base, drive

pid, k = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 3
got = []


def replay(self, scripts, judge=None, direct=False, toy=False, heap="10g", module="Trace", timeout=800):
    scripts = [s for s in scripts if s.impl in self.drv.cmd]
    for s in scripts:
        if direct or toy:
            s.env["QRL_SHA_MODE"] = "direct" if direct else "toy"
    sh = drive.record_all(self.drv, scripts)
    got.extend((x, judge or pid, direct, toy, module) for x in sh if x)
    return sh


base.Check.replay = replay
base.Check.judge = lambda *a, **k: None
base.Check.model = lambda *a, **k: None
c = base.Check(pid)
importlib.import_module("lib.props.c" + pid[1:]).check(c)
r = random.Random(5)


def paths(v, p=()):
    if isinstance(v, dict):
        for x in v:
            yield from paths(v[x], p + (x,))
    elif isinstance(v, list) and v:
        yield from paths(v[r.randrange(len(v))], p + (r.randrange(len(v)),)) if isinstance(v[0], (dict, list)) else [p]
    else:
        yield p


def twist(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1]) if v else 1
    if isinstance(v, list):
        return v[:-1] if v else [0]
    if v == "ok":
        return "throw"
    if v == "-":
        return "00"
    if isinstance(v, str) and v and all(x in "0123456789abcdef" for x in v) and len(v) % 2 == 0:
        i = r.randrange(len(v))
        return v[:i] + "%x" % (int(v[i], 16) ^ r.choice([1, 2, 4, 8])) + v[i + 1:]
    if isinstance(v, str):
        return v + "x"
    return v


cand = {}
for n, (sh, *_) in enumerate(got):
    for j, e in enumerate(sh):
        for p in paths(e.get("a", {})):
            cand.setdefault((e["op"], p if not any(isinstance(x, int) for x in p) else tuple(x for x in p if not isinstance(x, int))), []).append((n, j, p))
jobs = []
for key, l in sorted(cand.items()):
    l = [x for x in l if x[1] < 400] or l
    for n, j, p in r.sample(l, min(k, len(l))):
        jobs.append((key, n, j, p))


def one(job):
    key, n, j, p = job
    sh, judge, direct, toy, module = got[n]
    sh = copy.deepcopy(sh[:min(len(sh), j + 40)] if module == "Trace" else sh)
    o = sh[j]["a"]
    for x in p[:-1]:
        o = o[x]
    old = o[p[-1]]
    o[p[-1]] = twist(old)
    if module == "PoolTrace" and hasattr(drive, "pair"):
        pass
    v = drive.validate([sh], judge, direct, toy, module, "2g")
    return key, bool(v.rejected), bool(v.errors), old


res, miss = {}, {}
with ThreadPoolExecutor(8) as ex:
    for key, rej, err, old in ex.map(one, jobs):
        t = res.setdefault(key, [0, 0, 0])
        t[0] += 1
        t[1] += rej
        t[2] += err
        if not rej:
            miss.setdefault(key, str(old)[:60])
for key in sorted(res):
    t = res[key]
    print("%-10s %-18s %d/%d%s%s" % (key[0], ".".join(key[1]), t[1], t[0], " errors %d" % t[2] if t[2] else "", "" if t[1] == t[0] else "   e.g. " + miss.get(key, "")))
print("noticed %d of %d" % (sum(t[1] for t in res.values()), sum(t[0] for t in res.values())))
