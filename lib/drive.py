"""Executing scripts on the drivers, recording events, and having TLC judge them."""
import json, os, signal, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc

MAXINT = 2147483647
# argument names and kinds: h hex text, n number, s symbol, * = optional with default
ARGS = {
    "xnew": "h:s kind:s seed:h height:n hf:n fmt:n w:n", "xext": "h:s ext:h", "xexthex": "h:s ext:h", "xextmn": "h:s ext:h",
    "xbak": "b:s src:s", "xres": "h:s b:s how:s",
    "xinit": "h:s w:n", "xget": "h:s w:n", "xidx": "h:s", "xcopy": "h:s src:s", "xmove": "h:s src:s", "xassign": "h:s src:s", "xswap": "h:s src:s",
    "xfree": "h:s", "xhold": "h:s g:s msg:h", "pshare": "n:n msg:h sig:h pk:h w:n", "xset": "h:s n:n", "xsign": "h:s msg:h w:n*0", "xsignbig": "h:s n:n tag:n w:n", "xwalk": "h:s to:n w:n msg:h",
    "verify": "msg:h sig:h pk:h w:n expect:s*any", "hfs": "size:n w:n", "basesz": "w:n",
    "dbytes": "b:h", "dext": "b:h", "dpk": "b:h", "dmake": "hf:n st:n height:n fmt:n",
    "addr": "pk:h", "addrok": "addr:h", "hex": "b:h wrap:n", "hexs": "b:h wrap:n", "unhex": "t:h", "str2bin": "t:h", "mn": "b:h", "unmn": "t:h",
    "shake128": "n:n b:h", "shake256": "n:n b:h", "sha2": "b:h", "sha2n": "b:h n:n", "hcs": "seed:h shift:n n:n", "hcsat": "seed:h shift:n n:n at:h",
    "rng": "n:n entropy:h fault:s*none", "jsrng": "lit:h cls:s n:n where:s fault:s zeros:s",
    "jnew": "h:s kind:s seed:h height:n hf:n fmt:n w:n", "jhex": "h:s ext:h", "jmn": "h:s ext:h", "jget": "h:s", "jset": "h:s n:n", "jsign": "h:s msg:h w:n*0",
    "jverify": "msg:h sig:h pk:h w:n", "jaddr": "t:h", "jaddrraw": "pk:h", "jvalid": "t:h", "jvalidraw": "addr:h", "jdesc": "t:h", "jenum": "",
    "pnew": "p:s seed:h height:n start:n size:n", "pnext": "p:s", "pgo": "t:n what:s", "popen": "which:s", "pfail": "k:n", "psettle": "ms:n*0", "pjoin": "t:n*0",
    "rep": "n:n c:h",
    "fast": "on:n delay:n*0", "pexplore": "seed:h height:n start:n size:n plan:s", "pavail": "p:s", "pcur": "p:s", "pfree": "p:s",
    "dnew": "h:s", "dfrom": "h:s pk:h sk:h", "dget": "h:s", "dcopy": "h:s src:s", "kcopy": "h:s src:s", "jspqbad": "t:h", "dsign": "h:s msg:h", "dopen": "sm:h pk:h", "dmsg": "sm:h", "dsig": "sm:h",
    "knew": "h:s", "kfrom": "h:s pk:h sk:h", "kget": "h:s", "kenc": "h:s pk:h", "kdec": "h:s ct:h", "fault": "what:s n:n",
}
PARSED = {}
for op, spec in ARGS.items():
    l = []
    for t in spec.split():
        n, k = t.split(":")
        d = None
        if "*" in k:
            k, d = k.split("*")
        l.append((n, k, d))
    PARSED[op] = l


def hx(b):
    return b.hex() if b else "-"


def parse(cmd):
    t = cmd.split()
    ev = {"op": t[0]}
    for k, (n, kind, d) in enumerate(PARSED[t[0]]):
        v = t[k + 1] if k + 1 < len(t) else d
        if kind == "n":
            full = int(v)
            if t[0] in ("hcs", "hcsat") and n == "shift":
                ev["shiftle"] = full.to_bytes(4, "little").hex()
            v = min(full, MAXINT)
        ev[n] = v
    if t[0] == "hcsat":
        b = bytes.fromhex(ev["at"])
        ev["at"] = [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]
    return ev


class Script:
    """One process session: driver name, commands, environment."""
    def __init__(self, impl, cmds, env=None, label="", timeout=None, history=False, before=()):
        self.impl, self.cmds, self.env, self.label, self.timeout, self.history = impl, list(cmds), dict(env or {}), label, timeout, history
        self.before = list(before)        # sessions whose events come first (recorded in processes of their own)

    def to_json(self):
        return {"impl": self.impl, "cmds": self.cmds, "env": self.env, "label": self.label, "timeout": self.timeout, "history": self.history,
                "before": [b.to_json() for b in self.before]}


class Drivers:
    """name -> command line; a driver that cannot be built is absent (noted)."""
    def __init__(self, names):
        self.cmd, self.missing = {}, {}
        mk = {"cpp": lambda: [build.qdrv("plain")], "cppasan": lambda: [build.qdrv("asan")], "cpptsan": lambda: [build.qdrv("tsan")],
              "rust": lambda: [build.rdrv()]}
        from . import extra
        mk.update(extra.DRIVERS)
        with ThreadPoolExecutor(4) as ex:
            futs = {n: ex.submit(mk[n]) for n in names}
            for n, f in futs.items():
                try:
                    self.cmd[n] = f.result()
                except build.BuildError as e:
                    self.missing[n] = str(e)


def talk(argv, cmds, env, timeout):
    """Feed the commands, collect one answer per command.  Returns (answers, how it ended, stderr tail)."""
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("QRL_"):
            del e[k]
    e.update({"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1", "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_thread_leaks=0"})
    e.update(env)
    if "VERIF_STACK_KB" in e:                # a small stack stands for a tall tree on a large one
        argv = ["bash", "-c", 'ulimit -Ss %d && exec "$@"' % int(e["VERIF_STACK_KB"]), "x"] + list(argv)
    tmp = tempfile.TemporaryDirectory(prefix="drv-", dir=tlc._tmp())
    inp, outp, errp = (os.path.join(tmp.name, x) for x in ("in", "out", "err"))
    with open(inp, "w") as f:
        f.write("\n".join(cmds) + "\n")
    fi, fo, fe = open(inp, "rb"), open(outp, "wb"), open(errp, "wb")

    e["QRL_OUT_FD"] = str(fo.fileno())       # answers go there; stdout is discarded
    p = subprocess.Popen(argv, stdin=fi, stdout=subprocess.DEVNULL, stderr=fe, env=e, start_new_session=True, pass_fds=(fo.fileno(),))
    how = "exit"
    try:
        rc = p.wait(timeout=timeout)
        if rc != 0:
            how = "crash"
    except subprocess.TimeoutExpired:
        how = "hang"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    for f in (fi, fo, fe):
        f.close()
    with open(outp, errors="replace") as f:
        lines = f.read().split("\n")
    with open(errp, errors="replace") as f:
        err = f.read()[-3000:]
    tmp.cleanup()
    ans = []
    for l in lines:
        if not l:
            continue
        try:
            ans.append(json.loads(l))
        except ValueError:
            break
    return ans, how, err


ALONE, ALONE_LOCK = {}, threading.Lock()


def alone(drivers, b, env):
    """Events of a session others refer to (recorded once)."""
    key = (drivers.cmd[b.impl][0], tuple(b.cmds), tuple(sorted(env.items())))
    with ALONE_LOCK:
        lock = ALONE.setdefault(key, [threading.Lock(), None])
    with lock[0]:
        if lock[1] is None:
            b.env = dict(env)
            lock[1] = record(drivers, b)
    return list(lock[1])


def record(drivers, script):
    """Events of one script."""
    quick = os.environ.get("VERIF_TIER", "quick") == "quick"
    limit = min(script.timeout or 120, 150) if quick else (script.timeout or 900)
    ans, how, err = talk(drivers.cmd[script.impl], script.cmds, script.env, limit)
    evs = []
    for b in script.before:
        evs += alone(drivers, b, script.env)
    for c, a in zip(script.cmds, ans):
        if c.startswith("par "):
            # disjoint objects: each thread's calls in its order
            t = c.split()
            for k, hexcmds in enumerate(t[2:]):
                for cc, aa in zip(bytes.fromhex(hexcmds).decode().split("\n"), a["out"][k]):
                    ev = parse(cc)
                    ev["a"] = aa
                    evs.append(ev)
            continue
        ev = parse(c)
        if isinstance(a, dict) and "arg" in a:
            ev.update(a.pop("arg"))
        if isinstance(a, dict) and "log" in a:               # events seen meanwhile, in their order
            evs += a.pop("log")
        ev["a"] = a
        evs.append(ev)
    foretell(evs)
    if len(ans) < len(script.cmds) and how != "exit" or how == "crash":
        c = script.cmds[min(len(ans), len(script.cmds) - 1)]
        ev = parse("xfree none") if c.startswith("par ") else parse(c)
        ev["a"] = {"r": how if how != "exit" else "crash"}
        evs.append(ev)
    elif len(ans) < len(script.cmds):
        ev = parse("xfree none")
        ev["a"] = {"r": "crash"}
        evs.append(ev)
    for e in evs:
        e["impl"] = script.impl
        if isinstance(e["a"], dict) and e["a"].get("kind") == "nohandle":
            e["a"] = {"r": "noop"}
    script.stderr = err
    return evs


def foretell(evs):
    """Pool calls: note on every beginning the answer it will get, and on every run whether a build failed in it."""
    ends, fails = {}, False
    for e in reversed(evs):
        if e["op"] == "pe":
            ends[e["t"]] = e["a"]
        elif e["op"] == "pb":
            if e["t"] in ends:
                e["res"] = ends.pop(e["t"])
        elif e["op"] == "gfail":
            fails = True
        elif e["op"] == "pnew":
            e["strict"] = fails
            ends, fails = {}, False


def record_all(drivers, scripts, jobs=None):
    """All scripts; once one of them hangs the rest is left out (what was recorded is enough to judge)."""
    hung = []

    def one(s):
        if hung:
            return []
        evs = record(drivers, s)
        if evs and evs[-1]["a"].get("r") == "hang":
            hung.append(s)
        return evs
    with ThreadPoolExecutor(jobs or build.JOBS) as ex:
        return list(ex.map(one, scripts))


def write_trace(path, shards):
    with open(path, "w") as f:
        pos, ranges = 2, []
        for evs in shards:
            ranges.append([pos, pos + len(evs) - 1])
            pos += len(evs)
        f.write(json.dumps({"op": "meta", "shards": ranges}) + "\n")
        for evs in shards:
            for e in evs:
                f.write(json.dumps(e) + "\n")
    return ranges


class Verdict:
    def __init__(self):
        self.states = self.transitions = self.shards = self.events = 0
        self.rejected = []          # (shard number, event index within shard, text)
        self.errors = []


def validate(shards, judge, direct=False, toy=False, module="Trace", heap="10g", timeout=800):
    """TLC on the recorded shards.  Stops at the first rejection of each round, then goes on with the others."""
    v = Verdict()
    todo = [k for k in range(len(shards)) if shards[k]]
    v.shards = len(todo)
    v.events = sum(len(shards[k]) for k in todo)
    path = os.path.join(tlc._tmp(), "trace-%d-%d.ndjson" % (os.getpid(), int(time.time() * 1e6) % 10**9))
    rounds = 0
    while todo and rounds < 3:
        rounds += 1
        ranges = write_trace(path, [shards[k] for k in todo])
        r = tlc.run(module, env={"TRACE": path, "JUDGE": judge, "DIRECT": "1" if direct else "0", "TOY": "1" if toy else "0"}, heap=heap, timeout=timeout)
        if r.ok:
            want = sum(len(shards[k]) + 1 for k in todo)
            if r.distinct < want and module == "Trace":
                v.errors.append("TLC saw %d states, expected %d" % (r.distinct, want))
            v.states += r.distinct
            v.transitions += r.generated
            break
        v.states += r.distinct
        v.transitions += r.generated
        if r.invariant:
            s, i = int(r.last("shard")), int(r.last("i"))
            k = todo[s - 1]
            n = i - ranges[s - 1][0]
            v.rejected.append((k, n, "event not allowed by the specification"))
            todo.remove(k)
            continue
        # an event the specification cannot even evaluate
        m = re_state(r.out)
        if m and ("The error occurred when TLC was evaluating" in r.out or "TLC threw an unexpected exception" in r.out or "Attempted to" in r.out):
            s, i = m
            k = todo[s - 1]
            v.rejected.append((k, i - ranges[s - 1][0], "event outside the specification's domain: " + first_error(r.out)))
            todo.remove(k)
            continue
        v.errors.append(r.out[-3000:])
        break
    try:
        os.unlink(path)
    except OSError:
        pass
    return v


def re_state(out):
    import re
    s = re.findall(r"^/\\ shard = (\d+)", out, re.M)
    i = re.findall(r"^/\\ i = (\d+)", out, re.M)
    return (int(s[-1]), int(i[-1])) if s and i else None


def first_error(out):
    import re
    m = re.search(r"Error: (.*(?:\n(?!Error).*){0,3})", out)
    return " ".join(m.group(1).split())[:300] if m else "?"
