"""What every check shares: run scripts, have TLC judge them, confirm, report, write evidence."""
import importlib, json, os, random, sys, time, traceback
from . import build, drive, tlc

EVID = os.path.join(build.VERIF, "evidence")


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.models, self.violations = [], [], [], []
        self.errors = []
        self.missing = {}
        self.ops = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- specification alone --
    def model(self, module, cfg=None, expect_ok=True, **kw):
        r = tlc.run(module, cfg, **kw)
        if not expect_ok:                       # a model of a broken design: TLC has to find it
            if r.ok or not (r.invariant or r.property):
                raise tlc.TlcError("%s %s: no violation found\n%s" % (module, cfg, r.out[-2500:]))
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"module": module, "config": cfg, "violation_found_as_expected": r.invariant or True, "distinct_states": r.distinct, "states_generated": r.generated})
            self.log("model %s %s: violation found, as it must be" % (module, cfg))
            return r
        if not r.ok:
            # the specification does not depend on /repo: a failure here is an error of the check
            raise tlc.TlcError("%s: %s" % (module, r.out[-2500:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "config": cfg or module + ".cfg", "distinct_states": r.distinct, "states_generated": r.generated})
        self.log("model %s: %d states, %d transitions" % (module, r.distinct, r.generated))
        return r

    def generate(self, module, cfg="Gen.cfg", env=None):
        """Have TLC write cases (ndjson) and read them back."""
        out = os.path.join(tlc._tmp(), "gen-%s-%d.ndjson" % (module, os.getpid()))
        e = {"OUT": out}
        e.update(env or {})
        r = tlc.run(module, cfg, env=e, workers=1)
        if not r.ok or not os.path.exists(out):
            raise tlc.TlcError("generator %s: %s" % (module, r.out[-2500:]))
        with open(out) as f:
            rows = [json.loads(l) for l in f if l.strip()]
        os.unlink(out)
        self.log("generated %d cases from %s" % (len(rows), module))
        return rows

    def cases(self, rows, direct=False, parts=6):
        """Values for the requested cases, computed by the specification (GenCases.tla)."""
        from concurrent.futures import ThreadPoolExecutor
        n = max(1, -(-len(rows) // parts))
        chunks = [rows[k:k + n] for k in range(0, len(rows), n)]

        def one(j):
            inp = os.path.join(tlc._tmp(), "req-%d-%d.ndjson" % (os.getpid(), j))
            out = inp + ".out"
            with open(inp, "w") as f:
                for q in chunks[j]:
                    f.write(json.dumps(q) + "\n")
            r = tlc.run("GenCases", env={"IN": inp, "OUT": out, "DIRECT": "1" if direct else "0"}, workers=1, heap="2g")
            if not r.ok or not os.path.exists(out):
                raise tlc.TlcError("GenCases: " + r.out[-2500:])
            with open(out) as f:
                res = [json.loads(l) for l in f if l.strip()]
            os.unlink(inp)
            os.unlink(out)
            return res
        with ThreadPoolExecutor(parts) as ex:
            res = [x for l in ex.map(one, range(len(chunks))) for x in l]
        self.log("%d cases computed by the specification" % len(res))
        return res

    # -- the implementation against the specification --
    def drivers(self, *names):
        d = drive.Drivers(names)
        for n, e in d.missing.items():
            self.missing[n] = e
            self.log("driver %s could not be built, skipped: %s" % (n, e[-600:]))
        self.drv = d
        return d

    def replay(self, scripts, judge=None, direct=False, toy=False, heap="10g", module="Trace", timeout=800):
        scripts = [s for s in scripts if s.impl in self.drv.cmd]
        if not scripts or self.violations:          # one confirmed violation is an answer
            return []
        if not self.thorough and self.traces and time.time() - self.t0 > 600:
            self.notes.append("time used up (a busy machine?): %d scripts from '%s' on not run" % (len(scripts), scripts[0].label))
            self.log(self.notes[-1])
            return []
        judge = judge or self.pid
        t = time.time()
        for s in scripts:
            if direct:
                s.env["QRL_SHA_MODE"] = "direct"
            if toy:
                s.env["QRL_SHA_MODE"] = "toy"
        shards = drive.record_all(self.drv, scripts)
        t1 = time.time()
        v = drive.validate(shards, judge, direct, toy, module, heap, timeout)
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.shards
        self.events += v.events
        for sh in shards:
            for e in sh:
                k = e["op"] + "/" + e["impl"]
                self.ops[k] = self.ops.get(k, 0) + 1
        for s, sh in list(zip(scripts, shards))[:1]:
            if len(self.samples) < 6 and sh:
                self.samples.append({"label": s.label, "impl": s.impl, "events": len(sh), "first": trim(sh[0]), "last": trim(sh[-1])})
        self.log("%d traces, %d events (%s): run %.1fs, TLC %.1fs" % (v.shards, v.events, scripts[0].label, t1 - t, time.time() - t1))
        self.errors += v.errors
        for k, n, why in v.rejected:
            if self.violations:
                break
            self.confirm(scripts[k], judge, direct, toy, module, n, why, shards[k])
        return shards

    def judge(self, shards, toy=False, direct=False, label="", module="Trace"):
        """TLC on events already recorded (regrouped): a rejection here is confirmed on fresh recordings by the caller's scripts."""
        if not shards:
            return
        v = drive.validate(shards, self.pid, direct, toy, module)
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.shards
        self.events += v.events
        self.errors += v.errors
        self.log("%d traces, %d events (%s)" % (v.shards, v.events, label))
        for k, n, why in v.rejected:
            self.violation({"judge": self.pid, "event_number": n, "event": trim(shards[k][n], 4000), "why": label + ": " + why, "events": trim(shards[k])})

    def confirm(self, script, judge, direct, toy, module, n, why, evs):
        """Re-execute and re-validate before believing a rejection.  A history of a concurrent run that no order of its
        calls explains is believed as it stands; what depends on time (hangs) or comes from a sanitizer is repeated."""
        self.log("rejected: %s event %d: %s" % (script.label, n, why))
        ev = evs[n] if 0 <= n < len(evs) else {}
        if script.history and ev.get("op") in ("pe", "pb") and ev.get("a", {}).get("r") == "ok":
            k = max([j for j in range(n + 1) if evs[j]["op"] == "pnew"] or [0])
            self.violation({"judge": judge, "direct": direct, "toy": toy, "module": module, "script": script.to_json(), "event_number": n,
                            "event": trim(ev, 4000), "why": "no order of the calls explains this answer", "history": evs[k:n + 1]})
            return
        ok = 0
        for _ in range(6 if script.history else 3):
            again = drive.record(self.drv, script)
            v = drive.validate([again], judge, direct, toy, module)
            if v.rejected:
                ok += 1
                evs, n, why = again, v.rejected[0][1], v.rejected[0][2]
                break
        if not ok:
            self.notes.append("a rejection of %s was not repeated by three re-runs" % script.label)
            self.log("not repeated")
            return
        ev = evs[n] if 0 <= n < len(evs) else {}
        self.violation({"judge": judge, "direct": direct, "toy": toy, "module": module, "script": script.to_json(), "event_number": n,
                        "event": trim(ev, 4000), "why": why, "stderr": getattr(script, "stderr", "")})

    def violation(self, info):
        d = os.path.join(build.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        info["property"] = self.pid
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(p)
        self.log("violation:", json.dumps(info.get("event", {}))[:600], info.get("why"))

    def finish(self, coverage=None, assumptions=None):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_judged": self.events, "calls_by_operation": self.ops, "models": self.models,
               "samples": self.samples or [{"note": "no trace recorded"}], "notes": self.notes,
               "drivers_not_built": sorted(self.missing)}
        cov.update(coverage or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": assumptions or [], "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        build.prune()
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
        if self.violations:
            return 1
        if self.errors:
            print("ERROR: " + self.errors[0], file=sys.stderr)
            return 2
        if not self.traces:
            print("ERROR: nothing was executed: %s" % self.missing, file=sys.stderr)
            return 2
        self.log("held: %d traces, %d events, %d states" % (self.traces, self.events, self.states))
        return 0


def trim(e, n=160):
    if isinstance(e, dict):
        return {k: trim(v, n) for k, v in e.items()}
    if isinstance(e, str) and len(e) > n:
        return e[:n] + "...(%d)" % len(e)
    if isinstance(e, list):
        return [trim(x, n) for x in e[:8]]
    return e


def main(pid):
    c = Check(pid)
    try:
        mod = importlib.import_module("lib.props." + pid.lower())
        extra = mod.check(c) or {}
        return c.finish(extra.get("coverage"), extra.get("assumptions"))
    except (tlc.TlcError, build.BuildError) as e:
        if c.violations:
            return c.finish()
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        if c.violations:
            return c.finish()
        traceback.print_exc()
        return 2
