"""Running TLC."""
import os, re, shutil, subprocess, tempfile
from . import build

SPEC = os.path.join(build.VERIF, "spec")


class TlcError(Exception):
    pass


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        self.invariant = (re.findall(r"Invariant (\w+) is violated", out) or [None])[0]
        self.property = "Temporal properties were violated" in out or (re.findall(r"[Pp]roperty .{0,80} is violated", out) or [None])[0]

    def last(self, var):
        """value of an integer variable in the last state of the printed error trace"""
        m = re.findall(r"^/\\ %s = (.*)$" % var, self.out, re.M)
        return m[-1] if m else None


def run(module, cfg=None, env=None, workers=None, heap="6g", timeout=800, extra=(), spec_dir=SPEC, xss="64m"):
    build.java()
    w = str(workers or build.JOBS)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=_tmp())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss" + xss, "-Xmx" + heap, "-cp",
           "%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (os.path.join(build.BUILD, "java"), build.TLA, build.TLA),
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:QrlOverrides$Registry",
           "-Djava.io.tmpdir=" + meta,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", w, "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({"TRACE": "", "JUDGE": "", "DIRECT": "0", "TOY": "0", "OUT": "", "IN": "", "WORDS": os.path.join(SPEC, "words.json")})
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Result(p.stdout, p.returncode)


def _tmp():
    d = os.path.join(build.BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    return d
