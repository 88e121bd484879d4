"""Builds: the library's sources from /repo's working tree, the drivers, the Java overrides.
Everything goes to /verif/build, keyed by the content of what went in."""
import glob, hashlib, os, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QRL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
JOBS = max(2, min(8, os.cpu_count() or 4))


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + p.stdout[-4000:])
    return p.stdout


def tree_hash(dirs, exts):
    out = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    out += [p, read(p)]
    return sha(*out)


# ---------------------------------------------------------------- C++ ----
SHIM = os.path.join(VERIF, "harness", "shims", "cpp")
INC = ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "src", "api"), "-I", os.path.join(REPO, "src"), "-I", SHIM]
for d in ("xmss-alt", "qrl", "shasha"):
    INC += ["-I", os.path.join(REPO, "src", d)]
BASE = ["-std=c++17", "-g1", "-w", "-pthread"]
VARIANTS = {
    "plain": ("g++", ["-O2"]),
    "asan": ("clang++", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]),
    "mem": ("clang++", ["-O1", "-fsanitize=address,bounds,return,vla-bound", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"]),
}


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "xmss-alt", "*.c")))
    s += sorted(glob.glob(os.path.join(REPO, "src", "qrl", "*.cpp")))
    s += sorted(glob.glob(os.path.join(REPO, "src", "shasha", "*.cpp")))
    return s


LOCK, LOCKS = threading.Lock(), {}


def compile_all(cxx, flags, srcs, outdir):
    os.makedirs(outdir, exist_ok=True)

    def one(src):
        obj = os.path.join(outdir, os.path.basename(src) + ".o")
        with LOCK:
            lock = LOCKS.setdefault(obj, threading.Lock())
        with lock:                            # two drivers may share objects
            if os.path.exists(obj):
                return obj
            tmp = obj + ".tmp%d" % os.getpid()
            run([cxx] + flags + ["-x", "c++", "-c", src, "-o", tmp])
            os.replace(tmp, obj)
        return obj
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, srcs))


def cxx_binary(name, main, variant="plain", extra_flags=(), extra_srcs=(), link=(), with_lib=True):
    """A program: main (in /verif/harness) + the library (or only extra_srcs of it)."""
    cxx, vf = VARIANTS[variant]
    flags = BASE + vf + list(extra_flags) + INC
    th = tree_hash([os.path.join(REPO, "src"), os.path.join(VERIF, "harness")], (".c", ".h", ".cpp", ".hpp"))
    key = sha(th, cxx, *flags, *(link if not callable(link) else [link.__name__]))
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, key))
    if os.path.exists(out):
        return out
    with LOCK:
        lock = LOCKS.setdefault(out, threading.Lock())
    with lock:                                # two drivers may be the same program
        return out if os.path.exists(out) else _link(cxx, vf, flags, out, th, main, extra_srcs, link, with_lib)


def _link(cxx, vf, flags, out, th, main, extra_srcs, link, with_lib):
    objdir = os.path.join(BUILD, "obj", sha(th, cxx, *flags))
    srcs = (lib_sources() if with_lib else []) + list(extra_srcs)
    main = os.path.join(VERIF, "harness", main)
    objs = compile_all(cxx, flags, srcs + [main], objdir)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    run([cxx] + BASE + vf + objs + ["-o", tmp] + list(link(objs) if callable(link) else link))
    os.replace(tmp, out)
    return out


def qdrv(variant="plain"):
    return cxx_binary("qdrv", "qdrv.cpp", variant)


# --------------------------------------------------------------- Rust ----
CRATES = ["sha2", "rand", "rayon", "crossbeam_channel", "pqcrypto_traits"]
CRATES2 = ["pqcrypto_dilithium", "pqcrypto_kyber"]


def rdrv():
    S = os.path.join(VERIF, "harness", "shims", "rust")
    th = tree_hash([os.path.join(REPO, "src"), os.path.join(VERIF, "harness")], (".rs",))
    out = os.path.join(BUILD, "bin", "rdrv-" + th)
    if os.path.exists(out):
        return out
    d = os.path.join(BUILD, "rs", th)
    os.makedirs(d, exist_ok=True)
    rc = ["rustc", "--edition", "2021", "-O", "-C", "overflow-checks=on", "-Awarnings"]
    env = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable"))

    def crate(c, ext=()):
        run(rc + ["--crate-type", "rlib", "--crate-name", c, "-L", d, "-o", os.path.join(d, "lib%s.rlib" % c)]
            + [x for e in ext for x in ("--extern", "%s=%s/lib%s.rlib" % (e, d, e))]
            + [os.path.join(S, c + ".rs")], env=env)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(crate, CRATES))
        list(ex.map(lambda c: crate(c, ["pqcrypto_traits"]), CRATES2))
    ext = [x for e in CRATES + CRATES2 for x in ("--extern", "%s=%s/lib%s.rlib" % (e, d, e))]
    run(rc + ["--crate-type", "rlib", "--crate-name", "qrllib", "-L", d, "-o", os.path.join(d, "libqrllib.rlib")] + ext
        + [os.path.join(REPO, "src", "lib.rs")], env=env)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    run(rc + ["-L", d, "--extern", "qrllib=%s/libqrllib.rlib" % d] + ext
        + ["-o", out + ".tmp", os.path.join(VERIF, "harness", "rdrv.rs")], env=env)
    os.replace(out + ".tmp", out)
    return out


# --------------------------------------------------------------- Java ----
def java():
    src = os.path.join(VERIF, "spec", "java", "QrlOverrides.java")
    out = os.path.join(BUILD, "java")
    stamp = os.path.join(out, "stamp")
    k = sha(read(src))
    if os.path.exists(stamp) and read(stamp).decode() == k:
        return out
    os.makedirs(out, exist_ok=True)
    run(["javac", "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA), "-d", out, src])
    with open(stamp, "w") as f:
        f.write(k)
    return out


def prune(keep=60):
    """Keep the build folder small: drop the oldest objects and binaries."""
    for sub, n in (("bin", keep), ("obj", 12), ("rs", 6)):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        es = sorted((os.path.getmtime(os.path.join(d, e)), os.path.join(d, e)) for e in os.listdir(d))
        for _, p in es[:-n]:
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
