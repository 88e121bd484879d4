import os
from . import build

H = os.path.join(build.VERIF, "harness")
SRC = os.path.join(build.REPO, "src")
PQ = [os.path.join(SRC, "dilithium", "dilithium.cpp"), os.path.join(SRC, "kyber", "kyber.cpp"), os.path.join(H, "pqideal.cpp")]
PQI = ["-I" + os.path.join(SRC, "dilithium"), "-I" + os.path.join(SRC, "kyber")]


def js(*names):
    return [os.path.join(H, "jsmod_%s.cpp" % n) for n in names]


GK = "xmssfast_Genkeypair(eHashFunction, xmss_params*, unsigned char*, unsigned char*, bds_state*, unsigned char*)"


def gate(objs):
    """Link options that send key generation through the gate; none if there is no such function (any more)."""
    for line in build.run(["nm", "-u"] + [o for o in objs if "poolgate" not in o]).splitlines():
        w = line.split()
        if w[:1] == ["U"] and "xmssfast_Genkeypair" in w[1]:
            d = build.run(["c++filt", w[1]]).strip()
            if d.replace(" const", "").replace("const ", "") == GK:
                return ["-Wl,--wrap=" + w[1], "-Wl,--defsym=__wrap_%s=wrap_gk" % w[1], "-Wl,--defsym=real_gk=__real_" + w[1]]
    return []



def pool(variant):
    return [build.cxx_binary("pooldrv", "pooldrv.cpp", variant, extra_srcs=[os.path.join(H, "poolgate.cpp"), os.path.join(H, "poolshim.cpp")], link=gate)]


def poolx():
    """The pool's sources instrumented (-fsanitize=thread, without its runtime), everything else plain."""
    S = build
    th = S.tree_hash([os.path.join(S.REPO, "src"), H], (".c", ".h", ".cpp", ".hpp"))
    base = S.BASE + ["-O1"] + S.INC + ["-DPOOL_EXPLORE"]
    out = os.path.join(S.BUILD, "bin", "poolx-" + S.sha(th, *base))
    if os.path.exists(out):
        return [out]
    inst = [os.path.join(SRC, "qrl", "xmssPool.cpp"), os.path.join(H, "poolshim.cpp")]
    rest = [s for s in S.lib_sources() if not s.endswith("/xmssPool.cpp")] + [os.path.join(H, x) for x in ("poolgate.cpp", "points.cpp", "pooldrv.cpp")]
    od = os.path.join(S.BUILD, "obj", S.sha(th, "poolx", *base))
    o1 = S.compile_all("clang++", base + ["-fsanitize=thread"], inst, od + "i")
    o2 = S.compile_all("clang++", base, rest, od)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(os.path.dirname(out), exist_ok=True)
    S.run(["clang++", "-pthread"] + o1 + o2 + ["-o", tmp] + gate(o1 + o2) + ["-Wl,--wrap=pthread_mutex_" + x for x in ("lock", "unlock", "trylock")])
    os.replace(tmp, out)
    return [out]


# every value that comes out, and every decision, depends on initialised memory only
VG = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99", "--leak-check=no"]
DRIVERS = {
    "poolx": poolx,
    "cppmem": lambda: [build.cxx_binary("qdrv", "qdrv.cpp", "mem")],
    "jsqmem": lambda: [build.cxx_binary("jsqdrv", "jsqdrv.cpp", "mem", extra_srcs=js("qrl"))],
    "cppvg": lambda: VG + [build.qdrv("plain")],
    "jsqvg": lambda: VG + [build.cxx_binary("jsqdrv", "jsqdrv.cpp", extra_srcs=js("qrl"))],
    "pqvg": lambda: VG + [build.cxx_binary("pqdrv", "pqdrv.cpp", extra_flags=PQI, extra_srcs=PQ)],
    "pool": lambda: pool("plain"), "poolasan": lambda: pool("asan"), "pooltsan": lambda: pool("tsan"),
    "cpprng": lambda: [build.cxx_binary("rngdrv", "rngdrv.cpp", link=["-ldl"])],
    "jsrng": lambda: ["node", os.path.join(H, "jsrng.js"), build.REPO],
    "pq": lambda: [build.cxx_binary("pqdrv", "pqdrv.cpp", extra_flags=PQI, extra_srcs=PQ)],
    "pqasan": lambda: [build.cxx_binary("pqdrv", "pqdrv.cpp", "asan", extra_flags=PQI, extra_srcs=PQ)],
    "jspq": lambda: [build.cxx_binary("jspqdrv", "jspqdrv.cpp", extra_flags=PQI, extra_srcs=PQ + js("dil", "kyb"))],
    "jsq": lambda: [build.cxx_binary("jsqdrv", "jsqdrv.cpp", extra_srcs=js("qrl"))],
    "jsqasan": lambda: [build.cxx_binary("jsqdrv", "jsqdrv.cpp", "asan", extra_srcs=js("qrl"))],
    "jspqasan": lambda: [build.cxx_binary("jspqdrv", "jspqdrv.cpp", "asan", extra_flags=PQI, extra_srcs=PQ + js("dil", "kyb"))],
}
