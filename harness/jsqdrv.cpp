// Driver for the JavaScript bindings of the core library (registered names called through the embind stand-in).
#include "common.h"
#include <emscripten/bind.h>
using namespace emscripten;
struct O { Value v; bool basic; };
static std::map<std::string, O> M;
static O &at(const std::string &h) { auto it = M.find(h); if (it == M.end()) throw std::logic_error("nohandle"); return it->second; }
static Value C(const std::string &n, Values v) { return call("qrl." + n, v); }
static Value T(const std::string &s) { return Value(s); }
static Value V(const B &b) { return Value(b); }
static Value N(long long n) { return Value(n); }
static std::string cls(const O &o) { return o.basic ? "XmssBasic#" : "Xmss#"; }
static void facts(O &o, J &j) {
    j.i("idx", C(cls(o) + "getIndex", {o.v}).i).i("height", C(cls(o) + "getHeight", {o.v}).i);
    j.h("pkt", C(cls(o) + "getPK", {o.v}).s).h("hexseed", C(cls(o) + "getHexSeed", {o.v}).s);
    if (o.basic) return;
    j.h("pk", C("Xmss#getPKRaw", {o.v}).b).h("addr", C("Xmss#getAddressRaw", {o.v}).b).h("addrt", C("Xmss#getAddress", {o.v}).s).h("mn", C("Xmss#getMnemonic", {o.v}).s);
}
// jnew h kind seed height hf fmt w
OP(jnew) {
    B sd = unhex(a[3]); bool basic = a[2] == "basic";
    Value v = basic ? C("XmssBasic.fromParameters", {V(sd), N(num(a[4])), N(num(a[5])), N(num(a[6])), N(num(a[7]))}) : C("Xmss.fromParameters", {V(sd), N(num(a[4])), N(num(a[5]))});
    M[a[1]] = O{v, basic}; facts(M[a[1]], j);
}
OP(jhex) { M[a[1]] = O{C("Xmss.fromHexSeed", {T(unhexs(a[2]))}), false}; facts(M[a[1]], j); }
OP(jmn) { M[a[1]] = O{C("Xmss.fromMnemonic", {T(unhexs(a[2]))}), false}; facts(M[a[1]], j); }
OP(jget) { facts(at(a[1]), j); }
OP(jset) {
    O &o = at(a[1]); long long n = num(a[2]); bool ok = true; Value r;
    j.i("pre", C(cls(o) + "getIndex", {o.v}).i);
    try { r = C(cls(o) + "setIndex", {o.v, N(n)}); } catch (NoBinding &) { throw; } catch (std::exception &) { ok = false; }
    j.b("done", ok).i("idx", C(cls(o) + "getIndex", {o.v}).i);
    if (ok) j.i("ret", (unsigned long long)r.i);
}
OP(jsign) {
    O &o = at(a[1]); B m = unhex(a[2]); bool ok = true; Value r;
    j.i("pre", C(cls(o) + "getIndex", {o.v}).i);
    try { r = C(cls(o) + "sign", {o.v, V(m)}); } catch (NoBinding &) { throw; } catch (std::exception &) { ok = false; }
    j.b("done", ok).i("idx", C(cls(o) + "getIndex", {o.v}).i);
    if (!ok) return;
    j.h("sig", r.b);
    if (a.size() > 3) {
        B pk = unhex(C(cls(o) + "getPK", {o.v}).s);
        j.b("ver", o.basic ? C("XmssBasic.verify", {V(m), V(r.b), V(pk), N(num(a[3]))}).i != 0 : C("Xmss.verify", {V(m), V(r.b), V(pk)}).i != 0);
    }
}
// jverify msg sig pk w  (w 16: through the fast class and the basic class; they must agree)
OP(jverify) {
    B m = unhex(a[1]), s = unhex(a[2]), p = unhex(a[3]); long long w = num(a[4]);
    bool b = C("XmssBasic.verify", {V(m), V(s), V(p), N(w)}).i != 0;
    j.b("v", b).b("same", w != 16 || b == (C("Xmss.verify", {V(m), V(s), V(p)}).i != 0));
}
OP(jaddr) { j.h("t", C("getAddress", {T(unhexs(a[1]))}).s); }
OP(jaddrraw) { j.h("a", C("getAddressRaw", {V(unhex(a[1]))}).b); }
OP(jvalid) { j.b("v", C("validateAddress", {T(unhexs(a[1]))}).i != 0); }
OP(jvalidraw) { j.b("v", C("validateAddressRaw", {V(unhex(a[1]))}).i != 0); }
static void one(J &j, const char *k, const char *n, const std::string &t) {
    long long r = -1;
    try { r = C(n, {T(t)}).i; } catch (NoBinding &) { throw; } catch (std::exception &) {}
    j.raw(k, std::to_string(r));
}
OP(jdesc) { std::string t = unhexs(a[1]); one(j, "hf", "getHashFunction", t); one(j, "st", "getSignatureType", t); one(j, "h", "getHeight", t); }
OP(jenum) {
    j.i("sha2", C("eHashFunction.SHA2_256", {}).i).i("shake128", C("eHashFunction.SHAKE_128", {}).i).i("shake256", C("eHashFunction.SHAKE_256", {}).i);
    j.i("xmss", C("eSignatureType.XMSS", {}).i).i("fmt", C("eAddrFormatType.SHA256_2X", {}).i);
}
OP(hex) { j.h("t", C("bin2hstr", {V(unhex(a[1]))}).s).b("inok", true); }
OP(unhex) { j.h("b", C("hstr2bin", {T(unhexs(a[1]))}).b); }
OP(str2bin) { j.h("b", C("str2bin", {T(unhexs(a[1]))}).b); }
OP(mn) { j.h("t", C("bin2mnemonic", {V(unhex(a[1]))}).s).b("inok", true); }
OP(unmn) { j.h("b", C("mnemonic2bin", {T(unhexs(a[1]))}).b); }
OP(sha2) { j.h("d", C("sha2_256", {V(unhex(a[1]))}).b).b("inok", true); }
OP(shake128) { j.h("d", C("shake128", {N(num(a[1])), V(unhex(a[2]))}).b).b("inok", true); }
int main() { return main_loop(); }
