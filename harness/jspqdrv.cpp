// Driver for the JavaScript bindings of Dilithium and Kyber (registered names called through the embind stand-in).
#include "common.h"
#include "pqideal.h"
#include <emscripten/bind.h>
using namespace emscripten;
static std::map<std::string, Value> D, K;
static Value &at(std::map<std::string, Value> &m, const std::string &h) { auto it = m.find(h); if (it == m.end()) throw std::logic_error("nohandle"); return it->second; }
static Value C(const std::string &n, Values v) { return call(n, v); }
static B hexb(const std::string &t) { return t.empty() ? B() : unhex(t); }
static std::string ht(const B &b) { return b.empty() ? "" : hexs(b); }
static void arg(J &j, std::vector<std::pair<const char *, B>> v) { J x; for (auto &p : v) x.h(p.first, p.second); j.raw("arg", x.end()); }
static void df(const std::string &h, J &j) {
    Value &d = at(D, h);
    B p = hexb(C("dil.Dilithium#getPK", {d}).s), s = hexb(C("dil.Dilithium#getSK", {d}).s);
    regs()["pk." + h] = p; regs()["sk." + h] = s;
    j.h("pk", p).h("sk", s).i("pksz", p.size()).i("sksz", s.size()).h("pkraw", C("dil.Dilithium#getPKRaw", {d}).b).h("skraw", C("dil.Dilithium#getSKRaw", {d}).b);
}
static void kf(const std::string &h, J &j) {
    Value &d = at(K, h);
    B p = hexb(C("kyb.Kyber#getPK", {d}).s), s = hexb(C("kyb.Kyber#getSK", {d}).s), c = hexb(C("kyb.Kyber#getCypherText", {d}).s);
    regs()["pk." + h] = p; regs()["sk." + h] = s; regs()["ct." + h] = c;
    j.h("pk", p).h("sk", s).h("pkraw", C("kyb.Kyber#getPKRaw", {d}).b).h("skraw", C("kyb.Kyber#getSKRaw", {d}).b).h("key", hexb(C("kyb.Kyber#getMyKey", {d}).s)).h("ct", c);
}
OP(dnew) { D[a[1]] = C("dil.Dilithium.empty", {}); df(a[1], j); }
OP(knew) { K[a[1]] = C("kyb.Kyber.empty", {}); kf(a[1], j); }
static void from(const Args &a, J &j, const char *n, std::map<std::string, Value> &m, void (*f)(const std::string &, J &)) {
    B p = val(a[2]), s = val(a[3]); arg(j, {{"pk", p}, {"sk", s}});
    bool ok = true;
    try { m[a[1]] = C(n, {Value(ht(p)), Value(ht(s))}); } catch (NoBinding &) { throw; } catch (std::exception &) { ok = false; }
    j.b("done", ok).b("inok", true);
    if (ok) f(a[1], j);
}
OP(dfrom) { from(a, j, "dil.Dilithium.fromKeys", D, df); }
OP(kfrom) { from(a, j, "kyb.Kyber.fromKeys", K, kf); }
OP(dget) { df(a[1], j); }
OP(kget) { kf(a[1], j); }
OP(dsign) {
    B m = val(a[2]); arg(j, {{"msg", m}});
    B s = hexb(C("dil.Dilithium#sign", {at(D, a[1]), Value(ht(m))}).s);
    if (a.size() > 3) regs()[a[3]] = s;
    j.h("sm", s).b("inok", true);
}
OP(dopen) {
    B s = val(a[1]), p = val(a[2]), o; arg(j, {{"sm", s}, {"pk", p}});
    bool v = true;
    try { o = hexb(C("dil.Dilithium.sign_open", {Value(std::string("xyz")), Value(ht(s)), Value(ht(p))}).s); } catch (NoBinding &) { throw; } catch (std::exception &) { v = false; }
    j.b("v", v).h("m", v ? o : B()).b("inok", true);
}
OP(dmsg) {
    B s = val(a[1]), r; bool ok = true; arg(j, {{"sm", s}});
    try { r = hexb(C("dil.Dilithium.extract_message", {Value(ht(s))}).s); } catch (NoBinding &) { throw; } catch (std::exception &) { ok = false; }
    j.b("done", ok).h("b", r).b("inok", true);
}
static void ked(const Args &a, J &j, const char *n, const char *f) {
    B x = val(a[2]); arg(j, {{n, x}});
    bool v = false;
    Value &k = at(K, a[1]);
    try { v = C(f, {k, Value(ht(x))}).i != 0; } catch (NoBinding &) { throw; } catch (std::exception &) {}
    j.b("v", v).b("inok", true); kf(a[1], j);
    if (a.size() > 3) regs()[a[3]] = regs()["ct." + a[1]];
}
OP(kenc) { ked(a, j, "pk", "kyb.Kyber#kem_encode"); }
OP(kdec) { ked(a, j, "ct", "kyb.Kyber#kem_decode"); }
OP(fault) { pq_faults()[a[1]] = (int)num(a[2]); }
// texts that are not hexadecimal are refused by every entry point; returns what was accepted
OP(jspqbad) {
    std::string t = unhexs(a[1]); int bad = 0;
    auto tryit = [&](const std::function<void()> &f) { try { f(); bad++; } catch (NoBinding &) { throw; } catch (std::exception &) {} };
    Value d = C("dil.Dilithium.empty", {}), k = C("kyb.Kyber.empty", {});
    std::string pk = C("dil.Dilithium#getPK", {d}).s, sk = C("dil.Dilithium#getSK", {d}).s, kp = C("kyb.Kyber#getPK", {k}).s, ks = C("kyb.Kyber#getSK", {k}).s, sm = C("dil.Dilithium#sign", {d, Value(std::string("00"))}).s;
    auto mix = [&](std::string s) { size_t n = std::min(t.size(), s.size()); s.replace(s.size() - n, n, t); return s; };
    tryit([&] { C("dil.Dilithium#sign", {d, Value(t)}); });
    tryit([&] { C("dil.Dilithium.fromKeys", {Value(mix(pk)), Value(sk)}); });
    tryit([&] { C("dil.Dilithium.fromKeys", {Value(pk), Value(mix(sk))}); });
    tryit([&] { C("dil.Dilithium.sign_open", {Value(std::string("")), Value(mix(sm)), Value(pk)}); });
    tryit([&] { C("dil.Dilithium.sign_open", {Value(std::string("")), Value(sm), Value(mix(pk))}); });
    tryit([&] { C("dil.Dilithium.extract_message", {Value(mix(sm))}); });
    tryit([&] { C("kyb.Kyber.fromKeys", {Value(mix(kp)), Value(ks)}); });
    tryit([&] { C("kyb.Kyber.fromKeys", {Value(kp), Value(mix(ks))}); });
    tryit([&] { if (!C("kyb.Kyber#kem_encode", {k, Value(mix(kp))}).i) throw std::invalid_argument(""); });
    j.i("accepted", bad);
}
int main() { return main_loop(); }
