// Driver for the C++ Dilithium and Kyber wrappers over the ideal functionality.
#include "common.h"
#include "pqideal.h"
#include <dilithium/dilithium.h>
#include <kyber/kyber.h>
static std::map<std::string, std::shared_ptr<Dilithium>> D;
static std::map<std::string, std::shared_ptr<Kyber>> K;
template <class M> static auto &at(M &m, const std::string &h) { auto it = m.find(h); if (it == m.end()) throw std::logic_error("nohandle"); return *it->second; }
static void df(const std::string &h, J &j) { auto &d = at(D, h); regs()["pk." + h] = d.getPK(); regs()["sk." + h] = d.getSK(); j.h("pk", d.getPK()).h("sk", d.getSK()).i("pksz", d.getPublicKeySize()).i("sksz", d.getSecretKeySize()); }
static void kf(const std::string &h, J &j) { auto &k = at(K, h); regs()["pk." + h] = k.getPK(); regs()["sk." + h] = k.getSK(); regs()["ct." + h] = k.getCypherText(); j.h("pk", k.getPK()).h("sk", k.getSK()).h("key", k.getMyKey()).h("ct", k.getCypherText()); }
static void arg(J &j, std::vector<std::pair<const char *, B>> v) { J x; for (auto &p : v) x.h(p.first, p.second); j.raw("arg", x.end()); }
OP(dnew) { D[a[1]] = std::make_shared<Dilithium>(); df(a[1], j); }
OP(dfrom) {
    B p = val(a[2]), s = val(a[3]), p0 = p, s0 = s; arg(j, {{"pk", p}, {"sk", s}});
    bool ok = true;
    try { D[a[1]] = std::make_shared<Dilithium>(p, s); } catch (std::exception &) { ok = false; }
    j.b("done", ok).b("inok", p == p0 && s == s0);
    if (ok) df(a[1], j);
}
OP(dget) { df(a[1], j); }
OP(dcopy) { D[a[1]] = std::make_shared<Dilithium>(at(D, a[2])); df(a[1], j); }
OP(dsign) {
    B m = val(a[2]), m0 = m; arg(j, {{"msg", m}});
    B s = at(D, a[1]).sign(m);
    if (a.size() > 3) regs()[a[3]] = s;
    j.h("sm", s).b("inok", m == m0);
}
OP(dopen) {
    B s = val(a[1]), p = val(a[2]), s0 = s, p0 = p, o = {1, 2, 3}; arg(j, {{"sm", s}, {"pk", p}});
    bool v = false;
    try { v = Dilithium::sign_open(o, s, p); } catch (std::exception &) {}
    // once more, into a buffer that held a longer text
    B big(s.size() + 77, 0xee);
    bool w = false;
    try { w = Dilithium::sign_open(big, s, p); } catch (std::exception &) {}
    j.b("v", v).h("m", v ? o : B()).b("v2", w).h("m2", w ? big : B()).b("inok", s == s0 && p == p0);
}
static void split(const Args &a, J &j, B (*f)(B &)) {
    B s = val(a[1]), s0 = s, r; bool ok = true; arg(j, {{"sm", s}});
    try { r = f(s); } catch (std::exception &) { ok = false; }
    j.b("done", ok).h("b", r).b("inok", s == s0);
}
OP(dmsg) { split(a, j, &Dilithium::extract_message); }
OP(dsig) { split(a, j, &Dilithium::extract_signature); }
OP(knew) { K[a[1]] = std::make_shared<Kyber>(); kf(a[1], j); }
OP(kfrom) {
    B p = val(a[2]), s = val(a[3]), p0 = p, s0 = s; arg(j, {{"pk", p}, {"sk", s}});
    bool ok = true;
    try { K[a[1]] = std::make_shared<Kyber>(p, s); } catch (std::exception &) { ok = false; }
    j.b("done", ok).b("inok", p == p0 && s == s0);
    if (ok) kf(a[1], j);
}
OP(kget) { kf(a[1], j); }
OP(kcopy) { K[a[1]] = std::make_shared<Kyber>(at(K, a[2])); kf(a[1], j); }
static void ked(const Args &a, J &j, const char *n, bool (Kyber::*f)(const B &)) {
    B x = val(a[2]), x0 = x; arg(j, {{n, x}});
    bool v = false;
    try { v = (at(K, a[1]).*f)(x); } catch (std::invalid_argument &) {}
    j.b("v", v).b("inok", x == x0); kf(a[1], j);
    if (a.size() > 3) regs()[a[3]] = at(K, a[1]).getCypherText();
}
OP(kenc) { ked(a, j, "pk", &Kyber::kem_encode); }
OP(kdec) { ked(a, j, "ct", &Kyber::kem_decode); }
OP(fault) { pq_faults()[a[1]] = (int)num(a[2]); }
int main() { return main_loop(); }
