// Driver for the C++ library: executes public API calls, reports observable results only.
#include "common.h"
#include <qrl/xmssFast.h>
#include <qrl/xmssBasic.h>
#include <qrl/xmssPool.h>
#include <qrl/qrlHelper.h>
#include <qrl/qrlDescriptor.h>
#include <qrl/misc.h>
#include <qrl/hashing.h>
#include <thread>
#include <atomic>

static std::map<std::string, std::shared_ptr<XmssBase>> S;
#include <mutex>
static std::mutex Smu;
static std::shared_ptr<XmssBase> get(const std::string &h) {
    std::lock_guard<std::mutex> l(Smu);
    auto it = S.find(h);
    if (it == S.end()) { fprintf(stderr, "no handle %s\n", h.c_str()); throw std::logic_error("nohandle"); }
    return it->second;
}
static void put(const std::string &h, std::shared_ptr<XmssBase> p) { std::lock_guard<std::mutex> l(Smu); S[h] = p; }
static void drop(const std::string &h) { std::shared_ptr<XmssBase> k; std::lock_guard<std::mutex> l(Smu); auto it = S.find(h); if (it != S.end()) { k = it->second; S.erase(it); } }
static XmssBase &sg(const std::string &h) { return *get(h); }

static void facts(XmssBase &x, J &j, uint32_t w) {
    j.i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()).i("nsig", x.getNumberSignatures()).i("height", x.getHeight());
    j.h("sk", x.getSK()).h("pk", x.getPK()).h("root", x.getRoot()).h("pkseed", x.getPKSeed()).h("skseed", x.getSKSeed());
    j.h("skprf", x.getSKPRF()).h("ext", x.getExtendedSeed()).h("seed0", x.getSeed()).h("desc", x.getDescriptorBytes());
    j.i("sigsz", x.getSignatureSize(w)).i("sksz", x.getSecretKeySize()).i("pksz", x.getPublicKeySize());
    auto d = x.getDescriptor();
    j.i("dhf", d.getHashFunction()).i("dst", d.getSignatureType()).i("dh", d.getHeight()).i("dfmt", d.getAddrFormatType());
    try { j.h("addr", x.getAddress()); } catch (std::exception &) { j.t("addr", "none"); }
}
// xnew h kind seed height hf fmt w
OP(xnew) {
    B seed = unhex(a[3]), c = seed; uint8_t h = num(a[4]); auto hf = (eHashFunction)num(a[5]); auto fm = (eAddrFormatType)num(a[6]); uint32_t w = num(a[7]);
    std::shared_ptr<XmssBase> p;
    if (a[2] == "fast") { auto f = std::make_shared<XmssFast>(seed, h, hf, fm); if (w != 16) f->initialize_tree(w); p = f; }
    else p = std::make_shared<XmssBasic>(seed, h, hf, fm, w);
    put(a[1], p); facts(*p, j, w); j.b("inok", seed == c);
}
OP(xext) { B e = unhex(a[2]), c = e; auto p = std::make_shared<XmssFast>(e); put(a[1], p); facts(*p, j, 16); j.b("inok", e == c); }
// through text forms
OP(xexthex) { auto p = std::make_shared<XmssFast>(hstr2bin(unhexs(a[2]))); put(a[1], p); facts(*p, j, 16); }
OP(xextmn) { auto p = std::make_shared<XmssFast>(mnemonic2bin(unhexs(a[2]))); put(a[1], p); facts(*p, j, 16); }
// xbak b src: what a wallet keeps of a signer, as text and as bytes; xres h b how: a signer rebuilt from it
struct Backup { B ext; std::string hex, mn; B seed; uint8_t height; eHashFunction hf; eAddrFormatType fmt; };
static std::map<std::string, Backup> K;
OP(xbak) {
    auto &x = sg(a[2]); B e = x.getExtendedSeed(); auto d = x.getDescriptor();
    Backup b{e, bin2hstr(e), bin2mnemonic(e), x.getSeed(), x.getHeight(), d.getHashFunction(), d.getAddrFormatType()};
    { std::lock_guard<std::mutex> l(Smu); K[a[1]] = b; }
    j.h("ext", b.ext).h("hext", b.hex).h("mn", b.mn);
}
OP(xres) {
    Backup b; { std::lock_guard<std::mutex> l(Smu); b = K.at(a[2]); }
    std::shared_ptr<XmssFast> p;
    if (a[3] == "raw") p = std::make_shared<XmssFast>(b.ext);
    else if (a[3] == "hex") p = std::make_shared<XmssFast>(hstr2bin(b.hex));
    else if (a[3] == "mn") p = std::make_shared<XmssFast>(mnemonic2bin(b.mn));
    else p = std::make_shared<XmssFast>(b.seed, b.height, b.hf, b.fmt);
    put(a[1], p); facts(*p, j, 16);
}
OP(xinit) { auto f = std::dynamic_pointer_cast<XmssFast>(get(a[1])); uint32_t w = num(a[2]); f->initialize_tree(w); facts(*f, j, w); }
OP(xget) { facts(sg(a[1]), j, num(a[2])); }
OP(xidx) { auto &x = sg(a[1]); j.i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()); }
OP(xcopy) {
    if (auto f = std::dynamic_pointer_cast<XmssFast>(get(a[2]))) put(a[1], std::make_shared<XmssFast>(*f));
    else if (auto b = std::dynamic_pointer_cast<XmssBasic>(get(a[2]))) put(a[1], std::make_shared<XmssBasic>(*b));
    auto &x = sg(a[1]); j.i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()).h("pk", x.getPK());
}
OP(xmove) {
    if (auto f = std::dynamic_pointer_cast<XmssFast>(get(a[2]))) put(a[1], std::make_shared<XmssFast>(std::move(*f)));
    else if (auto b = std::dynamic_pointer_cast<XmssBasic>(get(a[2]))) put(a[1], std::make_shared<XmssBasic>(std::move(*b)));
    drop(a[2]);
    auto &x = sg(a[1]); j.i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()).h("pk", x.getPK());
}
OP(xassign) {
    auto f = std::dynamic_pointer_cast<XmssFast>(get(a[1])); auto g = std::dynamic_pointer_cast<XmssFast>(get(a[2]));
    if (f && g) *f = *g; else *std::dynamic_pointer_cast<XmssBasic>(get(a[1])) = *std::dynamic_pointer_cast<XmssBasic>(get(a[2]));
    auto &x = sg(a[1]); j.i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()).h("pk", x.getPK());
}
// exchange two objects (a move construction and two move assignments)
OP(xswap) {
    if (auto f = std::dynamic_pointer_cast<XmssFast>(get(a[1]))) std::swap(*f, *std::dynamic_pointer_cast<XmssFast>(get(a[2])));
    else std::swap(*std::dynamic_pointer_cast<XmssBasic>(get(a[1])), *std::dynamic_pointer_cast<XmssBasic>(get(a[2])));
    auto &x = sg(a[1]); j.i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()).h("pk", x.getPK());
}
OP(xfree) { drop(a[1]); }
// both report the index afterwards, also when refused
OP(xset) {
    auto &x = sg(a[1]); uint32_t n = (uint32_t)num(a[2]);
    j.i("pre", x.getIndex());
    bool ok = true;
    unsigned r = 0;
    try { r = x.setIndex(n); } catch (std::exception &) { ok = false; }
    j.b("done", ok).i("idx", x.getIndex()).i("rem", x.getRemainingSignatures());
    if (ok) j.i("ret", r);
}
OP(xsign) {
    auto &x = sg(a[1]); B m = unhex(a[2]), c = m;
    bool wantpk = a.size() > 3;
    j.i("pre", x.getIndex());
    bool ok = true; B sig;
    try { sig = x.sign(m); } catch (std::exception &) { ok = false; }
    j.b("done", ok).i("idx", x.getIndex()).i("rem", x.getRemainingSignatures()).b("inok", m == c);
    if (ok) j.h("sig", sig);
    if (ok && wantpk) {
        uint32_t w = num(a[3]);
        B pk = x.getPK();
        j.b("ver", XmssBase::verify(m, sig, pk, w)).h("pk", pk).i("siglen", sig.size()).i("sigsz", x.getSignatureSize(w));
        unsigned hh = 999; try { hh = XmssBase::getHeightFromSigSize(sig.size(), w); } catch (std::exception &) {}
        j.i("hfs", hh).i("height", x.getHeight());
    }
}
// big messages: pattern of given length and tag byte
static B pattern(size_t n, unsigned tag) { B b(n); for (size_t i = 0; i < n; i++) b[i] = uint8_t(i * 131 + (i >> 8) * 7 + (i >> 16) * 3 + tag); return b; }
OP(xsignbig) {
    auto &x = sg(a[1]); B m = pattern(num(a[2]), num(a[3])), c = m; uint32_t w = num(a[4]);
    j.i("pre", x.getIndex());
    B sig = x.sign(m); B pk = x.getPK();
    bool v = XmssBase::verify(m, sig, pk, w);
    B m2 = m; if (!m2.empty()) m2[m2.size() - 1] ^= 1; else m2.push_back(0);
    B m3 = m; m3.push_back(0);
    j.b("ver", v).b("ver2", XmssBase::verify(m2, sig, pk, w)).b("ver3", XmssBase::verify(m3, sig, pk, w)).b("inok", m == c).i("siglen", sig.size()).h("sig", sig).h("pk", pk).i("idx", x.getIndex());
    unsigned hh = 999; try { hh = XmssBase::getHeightFromSigSize(sig.size(), w); } catch (std::exception &) {}
    j.i("hfs", hh).i("height", x.getHeight()).b("done", true);
}
// verify msg sig pk w : called twice, inputs compared before and after
OP(verify) {
    B m = unhex(a[1]), s = unhex(a[2]), p = unhex(a[3]); uint32_t w = num(a[4]);
    B m0 = m, s0 = s, p0 = p;
    m.shrink_to_fit(); s.shrink_to_fit(); p.shrink_to_fit();
    bool v1 = XmssBase::verify(m, s, p, w);
    bool v2 = XmssBase::verify(m, s, p, w);
    j.b("v", v1).b("same", v1 == v2).b("inok", m == m0 && s == s0 && p == p0);
}
// xwalk h to w msg : sign msg at every index from the current one up to `to`, report what went wrong (large trees)
OP(xwalk) {
    auto &x = sg(a[1]); uint32_t to = num(a[2]), w = num(a[3]); B m = unhex(a[4]); B pk = x.getPK();
    uint32_t start = x.getIndex(), bad = 0, firstbad = 0;
    for (uint32_t i = start; i < to; i++) {
        B s = x.sign(m);
        bool ok = XmssBase::verify(m, s, pk, w) && s[0] == (uint8_t)(i >> 24) && s[1] == (uint8_t)(i >> 16) && s[2] == (uint8_t)(i >> 8) && s[3] == (uint8_t)i;
        if (!ok && !bad++) firstbad = i;
    }
    j.i("pre", start).i("idx", x.getIndex()).i("bad", bad).i("firstbad", firstbad).b("done", true);
}
OP(hfs) { j.i("h", XmssBase::getHeightFromSigSize((size_t)num(a[1]), num(a[2]))); }
OP(basesz) { j.i("n", XmssBase::calculateSignatureBaseSize(num(a[1]))); }
static void dfacts(QRLDescriptor d, J &j) {
    j.i("hf", d.getHashFunction()).i("st", d.getSignatureType()).i("h", d.getHeight()).i("fmt", d.getAddrFormatType()).h("bytes", d.getBytes());
}
OP(dbytes) { dfacts(QRLDescriptor::fromBytes(unhex(a[1])), j); }
OP(dext) { dfacts(QRLDescriptor::fromExtendedSeed(unhex(a[1])), j); }
OP(dpk) { dfacts(QRLDescriptor::fromExtendedPK(unhex(a[1])), j); }
OP(dmake) { dfacts(QRLDescriptor((eHashFunction)num(a[1]), (eSignatureType)num(a[2]), num(a[3]), (eAddrFormatType)num(a[4])), j); }
OP(addr) { B p = unhex(a[1]), c = p; j.h("a", QRLHelper::getAddress(p)).b("inok", p == c); }
OP(addrok) { B p = unhex(a[1]), c = p; j.b("v", QRLHelper::addressIsValid(p)).b("inok", p == c); }
OP(hex) { B p = unhex(a[1]), c = p; j.h("t", bin2hstr(p, num(a[2]))).b("inok", p == c); }
OP(hexs) { std::string p = unhexs(a[1]); j.h("t", bin2hstr(p, num(a[2]))).b("inok", true); }
OP(unhex) { j.h("b", hstr2bin(unhexs(a[1]))); }
OP(str2bin) { j.h("b", str2bin(unhexs(a[1]))); }
OP(mn) { B p = unhex(a[1]), c = p; j.h("t", bin2mnemonic(p)).b("inok", p == c); }
OP(unmn) { j.h("b", mnemonic2bin(unhexs(a[1]))); }
OP(shake128) { B p = unhex(a[2]), c = p; j.h("d", shake128((size_t)num(a[1]), p)).b("inok", p == c); }
OP(shake256) { B p = unhex(a[2]), c = p; j.h("d", shake256((size_t)num(a[1]), p)).b("inok", p == c); }
OP(sha2) { B p = unhex(a[1]), c = p; j.h("d", sha2_256(p)).b("inok", p == c); }
OP(sha2n) { B p = unhex(a[1]), c = p; j.h("d", sha2_256_n(p, (size_t)num(a[2]))).b("inok", p == c); }
OP(hcs) {
    B s = unhex(a[1]), c = s;
    auto r = getHashChainSeed(s, (uint32_t)num(a[2]), (uint32_t)num(a[3]));
    std::string o = "[";
    for (size_t i = 0; i < r.size(); i++) { if (i) o += ","; o += "\"" + hexs(r[i]) + "\""; }
    j.raw("seeds", o + "]").b("inok", s == c);
}
// hcsat seed shift n positions : a long list, of which only some elements are recorded
OP(hcsat) {
    B s = unhex(a[1]), c = s, at = unhex(a[4]);
    auto r = getHashChainSeed(s, (uint32_t)num(a[2]), (uint32_t)num(a[3]));
    std::string o = "[";
    for (size_t i = 0; i + 4 <= at.size(); i += 4) {
        size_t k = at[i] | (size_t)at[i + 1] << 8 | (size_t)at[i + 2] << 16 | (size_t)at[i + 3] << 24;
        if (i) o += ",";
        o += "\"" + (k < r.size() ? hexs(r[k]) : std::string()) + "\"";
    }
    j.i("count", r.size()).raw("seeds", o + "]").b("inok", s == c);
}
// xhold h g msg : what calls returned is kept (not copied) while other calls are made, then compared with a snapshot
OP(xhold) {
    auto &x = sg(a[1]); auto &y = sg(a[2]); B m = unhex(a[3]);
    auto &&sig = x.sign(m); auto &&pk = x.getPK(); auto &&ext = x.getExtendedSeed(); auto &&root = x.getRoot(); auto &&desc = x.getDescriptorBytes();
    auto &&ad = QRLHelper::getAddress(pk); auto &&h1 = shake128(40, pk); auto &&h2 = shake256(40, pk); auto &&h3 = sha2_256(pk);
    auto &&t1 = bin2hstr(pk); auto &&t2 = bin2mnemonic(ext); auto &&b1 = hstr2bin(t1); auto &&b2 = mnemonic2bin(t2);
    auto &&hc = getHashChainSeed(root, 1, 2);
    auto snap = [&] { return hexs(sig) + hexs(pk) + hexs(ext) + hexs(root) + hexs(desc) + hexs(ad) + hexs(h1) + hexs(h2) + hexs(h3) + t1 + t2 + hexs(b1) + hexs(b2) + hexs(hc[0]) + hexs(hc[1]); };
    std::string before = snap();
    B m2(m); m2.push_back(7);
    try { y.sign(m2); } catch (std::exception &) {}
    try { x.sign(m2); } catch (std::exception &) {}
    y.getPK(); y.getExtendedSeed(); y.getRoot(); y.getDescriptorBytes(); QRLHelper::getAddress(y.getPK()); shake128(40, m2); shake256(40, m2); sha2_256(m2);
    bin2hstr(m2); bin2mnemonic(B(48, 1)); hstr2bin("00ff"); mnemonic2bin("aback abbey"); getHashChainSeed(B(32, 1), 5, 2);
    XmssBase::verify(m2, sig, pk, 16); XmssBase::verify(m, sig, pk, 16);
    j.b("held", snap() == before).i("idx", x.getIndex()).i("idx2", y.getIndex());
}
// pshare n msg sig pk w : threads use the same constant arguments at the same time
OP(pshare) {
    size_t n = num(a[1]); const B m = unhex(a[2]), s = unhex(a[3]), p = unhex(a[4]); uint32_t w = num(a[5]);
    const B m0 = m, s0 = s, p0 = p;
    std::vector<std::string> out(n); std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] {
        ready++; while (ready < n) {}
        for (int k = 0; k < 4; k++) {
            std::string o = XmssBase::verify(m, s, p, w) ? "1" : "0";
            o += hexs(shake128(50, s)) + hexs(shake256(200, m)) + hexs(sha2_256(s)) + bin2hstr(p) + hexs(getHashChainSeed(p, 3, 2)[1]);
            try { o += hexs(QRLHelper::getAddress(p)); } catch (std::exception &) { o += "x"; }
            try { o += bin2mnemonic(s); } catch (std::exception &) { o += "y"; }
            if (k && o != out[i]) out[i] = "changed" + std::to_string(i); else out[i] = o;
        }
    });
    for (auto &t : th) t.join();
    bool same = m == m0 && s == s0 && p == p0;
    for (auto &o : out) same = same && o == out[0];
    j.b("held", same).b("v", out[0][0] == '1');
}
// several threads run one command list each; answers come back in one array per thread
OP(par) {
    // par n  ; followed by n lines "cmd;cmd;..." passed hex-encoded
    size_t n = num(a[1]);
    std::vector<std::vector<std::string>> in(n), out(n);
    for (size_t i = 0; i < n; i++) { std::istringstream is(unhexs(a[2 + i])); std::string l; while (std::getline(is, l)) in[i].push_back(l); }
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] { ready++; while (ready < n) {} for (auto &l : in[i]) out[i].push_back(run_line(l)); });
    for (auto &t : th) t.join();
    std::string o = "[";
    for (size_t i = 0; i < n; i++) { if (i) o += ","; o += "["; for (size_t k = 0; k < out[i].size(); k++) { if (k) o += ","; o += out[i][k]; } o += "]"; }
    j.raw("out", o + "]");
}
OP(rng) { std::string e = unhexs(a[2]); j.h("b", getRandomSeed((uint32_t)num(a[1]), e)); }

int main() { return main_loop(); }
