// Command loop shared by the C++ drivers: one command per line, one JSON object per answer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <malloc.h>
typedef std::vector<uint8_t> B;
inline std::string hexs(const uint8_t *p, size_t n) {
    static const char *d = "0123456789abcdef";
    if (n == 0) return "-";
    std::string s; s.reserve(2 * n);
    for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    return s;
}
inline std::string hexs(const B &b) { return hexs(b.data(), b.size()); }
inline std::string hexs(const std::string &b) { return hexs((const uint8_t *)b.data(), b.size()); }
inline int nib(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline B unhex(const std::string &s) {
    if (s == "-") return B();
    B b(s.size() / 2);
    for (size_t i = 0; i < b.size(); i++) b[i] = uint8_t(nib(s[2*i]) * 16 + nib(s[2*i+1]));
    return b;
}
inline std::string unhexs(const std::string &s) { B b = unhex(s); return std::string(b.begin(), b.end()); }
inline uint64_t num(const std::string &s) { return strtoull(s.c_str(), nullptr, 10); }
inline long long cap(unsigned long long x) { return x > 2147483647ull ? 2147483647ll : (long long)x; }
struct J {
    std::string s = "{";
    J &k(const char *n) { if (s.size() > 1) s += ","; s += "\""; s += n; s += "\":"; return *this; }
    J &i(const char *n, unsigned long long v) { k(n); s += std::to_string(cap(v)); return *this; }
    J &b(const char *n, bool v) { k(n); s += v ? "true" : "false"; return *this; }
    J &h(const char *n, const B &v) { k(n); s += "\"" + hexs(v) + "\""; return *this; }
    J &h(const char *n, const std::string &v) { k(n); s += "\"" + hexs(v) + "\""; return *this; }
    J &t(const char *n, const std::string &v) { k(n); s += "\"" + v + "\""; return *this; }
    J &raw(const char *n, const std::string &v) { k(n); s += v; return *this; }
    std::string end() { return s + "}"; }
};
// Arguments may refer to earlier results: $name[:op]...[,more]  with op  <n (first n bytes)  >n (without the first n)
// ^k (flip a bit of byte k, counted from the end when negative)  +hex (append).  Events carry the resolved bytes.
inline std::map<std::string, B> &regs() { static std::map<std::string, B> m; return m; }
inline B val(const std::string &tok) {
    if (tok.empty() || tok[0] != '$') return unhex(tok);
    B all; std::istringstream parts(tok); std::string p;
    while (std::getline(parts, p, ',')) {
        std::istringstream is(p); std::string f; B b; bool first = true;
        while (std::getline(is, f, ':')) {
            if (first) { first = false; if (f[0] == '$') { auto it = regs().find(f.substr(1)); if (it == regs().end()) throw std::logic_error("nohandle"); b = it->second; } else b = unhex(f); continue; }
            std::string r = f.substr(1);
            if (f[0] == '<') { size_t n = num(r); if (n < b.size()) b.resize(n); }
            else if (f[0] == '>') { size_t n = num(r); b.erase(b.begin(), b.begin() + (n < b.size() ? n : b.size())); }
            else if (f[0] == '^') { long long k = strtoll(r.c_str(), nullptr, 10); if (k < 0) k += (long long)b.size(); if (!b.empty()) b[(size_t)k % b.size()] ^= uint8_t(1u << (k % 8)); }
            else if (f[0] == '+') { B x = unhex(r); b.insert(b.end(), x.begin(), x.end()); }
        }
        all.insert(all.end(), b.begin(), b.end());
    }
    all.shrink_to_fit();
    return all;
}
typedef std::vector<std::string> Args;
typedef std::function<void(const Args &, J &)> Op;
inline std::map<std::string, Op> &ops() { static std::map<std::string, Op> m; return m; }
struct Reg { Reg(const char *n, Op f) { ops()[n] = f; } };
#define OP(name) static void op_##name(const Args &a, J &j); static Reg reg_##name(#name, op_##name); static void op_##name(const Args &a, J &j)
inline std::string run_line(const std::string &line) {
    std::istringstream is(line);
    Args a; std::string t;
    while (is >> t) a.push_back(t);
    if (a.empty()) return "";
    J j;
    auto it = ops().find(a[0]);
    if (it == ops().end()) { j.t("r", "noop"); return j.end(); }
    try { it->second(a, j); j.t("r", "ok"); }
    catch (std::exception &e) { J k; if (std::string(e.what()) == "nohandle") { k.t("r", "noop"); return k.end(); } k.t("r", "err"); k.t("kind", dynamic_cast<std::invalid_argument *>(&e) ? "arg" : "other"); return k.end(); }
    catch (...) { J k; k.t("r", "err"); k.t("kind", "other"); return k.end(); }
    return j.end();
}
// rep n script: the commands again and again; the bytes in use before, in the middle and at the end
inline size_t in_use() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
OP(rep) {
    std::istringstream in(unhexs(a[2])); std::vector<std::string> ls; std::string l; size_t n = num(a[1]), bad = 0;
    while (std::getline(in, l)) ls.push_back(l);
    auto go = [&](size_t k) { for (size_t i = 0; i < k; i++) for (auto &c : ls) if (run_line(c).find("\"r\":\"ok\"") == std::string::npos) bad++; };
    go(5); size_t m0 = in_use(); go(n); size_t m1 = in_use(); go(n); size_t m2 = in_use();
    j.i("d1", m1 > m0 ? m1 - m0 : 0).i("d2", m2 > m1 ? m2 - m1 : 0).i("refused", bad);
}
inline bool &stop_now() { static bool b = false; return b; }      // a driver that cannot go on
inline int main_loop() {
    std::string line;
    // answers go to the descriptor the harness gave, so that library chatter on stdout cannot mix in
    int fd = getenv("QRL_OUT_FD") ? atoi(getenv("QRL_OUT_FD")) : 1;
    FILE *out = fdopen(fd, "w");
    while (std::getline(std::cin, line)) {
        std::string r = run_line(line);
        if (r.empty()) continue;
        fputs(r.c_str(), out); fputc('\n', out); fflush(out);
        if (stop_now()) break;
    }
    return 0;
}
