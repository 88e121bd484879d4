// Ideal functionality behind the interfaces of the dilithium and kyber submodules (absent from this sandbox):
// deterministic in a counter, sizes as the submodules declare them, buffers used to their full extent.
#include "pqideal.h"
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <dilithium/ref/api.h>
#include <kyber/ref/api.h>
typedef std::vector<uint8_t> B;
std::map<std::string, int> &pq_faults() { static std::map<std::string, int> m; return m; }
static bool faulty(const char *w) { int &n = pq_faults()[w]; if (n > 0) { n--; return true; } return false; }
static B xof(uint8_t tag, const std::vector<B> &parts, size_t n) {
    uint64_t s[4] = {0x9e3779b97f4a7c15ull ^ tag, 0xc2b2ae3d27d4eb4full, 0x165667b19e3779f9ull, 0xd6e8feb86659fd93ull};
    auto rot = [](uint64_t x, int k) { return k ? (x << k) | (x >> (64 - k)) : x; };
    auto eat = [&](uint64_t x) { for (int i = 0; i < 4; i++) { s[i] = (s[i] ^ rot(x, 17 * i)) * (0xd6e8feb86659fd93ull + 2 * i); s[i] ^= s[i] >> 31; s[(i + 1) & 3] += s[i]; } };
    for (auto &p : parts) { eat(p.size()); for (auto b : p) eat(b + 256); }
    B o; uint64_t c = 0;
    while (o.size() < n) { eat(c ^ 0x5555); c++; for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) o.push_back(uint8_t(s[i] >> (8 * k))); }
    o.resize(n);
    return o;
}
static B fresh() {
    static uint64_t n = 0; n++;
    const char *e = getenv("QRL_PQ_SEED"); uint64_t s = e ? strtoull(e, nullptr, 10) : 0;
    B b; for (int k = 0; k < 8; k++) b.push_back(uint8_t(n >> (8 * k))); for (int k = 0; k < 8; k++) b.push_back(uint8_t(s >> (8 * k)));
    return xof(9, {b}, 32);
}
static B in(const unsigned char *p, size_t n) { return n ? B(p, p + n) : B(); }
static void out(unsigned char *p, const B &b) { if (!b.empty()) memcpy(p, b.data(), b.size()); }
static B cat(B a, const B &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
void randombytes(unsigned char *x, unsigned long long n) { out(x, xof(10, {fresh()}, n)); }
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
    B s = fresh(), p = xof(1, {s}, CRYPTO_PUBLICKEYBYTES), k = xof(2, {s}, CRYPTO_SECRETKEYBYTES);
    memcpy(k.data(), p.data(), p.size());
    out(pk, p); out(sk, k);
    return 0;
}
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *msg, unsigned long long len, const unsigned char *sk) {
    B m = in(msg, len), k = in(sk, CRYPTO_SECRETKEYBYTES), p(k.begin(), k.begin() + CRYPTO_PUBLICKEYBYTES);
    out(sm, cat(xof(3, {p, m}, CRYPTO_BYTES), m));
    *smlen = CRYPTO_BYTES + len;
    return 0;
}
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk) {
    B p = in(pk, CRYPTO_PUBLICKEYBYTES), s = in(sm, smlen);
    *mlen = (unsigned long long)-1;
    if (smlen >= CRYPTO_BYTES) {
        B msg(s.begin() + CRYPTO_BYTES, s.end()), sig(s.begin(), s.begin() + CRYPTO_BYTES);
        if (xof(3, {p, msg}, CRYPTO_BYTES) == sig) {
            out(m, cat(msg, xof(11, {msg}, CRYPTO_BYTES)));     // the reference code works in the whole buffer
            *mlen = msg.size();
            return 0;
        }
    }
    out(m, B(smlen, 0));
    return -1;
}
static B ct_of(const B &p, const B &r) { return cat(r, xof(6, {p, r}, KYBER_CIPHERTEXTBYTES - 32)); }
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) {
    B s = fresh(), p = xof(4, {s}, KYBER_PUBLICKEYBYTES), k = xof(5, {s}, KYBER_SECRETKEYBYTES);
    memcpy(k.data(), p.data(), p.size());
    out(pk, p); out(sk, k);
    return 0;
}
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) {
    B p = in(pk, KYBER_PUBLICKEYBYTES), r = fresh();
    if (faulty("enc")) { out(ct, xof(12, {r}, KYBER_CIPHERTEXTBYTES)); out(ss, xof(13, {r}, KYBER_SYMBYTES)); return -1; }
    out(ct, ct_of(p, r)); out(ss, xof(7, {p, r}, KYBER_SYMBYTES));
    return 0;
}
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) {
    B c = in(ct, KYBER_CIPHERTEXTBYTES), k = in(sk, KYBER_SECRETKEYBYTES), p(k.begin(), k.begin() + KYBER_PUBLICKEYBYTES), r(c.begin(), c.begin() + 32);
    if (faulty("dec")) { out(ss, xof(14, {c}, KYBER_SYMBYTES)); return getenv("QRL_PQ_POSITIVE") ? 1 : -1; }
    if (ct_of(p, r) == c) out(ss, xof(7, {p, r}, KYBER_SYMBYTES)); else out(ss, xof(8, {k, c}, KYBER_SYMBYTES));
    return 0;
}
