// Stand-in for the PicoSHA2 submodule (absent here): SHA-256 with the same interface.
// QRL_SHA_MODE=direct : inputs  toByte(2,32) || ... || "DIRECT-DIGEST-32" || d   hash to d (chosen message digests)
// QRL_SHA_MODE=toy    : a fast mixing function instead of SHA-256 (large trees; histories only, no byte values)
#ifndef VERIF_PICOSHA2_H
#define VERIF_PICOSHA2_H
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <sstream>
#include <string>
#include <vector>
namespace picosha2 {
typedef unsigned long word_t;
typedef unsigned char byte_t;
static const size_t k_digest_size = 32;
namespace verif {
inline int mode() {
    static const int m = [] { const char *e = getenv("QRL_SHA_MODE");
        return !e ? 0 : !strcmp(e, "direct") ? 1 : !strcmp(e, "toy") ? 2 : 0; }();
    return m;
}
inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline void block(uint32_t h[8], const uint8_t *p) {
    static const uint32_t K[64] = {
        0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
        0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
        0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
        0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t(p[4*i]) << 24) | (p[4*i+1] << 16) | (p[4*i+2] << 8) | p[4*i+3];
    for (int i = 16; i < 64; i++) {
        uint32_t a = w[i-15], b = w[i-2];
        w[i] = w[i-16] + (rr(a,7) ^ rr(a,18) ^ (a >> 3)) + w[i-7] + (rr(b,17) ^ rr(b,19) ^ (b >> 10));
    }
    uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],k=h[7];
    for (int i = 0; i < 64; i++) {
        uint32_t t1 = k + (rr(e,6) ^ rr(e,11) ^ rr(e,25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
        uint32_t t2 = (rr(a,2) ^ rr(a,13) ^ rr(a,22)) + ((a & b) ^ (a & c) ^ (b & c));
        k=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=k;
}
inline void sha(const uint8_t *m, size_t n, uint8_t *out) {
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    size_t i = 0;
    for (; i + 64 <= n; i += 64) block(h, m + i);
    uint8_t t[128] = {0};
    size_t r = n - i;
    if (r) memcpy(t, m + i, r);
    t[r] = 0x80;
    size_t tot = r + 9 <= 64 ? 64 : 128;
    uint64_t bits = uint64_t(n) * 8;
    for (int k = 0; k < 8; k++) t[tot - 1 - k] = uint8_t(bits >> (8 * k));
    block(h, t);
    if (tot == 128) block(h, t + 64);
    for (int k = 0; k < 32; k++) out[k] = uint8_t(h[k / 4] >> (24 - 8 * (k % 4)));
}
inline uint64_t mix(uint64_t x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 29; x *= 0x9fb21c651e98df25ull; x ^= x >> 32; return x; }
inline void toy(const uint8_t *m, size_t n, uint8_t *out) {
    uint64_t s[4] = {0x243f6a8885a308d3ull + n, 0x13198a2e03707344ull, 0xa4093822299f31d0ull, 0x082efa98ec4e6c89ull};
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, m + i, 8); int k = (i >> 3) & 3; s[k] = (s[k] ^ v) * 0x9fb21c651e98df25ull; s[(k + 1) & 3] += s[k] ^ (s[k] >> 29); }
    if (i < n) { uint64_t v = 0; memcpy(&v, m + i, n - i); s[0] = (s[0] ^ v) * 0x9fb21c651e98df25ull; }
    uint64_t a = mix(s[0] ^ mix(s[1] ^ mix(s[2] ^ mix(s[3]))));
    for (int k = 0; k < 4; k++) { a = mix(a + s[k]); memcpy(out + 8 * k, &a, 8); }
}
inline void digest(const uint8_t *m, size_t n, uint8_t *out) {
    int md = mode();
    if (md == 2) { toy(m, n, out); return; }
    if (md == 1 && n >= 128 + 48 && m[31] == 2 && !memcmp(m + n - 48, "DIRECT-DIGEST-32", 16)) {
        bool z = true;
        for (int i = 0; i < 31; i++) z = z && m[i] == 0;
        if (z) { uint8_t t[32]; memcpy(t, m + n - 32, 32); memcpy(out, t, 32); return; }
    }
    sha(m, n, out);
}
}  // namespace verif

template <typename It, typename Out>
void hash256(It first, It last, Out ofirst, Out olast) {
    std::vector<uint8_t> in(first, last);
    uint8_t o[32];
    verif::digest(in.data(), in.size(), o);
    size_t k = 0;
    for (; ofirst != olast && k < 32; ++ofirst, ++k) *ofirst = o[k];
    for (; ofirst != olast; ++ofirst) *ofirst = 0;
}
template <typename It, typename C>
void hash256(It first, It last, C &dst) { hash256(first, last, dst.begin(), dst.end()); }
template <typename S, typename Out>
void hash256(const S &src, Out ofirst, Out olast) { hash256(src.begin(), src.end(), ofirst, olast); }
template <typename S, typename C>
void hash256(const S &src, C &dst) { hash256(src.begin(), src.end(), dst.begin(), dst.end()); }
template <typename It>
std::string bytes_to_hex_string(It first, It last) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (; first != last; ++first) { unsigned v = (unsigned char)*first; s += d[v >> 4]; s += d[v & 15]; }
    return s;
}
template <typename C>
std::string bytes_to_hex_string(const C &c) { return bytes_to_hex_string(c.begin(), c.end()); }
template <typename It>
std::string hash256_hex_string(It first, It last) { byte_t h[32]; hash256(first, last, h, h + 32); return bytes_to_hex_string(h, h + 32); }
template <typename S>
std::string hash256_hex_string(const S &s) { return hash256_hex_string(s.begin(), s.end()); }
class hash256_one_by_one {
    std::vector<uint8_t> buf_;
    uint8_t d_[32] = {0};
public:
    void init() { buf_.clear(); }
    template <typename It> void process(It f, It l) { buf_.insert(buf_.end(), f, l); }
    void finish() { verif::digest(buf_.data(), buf_.size(), d_); }
    template <typename Out> void get_hash_bytes(Out f, Out l) const { for (size_t k = 0; f != l && k < 32; ++f, ++k) *f = d_[k]; }
};
}  // namespace picosha2
#endif
