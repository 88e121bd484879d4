#include "poolgate.h"
#include "xmss-alt/algsxmss_fast.h"
#include "xmss-alt/fips202.h"
#include <unistd.h>
std::function<void(int)> gate_hook;
bool fake_keys = false;
std::atomic<bool> wrap_seen{false};
unsigned build_delay_us = 0;
thread_local int point_role = 0;
static std::map<B, int> *table = nullptr;
void gate_table(const B &base, uint64_t start, int n) {
    static B b0; static uint64_t s0; static int n0;
    if (table && b0 == base && s0 == start && n0 == n) return;
    b0 = base; s0 = start; n0 = n;
    auto t = new std::map<B, int>();                       // earlier tables may still be read by a builder: kept
    for (int k = 0; k < n; k++) {
        B in(base), out(48);
        for (uint64_t i = start + k + 1; i; i >>= 8) in.push_back(uint8_t(i));
        shake256(out.data(), 48, in.data(), in.size());
        (*t)[out] = k;
    }
    table = t;
}
// The symbol is found at build time (lib/extra.py); without one, nothing is intercepted.
extern "C" {
int real_gk(eHashFunction, xmss_params *, unsigned char *, unsigned char *, bds_state *, unsigned char *) __attribute__((weak));
int wrap_gk(eHashFunction h, xmss_params *p, unsigned char *pk, unsigned char *sk, bds_state *st, unsigned char *seed) {
    struct Off { int r; Off() : r(point_role) { point_role = 0; } ~Off() { point_role = r; } } off;
    wrap_seen = true;
    if (gate_hook && table) {
        auto it = table->find(B(seed, seed + 48));
        if (it != table->end()) gate_hook(it->second);
    }
    if (build_delay_us) usleep(build_delay_us);
    if (!fake_keys) return real_gk(h, p, pk, sk, st, seed);
    memset(sk, 0, 4);
    for (int i = 0; i < 128; i++) sk[4 + i] = seed[i % 48] ^ (unsigned char)i;
    for (int i = 0; i < 64; i++) pk[i] = sk[68 + i];
    return 0;
}
}
