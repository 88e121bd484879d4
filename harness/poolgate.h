// Builds pass a gate: key generation is intercepted at link time (--wrap), recognised by its seed, and can be made to
// wait, to fail, or to be a cheap stand-in.
#pragma once
#include "common.h"
#include <atomic>
#include <functional>
#include <set>
struct Gate {
    bool closed = false;                  // builds wait unless opened
    std::set<int> open, fail;
    int inside = 0;                       // builds waiting now
};
extern std::function<void(int)> gate_hook;           // called with the offset of the index being built; may block or throw
void gate_table(const B &base, uint64_t start, int n);
extern bool fake_keys;
extern std::atomic<bool> wrap_seen;              // key generation was intercepted at least once
extern unsigned build_delay_us;
extern thread_local int point_role;                  // worker thread inside a call of the pool (scheduling points are live)
