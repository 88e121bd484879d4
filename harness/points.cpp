// Scheduling points.  The pool's sources are compiled with -fsanitize=thread but linked with these stand-ins instead of
// its runtime: every access to the pool object or to static data, every atomic and every lock operation made by a worker
// inside a call passes here, and a worker can be parked at its n-th point until all the others have come to rest.
#include "poolgate.h"
#include "poolshim.h"
#include <atomic>
#include <chrono>
#include <pthread.h>
#include <unistd.h>
std::atomic<uint64_t> ticks{0};
int park_at[8] = {0};                      // role -> point number (0: never)
int points_seen[8] = {0};
int park_quiet[8] = {0};
static thread_local bool in_point = false;
extern char __data_start, _end;
static void point() {
    int r = point_role;
    ticks++;
    if (!r || in_point) return;
    in_point = true;
    if (++points_seen[r & 7] == park_at[r & 7]) {
        uint64_t last = ~0ull; int quiet = 0;
        for (int n = 0; n < 400 && quiet < 6; n++) {       // 0.9 ms without anybody moving; at most 60 ms
            uint64_t now = ticks;
            if (now == last) quiet++; else { quiet = 0; last = now; }
            usleep(150);
        }
    }
    in_point = false;
}
static inline void access(void *p) {
    if (!point_role) return;
    char *c = (char *)p;
    if ((c >= (char *)pool_lo && c < (char *)pool_hi) || (c >= &__data_start && c < &_end)) point();
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define A(n) void __tsan_read##n(void *p) { access(p); } void __tsan_write##n(void *p) { access(p); } void __tsan_read_write##n(void *p) { access(p); } \
    void __tsan_unaligned_read##n(void *p) { access(p); } void __tsan_unaligned_write##n(void *p) { access(p); } void __tsan_unaligned_read_write##n(void *p) { access(p); } \
    void __tsan_volatile_read##n(void *p) { access(p); } void __tsan_volatile_write##n(void *p) { access(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_vptr_read(void **) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_read_range(void *p, unsigned long) { access(p); }
void __tsan_write_range(void *p, unsigned long) { access(p); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int, int) { point(); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (point_role) point(); int r = __real_pthread_mutex_lock(m); if (point_role) point(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (point_role) point(); int r = __real_pthread_mutex_unlock(m); if (point_role) point(); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (point_role) point(); return __real_pthread_mutex_trylock(m); }
}
