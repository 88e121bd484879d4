#pragma once
#include "common.h"
#include <memory>
#include <cstddef>
// the pool's public interface, compiled apart so that it can be instrumented
struct Tree { B seed, ext, pk, sk, sig; unsigned idx = 0, height = 0; };
void *pool_new(const B &seed, unsigned char height, size_t start, size_t size);
void pool_free(void *p);
std::shared_ptr<void> pool_next(void *p);
Tree pool_tree(const std::shared_ptr<void> &t, bool sign);
bool pool_avail(void *p);
size_t pool_cur(void *p);
extern void *volatile pool_lo;
extern void *volatile pool_hi;
