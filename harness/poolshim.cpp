#include "poolshim.h"
#include <qrl/xmssPool.h>
#include <new>
void *volatile pool_lo = nullptr;
void *volatile pool_hi = nullptr;
void *pool_new(const B &seed, unsigned char height, size_t start, size_t size) {
    void *m = ::operator new(sizeof(XmssPool));
    pool_lo = m; pool_hi = (char *)m + sizeof(XmssPool);
    try { return new (m) XmssPool(seed, height, start, size); } catch (...) { ::operator delete(m); throw; }
}
void pool_free(void *p) { delete static_cast<XmssPool *>(p); }
std::shared_ptr<void> pool_next(void *p) { return static_cast<XmssPool *>(p)->getNextTree(); }
Tree pool_tree(const std::shared_ptr<void> &v, bool sign) {
    auto t = std::static_pointer_cast<XmssFast>(v);
    if (!t) throw std::runtime_error("null tree");
    Tree r; r.seed = t->getSeed(); r.ext = t->getExtendedSeed(); r.pk = t->getPK(); r.sk = t->getSK(); r.idx = t->getIndex(); r.height = t->getHeight();
    if (sign) { B m(4, 0x70); r.sig = t->sign(m); }
    return r;
}
bool pool_avail(void *p) { return static_cast<XmssPool *>(p)->isAvailable(); }
size_t pool_cur(void *p) { return static_cast<XmssPool *>(p)->getCurrentIndex(); }
