#include <amtl/am-arithmetic.h>   // first, and alone

bool use(uint32_t a, uint64_t b) {
    uint32_t o;
    uint64_t p;
    return ke::TryUint32Add(a, a, &o) && ke::TryUint64Add(b, b, &p) && ke::TryUint64Multiply(b, b, &p);
}
