// Multiplication at 64 (and 32) bits.  The analysis reads every integer type at one eighth of its width:
// the code under test uses no constant other than 0, 1 and all-ones style masks, so it is uniform in the width.
#include "sa.h"
#include <algorithm>
#include <limits>
#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>

extern "C" {
void w_mul64_try(uint64_t a, uint64_t b, uint64_t before) {
    uint64_t out = before;
    bool ok = ke::TryUint64Multiply(a, b, &out);
    unsigned __int128 p = (unsigned __int128)a * b;
    sa_assert(ok == (p <= (unsigned __int128)(~uint64_t(0))), "checked-multiply-succeeds-iff-fits");
    sa_assert(out == (ok ? uint64_t(p) : before), "checked-multiply-stores-product-or-nothing");
    sa_reach("end");
}
void w_mul64_safe(uint64_t a, uint64_t b) {
    unsigned __int128 p = (unsigned __int128)a * b;
    sa_assert(ke::IsUint64MultiplySafe(a, b) == (p <= (unsigned __int128)(~uint64_t(0))), "multiply-safe-exact");
    sa_reach("end");
}
void w_mulptr_safe(size_t a, size_t b) {
    unsigned __int128 p = (unsigned __int128)a * b;
    sa_assert(ke::IsUintPtrMultiplySafe(a, b) == (p <= (unsigned __int128)(~uint64_t(0))), "multiply-safe-exact");
    sa_reach("end");
}
void w_mul32_safe(uint32_t a, uint32_t b) {
    uint64_t p = (uint64_t)a * b;
    sa_assert(ke::IsUint32MultiplySafe(a, b) == (p <= (uint64_t)(~uint32_t(0))), "multiply-safe-exact");
    sa_reach("end");
}
}
