// Classification of every bit pattern.
#include "sa.h"
#include <amtl/am-float.h>
#include <bit>

template <typename F, typename U, int MANT>
static void classify(U bits) {
    F v;
    __builtin_memcpy(&v, &bits, sizeof v);
    const U sign = U(1) << (sizeof(U) * 8 - 1);
    const U mask = (U(1) << MANT) - 1;
    const U expo = U(~sign) & ~mask;
    bool inf = (bits & U(~sign)) == expo;
    bool nan = (bits & expo) == expo && (bits & mask) != 0;
    sa_assert(ke::IsInfinite(v) == inf, "infinite-exact");
    sa_assert(ke::IsNaN(v) == nan, "nan-exact");
    sa_reach("end");
}
extern "C" {
void w_float(uint32_t bits) { classify<float, uint32_t, 23>(bits); }
void w_double(uint64_t bits) { classify<double, uint64_t, 52>(bits); }
}
