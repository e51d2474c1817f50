// Overflow predicates and checked arithmetic: safe exactly when the mathematical result fits.
#include "sa.h"
#include <algorithm>
#include <limits>
#include <amtl/am-arithmetic.h>
#include <amtl/am-bits.h>

// the mathematical sum fits iff the carry out of the top bit is zero
template <typename T>
static bool fits_add(T a, T b) {
    return b <= T(std::numeric_limits<T>::max() - a);
}

extern "C" {
void w_add32_safe(uint32_t a, uint32_t b) { sa_assert(ke::IsUint32AddSafe(a, b) == fits_add(a, b), "add-safe-exact"); sa_reach("end"); }
void w_add64_safe(uint64_t a, uint64_t b) { sa_assert(ke::IsUint64AddSafe(a, b) == fits_add(a, b), "add-safe-exact"); sa_reach("end"); }
void w_addptr_safe(size_t a, size_t b) { sa_assert(ke::IsUintPtrAddSafe(a, b) == fits_add(a, b), "add-safe-exact"); sa_reach("end"); }
void w_add8_safe(uint8_t a, uint8_t b) { sa_assert(ke::IsUintAddSafe<uint8_t>(a, b) == fits_add(a, b), "add-safe-exact"); sa_reach("end"); }
void w_add16_safe(uint16_t a, uint16_t b) { sa_assert(ke::IsUintAddSafe<uint16_t>(a, b) == fits_add(a, b), "add-safe-exact"); sa_reach("end"); }

void w_add32_try(uint32_t a, uint32_t b, uint32_t before) {
    uint32_t out = before;
    bool ok = ke::TryUint32Add(a, b, &out);
    sa_assert(ok == fits_add(a, b), "checked-add-succeeds-iff-fits");
    sa_assert(out == (ok ? uint32_t(a + b) : before), "checked-add-stores-sum-or-nothing");
    sa_reach("end");
}
void w_add64_try(uint64_t a, uint64_t b, uint64_t before) {
    uint64_t out = before;
    bool ok = ke::TryUint64Add(a, b, &out);
    sa_assert(ok == fits_add(a, b), "checked-add-succeeds-iff-fits");
    sa_assert(out == (ok ? uint64_t(a + b) : before), "checked-add-stores-sum-or-nothing");
    sa_reach("end");
}
// products are formed at twice the width
void w_mul8_safe(uint8_t a, uint8_t b) {
    sa_assert(ke::IsUintMultiplySafe<uint8_t>(a, b) == (unsigned(a) * unsigned(b) <= 0xffu), "multiply-safe-exact");
    sa_reach("end");
}
}
