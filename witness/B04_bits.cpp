// Pointer tags, alignment, powers of two: exactly the named bits.
#include "sa.h"
#include <algorithm>
#include <amtl/am-bits.h>

template <int K, int N, typename F>
static inline void upto(F f) {
    if constexpr (K < N) {
        f(std::integral_constant<int, K>());
        upto<K + 1, N>(f);
    }
}
static const int W = sizeof(uintptr_t) * 8;

extern "C" {
void w_set(uintptr_t p, uintptr_t bits) {
    sa_assert(reinterpret_cast<uintptr_t>(ke::SetPointerBits(reinterpret_cast<uint64_t*>(p), bits)) == (p | bits), "set-adds-exactly-the-bits");
    sa_reach("end");
}
void w_get_clear(uintptr_t p) {
    upto<0, W>([&](auto k) {
        constexpr uintptr_t low = k ? (uintptr_t(1) << k) - 1 : 0;
        sa_assert(ke::GetPointerBits<k>(reinterpret_cast<void*>(p)) == (p & low), "get-reveals-exactly-the-low-bits");
        sa_assert(reinterpret_cast<uintptr_t>(ke::ClearPointerBits<k>(reinterpret_cast<uint64_t*>(p))) == (p & ~low), "clear-drops-exactly-the-low-bits");
    });
    sa_reach("end");
}
void w_tag_roundtrip(uintptr_t p, uintptr_t bits) {
    upto<0, W>([&](auto k) {
        constexpr uintptr_t low = k ? (uintptr_t(1) << k) - 1 : 0;
        if ((p & low) == 0 && (bits & ~low) == 0) {
            uint64_t* t = ke::SetPointerBits(reinterpret_cast<uint64_t*>(p), bits);
            sa_assert(ke::GetPointerBits<k>(t) == bits, "tag-round-trip");
            sa_assert(reinterpret_cast<uintptr_t>(ke::ClearPointerBits<k>(t)) == p, "tag-round-trip");
        }
    });
    sa_reach("end");
}
void w_align_down(uintptr_t p) {
    upto<0, W>([&](auto k) {
        constexpr size_t al = size_t(1) << k;
        void* v = reinterpret_cast<void*>(p);
        sa_assert(reinterpret_cast<uintptr_t>(ke::AlignedBase(v, al)) == (p & ~uintptr_t(al - 1)), "aligned-base-clears-exactly-the-low-bits");
        sa_assert(ke::IsAligned(v, al) == ((p & (al - 1)) == 0), "aligned-iff-low-bits-zero");
        sa_assert(ke::IsAligned(p, al) == ((p & (al - 1)) == 0), "aligned-iff-low-bits-zero");
        sa_assert(ke::IsAligned(ke::AlignedBase(v, al), al), "aligned-base-is-aligned");
    });
    sa_reach("end");
}
// rounding up: the least multiple not below, for every value that has one
void w_align_up(size_t n) {
    upto<0, W>([&](auto k) {
        constexpr size_t al = size_t(1) << k;
        if (n <= size_t(0) - al || al == 1) {
            size_t r = ke::Align(n, al);
            sa_assert((r & (al - 1)) == 0 && r >= n && r - n < al, "align-rounds-up-to-the-next-multiple");
        }
    });
    sa_reach("end");
}
void w_pow2(size_t v) {
    bool one = false;
    upto<0, W>([&](auto k) { one = one | (v == size_t(1) << k); });
    sa_assert(ke::IsPowerOfTwo(v) == one, "power-of-two-iff-one-bit");
    sa_reach("end");
}
}
