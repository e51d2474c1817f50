// Bit scans return the true index for every non-zero value of the operand's own width.
#include "sa.h"
#include <algorithm>
#include <amtl/am-bits.h>

template <int K, int N, typename F>
static inline void upto(F f) {
    if constexpr (K < N) {
        f(std::integral_constant<int, K>());
        upto<K + 1, N>(f);
    }
}
extern "C" {
void w_left32(uint32_t v) {
    sa_assume(v != 0);
    auto r = ke::FindLeftmostBit32(v);
    upto<0, 32>([&](auto k) { sa_assert((r == unsigned(k)) == ((v >> k) == 1), "highest-bit-index-32"); });
    sa_reach("end");
}
void w_left64(uint64_t v) {
    sa_assume(v != 0);
    auto r = ke::FindLeftmostBit64(v);
    upto<0, 64>([&](auto k) { sa_assert((r == unsigned(k)) == ((v >> k) == 1), "highest-bit-index-64"); });
    sa_reach("end");
}
void w_right(size_t v) {
    sa_assume(v != 0);
    auto r = ke::FindRightmostBit(v);
    upto<0, sizeof(size_t) * 8>([&](auto k) { sa_assert((r == size_t(k)) == ((v & ((size_t(2) << k) - 1)) == (size_t(1) << k)), "lowest-bit-index"); });
    sa_reach("end");
}
void w_log2(size_t v) {
    sa_assume(v != 0);
    auto r = ke::Log2(v);
    upto<0, sizeof(size_t) * 8>([&](auto k) { sa_assert((r == size_t(k)) == ((v >> k) == 1), "log2-index"); });
    sa_reach("end");
}
}
