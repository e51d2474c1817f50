// Fixed arrays of up to three elements, for payload types of many shapes.
#include <assert.h>
#include <amtl/am-fixedarray.h>
#include "pol.h"
#include "shapes.h"
#include "libc.h"
using namespace ke;
template <typename T> static inline void fill(FixedArray<T>& a, unsigned char t) { for (size_t i = 0; i < a.size(); i++) Shape<T>::put(a[i], t + i); }
#define ALL(a, n, t, rule) do { sa_assert((a).size() == (n), rule); for (size_t i_ = 0; i_ < (n); i_++) sa_assert(Shape<T>::is((a)[i_], (unsigned char)((t) + i_)), rule); } while (0)
template <typename T> static inline void any() {
    unsigned char t = sa_u8(); sa_assume(t < 200);
    for (size_t n = 1; n <= 3; n += 2) {
        sa_malloc_ok();
        {
            FixedArray<T> a(n); fill(a, t);
            ALL(a, n, t, "access");
            FixedArray<T> b(a);
            ALL(b, n, t, "copy-equals-source"); ALL(a, n, t, "copy-keeps-source");
            Shape<T>::put(b[n - 1], t + 40);
            ALL(a, n, t, "copy-keeps-source");
            FixedArray<T> c(std::move(b));
            sa_assert(c.size() == n && b.size() == 0 && Shape<T>::is(c[n - 1], t + 40), "move-transfers-buffer");
        }
        SHAPES_END();
    }
    sa_reach("end");
}
template <typename T> static inline void any_assign() {
    unsigned char t = sa_u8(); sa_assume(t < 200);
    for (size_t n = 1; n <= 3; n += 2) {
        size_t m = 4 - n;
        sa_malloc_ok();
        {
            FixedArray<T> a(n), b(m); fill(a, t); fill(b, t + 20);
            b = a;
            ALL(b, n, t, "copy-equals-source"); ALL(a, n, t, "copy-keeps-source");
            FixedArray<T> c(m + 1); fill(c, t + 20);
            c = std::move(a);
            ALL(c, n, t, "move-transfers-buffer"); sa_assert(a.size() == 0, "moved-from-is-empty");
            FixedArray<T>& r = b; b = r;
            ALL(b, n, t, "self-assignment-changes-nothing");
        }
        SHAPES_END();
    }
    sa_reach("end");
}
template <typename T> static inline void any_move() {
    unsigned char t = sa_u8(); sa_assume(t < 200);
    for (size_t n = 1; n <= 3; n += 2) {
        sa_malloc_ok();
        {
            FixedArray<T> a(n); fill(a, t);
            FixedArray<T> b(std::move(a)), c(2);
            ALL(b, n, t, "move-transfers-buffer"); sa_assert(a.size() == 0, "moved-from-is-empty");
            c = std::move(b);
            ALL(c, n, t, "move-transfers-buffer"); sa_assert(b.size() == 0, "moved-from-is-empty");
        }
        SHAPES_END();
    }
    sa_reach("end");
}
#define X(name, T) extern "C" void w_any_##name() { any<T>(); } extern "C" void w_anyassign_##name() { any_assign<T>(); }
SHAPES_COPYABLE(X)
#undef X
#define X(name, T) extern "C" void w_anymove_##name() { any_move<T>(); }
SHAPES_MOVEONLY(X)
#undef X
// equality is that of the elements, at any position, whatever the bytes between them
struct Padded { char c; int i; bool operator==(const Padded& o) const { return c == o.c && i == o.i; } bool operator!=(const Padded& o) const { return !(*this == o); } };
template <typename T> static inline void differ() {
    unsigned char t = sa_u8(); sa_assume(t < 200);
    for (size_t n = 1; n <= 3; n += 2)
        for (size_t k = 0; k < n; k++) {
            sa_malloc_ok();
            FixedArray<T> a(n), b(n); fill(a, t); fill(b, t);
            sa_assert(a == b && !(a != b), "comparison");
            Shape<T>::put(b[k], t + k + 31);
            sa_assert(!(a == b) && a != b && !(b == a) && b != a, "comparison");
        }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_differ_##name() { differ<T>(); }
SHAPES_COPYABLE(X)
#undef X
extern "C" void w_zeros() {
    {
        sa_malloc_ok();
        FixedArray<double> a(2), b(2);
        a[0] = 0.0; b[0] = -0.0; a[1] = b[1] = 1.5;
        sa_assert(a == b && !(a != b), "comparison");
    }
    SHAPES_END(); sa_reach("end");
}
extern "C" void w_padding() {
    {
        sa_malloc_ok();
        FixedArray<Padded> a(2), b(2);
        memset((void*)&a[0], 1, sizeof(Padded) * 2); memset((void*)&b[0], 2, sizeof(Padded) * 2);
        for (int i = 0; i < 2; i++) { a[i].c = b[i].c = 3; a[i].i = b[i].i = 4 + i; }
        sa_assert(a == b && !(a != b), "comparison");
    }
    SHAPES_END(); sa_reach("end");
}
