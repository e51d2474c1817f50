// Vector and deque helpers on elements of many shapes.
#include <assert.h>
#include "sa.h"
#include <algorithm>
#include <amtl/am-deque.h>
#include <amtl/am-vector.h>
#include <utility>
#include "shapes.h"
using namespace ke;
template <typename T, class C> static inline void fill(C& c, int n, unsigned char t) { for (int i = 0; i < n; i++) { c.emplace_back(); Shape<T>::put(c.back(), t + i); } }
#define ARE(c, n, ...) do { const int e_[] = {__VA_ARGS__}; sa_assert((c).size() == (n), "exactly-the-elements-named"); \
    size_t i_ = 0; for (const auto& x_ : (c)) { if (i_ < (n)) sa_assert(Shape<T>::is(x_, (unsigned char)(t + e_[i_])), "exactly-the-elements-named"); i_++; } } while (0)
template <typename T> static inline void any_move() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        std::vector<T> a, b, c;
        fill<T>(a, 2, t); fill<T>(b, 2, t + 20);
        MoveExtend(&a, &b); ARE(a, 4, 0, 1, 20, 21); sa_assert(b.empty(), "source-is-emptied");
        MoveExtend(&c, &a); ARE(c, 4, 0, 1, 20, 21); sa_assert(a.empty(), "source-is-emptied");
        fill<T>(a, 3, t + 50);
        MoveExtend(&b, &a); ARE(b, 3, 50, 51, 52); sa_assert(a.empty(), "source-is-emptied");
        T x = PopBack(&c); sa_assert(Shape<T>::is(x, t + 21), "returns-the-removed-element"); ARE(c, 3, 0, 1, 20);
        RemoveAt(&c, 1); ARE(c, 2, 0, 20);
        InsertAt(&c, 1, std::move(x)); ARE(c, 3, 0, 21, 20);
        T y{}; Shape<T>::put(y, t + 9);
        EmplaceAt(&c, 0, std::move(y)); ARE(c, 4, 9, 0, 21, 20);
        T z{}; Shape<T>::put(z, t + 8);
        InsertAt(&c, 4, std::move(z)); ARE(c, 5, 9, 0, 21, 20, 8);
        EraseIf(&c, [t](const T& v) -> bool { return Shape<T>::is(v, t) || Shape<T>::is(v, t + 20); }); ARE(c, 3, 9, 21, 8);
        EraseIf(&c, [t](const T& v) -> bool { return Shape<T>::is(v, t + 70); }); ARE(c, 3, 9, 21, 8);
        RemoveAt(&c, 2); ARE(c, 2, 9, 21);
        RemoveAt(&c, 0); ARE(c, 1, 21);
    }
    SHAPES_END(); sa_reach("end");
}
template <typename T> static inline void any_deque() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        std::deque<T> d; fill<T>(d, 3, t);
        { T x = PopFront(&d); sa_assert(Shape<T>::is(x, t), "returns-the-removed-element"); ARE(d, 2, 1, 2); }
        { T x = PopBack(&d); sa_assert(Shape<T>::is(x, t + 2), "returns-the-removed-element"); ARE(d, 1, 1); }
        { T x = PopFront(&d); sa_assert(Shape<T>::is(x, t + 1) && d.empty(), "returns-the-removed-element"); }
    }
    SHAPES_END(); sa_reach("end");
}
template <typename T> static inline void any_copy() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        std::vector<T> a; fill<T>(a, 3, t);
        T x{}; Shape<T>::put(x, t + 9);
        const T& cx = x;
        InsertAt(&a, 1, cx); ARE(a, 4, 0, 9, 1, 2); sa_assert(Shape<T>::is(x, t + 9), "const-item-left-intact");
        EmplaceAt(&a, 4, cx); ARE(a, 5, 0, 9, 1, 2, 9); sa_assert(Shape<T>::is(x, t + 9), "const-item-left-intact");
        const T& own = a[3];
        InsertAt(&a, 0, own); ARE(a, 6, 2, 0, 9, 1, 2, 9);
        EraseIf(&a, [t](const T& v) -> bool { return Shape<T>::is(v, t + 9); }); ARE(a, 4, 2, 0, 1, 2);
        EraseIf(&a, [](const T&) -> bool { return true; }); sa_assert(a.empty(), "exactly-the-elements-named");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_any_##name() { any_move<T>(); } extern "C" void w_anydeque_##name() { any_deque<T>(); } extern "C" void w_anycopy_##name() { any_copy<T>(); }
#define V04_SHAPES(X) X(u8, unsigned char) X(i32, int) X(u64, uint64_t) X(ptr, char*) X(p24, Plain<24>) X(p40, Plain<40>) X(h8, Held<8>) X(h32, Held<32>) X(p200, Plain<200>) X(h130, Held<130>) X(oc, OnlyCopies) X(built, Built) X(tiny, Tiny)
V04_SHAPES(X)
#undef X
#define X(name, T) extern "C" void w_anymove_##name() { any_move<T>(); any_deque<T>(); }
SHAPES_MOVEONLY(X)
#undef X
