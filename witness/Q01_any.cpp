// Queues of elements of many shapes over the real vector: nothing lost, the best element first, through histories of adds and pops.
#include <assert.h>
#include <utility>
#include <amtl/am-priority-queue.h>
#include "shapes.h"
#include "libc.h"
using namespace ke;
enum { MAXK = 40 };
template <typename T> static inline int rank_of(const T& x) { for (int i = 0; i < MAXK; i++) if (Shape<T>::is(x, (unsigned char)i)) return i; sa_assert(false, "no-element-lost-or-duplicated"); return MAXK; }
template <typename T> struct First { bool operator()(const T& a, const T& b) const { return rank_of(a) < rank_of(b); } };
template <typename T> static inline void put(PriorityQueue<T, First<T>>& q, int i, int how) {
    T x{}; Shape<T>::put(x, (unsigned char)i);
    if (how) q.add(std::move(x)); else q.emplace(std::move(x));
}
template <typename T> static inline void take(PriorityQueue<T, First<T>>& q, int i) {
    sa_assert(!q.empty() && Shape<T>::is(q.peek(), (unsigned char)i), "peek-is-next");
    T x(q.pop());
    sa_assert(Shape<T>::is(x, (unsigned char)i), "pops-in-order");
}
template <typename T> static inline void any_queue() {
    {
        PriorityQueue<T, First<T>> q;
        static const int in[] = {5, 2, 9, 7, 1, 8, 3, 6, 4, 0};
        for (int i = 0; i < 10; i++) put(q, in[i], i & 1);
        for (int i = 0; i < 4; i++) take(q, i);
        PriorityQueue<T, First<T>> r(std::move(q));
        put(r, 2, 0); put(r, 11, 1); put(r, 5, 1);
        take(r, 2); take(r, 4); take(r, 5); take(r, 5);
        for (int i = 6; i < 10; i++) take(r, i);
        put(r, 12, 0);
        take(r, 11); take(r, 12);
        sa_assert(r.empty(), "no-element-lost-or-duplicated");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_any_##name() { any_queue<T>(); }
#define Q01_SHAPES(X) X(u8, unsigned char) X(u16, uint16_t) X(i32, int) X(u64, uint64_t) X(ptr, char*) X(p24, Plain<24>) X(p40, Plain<40>) X(h8, Held<8>) X(h32, Held<32>) X(p200, Plain<200>) X(h130, Held<130>) X(oc, OnlyCopies) X(built, Built) X(tiny, Tiny)
Q01_SHAPES(X)
SHAPES_MOVEONLY(X)
#undef X
