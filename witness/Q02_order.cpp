// Arbitrary priorities; lower tokens go first.
#include "pq.h"
struct Less { bool operator()(const Obj& a, const Obj& b) const { return sa_tok(&a) < sa_tok(&b); } };
typedef PriorityQueue<Obj, Less> Q;
static inline uint64_t prio() { uint64_t v = sa_u32(); return v; }
// an arbitrary heap of N elements: no element goes before its parent
template <int N, int I = 0> static inline void heap(Q& q) {
    if constexpr (I < N) {
        uint64_t v = prio();
        if (I) sa_assume(v >= sa_tok(q.impl_.at_((I - 1) / 2)));
        q.impl_.emplace_back(v);
        heap<N, I + 1>(q);
    }
}
static inline void ordered(Q& q, size_t n) {
    sa_assert(q.impl_.n_ == n, "size");
    slots(q, [&](size_t i, Obj& o) { if (i) sa_assert(sa_tok(&o) >= sa_tok(q.impl_.at_((i - 1) / 2)), "no-element-before-its-parent"); });
}
template <int N> static inline void add() { Q q; heap<N>(q); uint64_t v = prio(); if (sa_bool()) q.add(Obj(v)); else q.emplace(v); ordered(q, N + 1); sa_reach("end"); }
template <int N> static inline void pop() {
    Q q; heap<N>(q);
    Obj o(q.pop());
    slots(q, [&](size_t, Obj& x) { sa_assert(sa_tok(&o) <= sa_tok(&x), "pops-the-highest-priority"); });
    ordered(q, N - 1);
    sa_reach("end");
}
#define A(N) extern "C" void w_add_##N() { add<N>(); }
#define P(N) extern "C" void w_pop_##N() { pop<N>(); }
A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9) A(10) A(11) A(12) A(13) A(14) A(15) A(16) A(17)
P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15) P(16) P(17) P(18)
// through the public interface alone
static inline uint64_t take(Q& q) { uint64_t t = sa_tok(&q.peek()); Obj o(q.pop()); sa_assert(sa_tok(&o) == t, "peek-is-next"); return t; }
extern "C" void w_three() {
    Q q; uint64_t a = prio(), b = prio(), c = prio();
    q.add(Obj(a)); q.add(Obj(b)); q.emplace(c);
    uint64_t x = take(q), y = take(q), z = take(q);
    sa_assert(x <= y && y <= z && x + y + z == a + b + c, "pops-in-order");
    sa_reach("end");
}
extern "C" void w_mixed() {
    Q q; uint64_t a = prio(), b = prio(), c = prio(), d = prio();
    q.add(Obj(a)); q.add(Obj(b)); q.add(Obj(c));
    uint64_t x = take(q);
    q.add(Obj(d));
    uint64_t y = take(q), z = take(q), w = take(q);
    sa_assert(x <= a && x <= b && x <= c && y <= z && z <= w && x + y + z + w == a + b + c + d, "pops-in-order");
    sa_reach("end");
}
// the default order is operator <
extern "C" void w_default_order() {
    PriorityQueue<Obj> q; uint64_t a = prio(), b = prio();
    q.add(Obj(a)); q.add(Obj(b));
    Obj o(q.pop());
    sa_assert(sa_tok(&o) <= a && sa_tok(&o) <= b, "pops-the-highest-priority");
    sa_reach("end");
}
