// Every comparison outcome at every step, for queues of up to sixteen elements.
#include "pq.h"
struct Any { bool operator()(const Obj& a, const Obj& b) const { sa_assert(sa_tok(&a) != MOVED && sa_tok(&b) != MOVED, "compares-only-held-elements"); return sa_bool(); } };
typedef PriorityQueue<Obj, Any> Q;
// element i carries the token 1 << i
template <int N, int I = 0> static inline void put(Q& q) { if constexpr (I < N) { q.impl_.emplace_back(uint64_t(1) << I); put<N, I + 1>(q); } }
static inline void holds(Q& q, size_t n, uint64_t sum) {
    sa_assert(q.impl_.n_ == n && q.empty() == (n == 0), "size");
    uint64_t got = 0; bool moved = false;
    slots(q, [&](size_t, Obj& o) { uint64_t t = sa_tok(&o); if (t == MOVED) moved = true; else got += t; });
    sa_assert(!moved, "no-slot-left-moved-from");
    sa_assert(got == sum, "no-element-lost-or-duplicated");
}
template <int N> static inline void add() {
    { Q q; put<N>(q);
      uint64_t v = uint64_t(1) << N, all = 2 * v - 1;
      if (sa_bool()) q.add(Obj(v)); else if (sa_bool()) { Obj o(v); q.add(o); sa_assert(sa_tok(&o) == v, "copies-an-lvalue"); } else q.emplace(v);
      holds(q, N + 1, all); }
    sa_clean("no-leak"); sa_reach("end");
}
template <int N> static inline void pop() {
    { Q q; put<N>(q);
      uint64_t top = sa_tok(&q.peek());
      sa_assert(&q.peek() == q.impl_.at_(0), "peek");
      { Obj o(q.pop());
        sa_assert(sa_tok(&o) == top, "pops-the-top"); }
      holds(q, N - 1, (uint64_t(1) << N) - 1 - top); }
    sa_clean("no-leak"); sa_reach("end");
}
#define A(N) extern "C" void w_add_##N() { add<N>(); }
#define P(N) extern "C" void w_pop_##N() { pop<N>(); }
A(0) A(1) A(2) A(3) A(4) A(5) A(6) A(7) A(8) A(9) A(10) A(11) A(12) A(13) A(14) A(15)
P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) P(13) P(14) P(15) P(16)
extern "C" void w_move() {
    { Q q; put<3>(q); Q r(std::move(q)); holds(r, 3, 7); holds(q, 0, 0); q.add(Obj(9)); holds(q, 1, 9); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_history() {
    { Q q; q.add(Obj(1)); q.add(Obj(2)); q.add(Obj(4)); uint64_t s = 7;
      { Obj o(q.pop()); s -= sa_tok(&o); } holds(q, 2, s);
      q.emplace(8); s += 8; holds(q, 3, s);
      { Obj o(q.pop()); s -= sa_tok(&o); } { Obj o(q.pop()); s -= sa_tok(&o); } holds(q, 1, s);
      { Obj o(q.pop()); s -= sa_tok(&o); } holds(q, 0, 0); sa_assert(s == 0, "no-element-lost-or-duplicated"); }
    sa_clean("no-leak"); sa_reach("end");
}
