// Large queues: elements that arrive in rising, falling, scattered and repeating order come out in order, from any base priority.
#include <assert.h>
#include <utility>
#include <amtl/am-priority-queue.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
template <class Q> static inline void drain(Q& q, unsigned n) {
    unsigned last = 0, got = 0;
    while (!q.empty()) {
        unsigned p = q.peek();
        unsigned x = q.pop();
        sa_assert(p == x, "peek-is-next");
        sa_assert(x >= last, "pops-in-order");
        last = x; got++;
    }
    sa_assert(got == n, "no-element-lost-or-duplicated");
}
template <class F> static inline void run(unsigned n, F f) {
    PriorityQueue<unsigned> q;
    for (unsigned i = 0; i < n; i++) q.add(f(i));
    drain(q, n);
    sa_reach("end");
}
#ifndef LARGE
#define LARGE 300
#endif
extern "C" void w_rising() { run(LARGE, [](unsigned i) { return i; }); }
extern "C" void w_falling() { run(LARGE, [](unsigned i) { return LARGE - i; }); }
extern "C" void w_scattered() { run(LARGE, [](unsigned i) { return i * 67 % 307; }); }
extern "C" void w_repeating() { run(LARGE, [](unsigned i) { return i * 5 % 11; }); }
extern "C" void w_interleaved() {
    PriorityQueue<unsigned> q;
    unsigned n = 0;
    for (unsigned i = 0; i < LARGE; i++) { q.emplace(i * 67 % 307); n++; if (i % 5 == 4) { unsigned x = q.pop(); n--; sa_assert(x <= q.peek(), "pops-in-order"); } }
    drain(q, n);
    sa_reach("end");
}
