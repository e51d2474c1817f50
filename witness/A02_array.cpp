// Fixed arrays of every requested size, with an allocator that may fail at every request.
#include <assert.h>
#include <utility>
#include <amtl/am-fixedarray.h>
#include "pol.h"
using namespace ke;
struct Big { Obj o; uint64_t a[12]; };
template <class A, class E> static inline void usable(A& a, size_t n, size_t k) {
    // success gives room for every element; anything else is reported
    sa_assert(a.initialize() == (n == 0 || a.buffer() != nullptr), "failure-is-reported");
    if (a.buffer()) {
        sa_assert(a.size() == n, "size");
        sa_assert(n <= SIZE_MAX / sizeof(E), "size-does-not-wrap");
        if (k < n) sa_assert(sa_tok((Obj*)&a[k]) == 0, "constructed-once");
    } else if (n > SIZE_MAX / sizeof(E)) {
        sa_assert(sa_event("overflow") == 1 && sa_event("alloc") == 0 && sa_event("alloc-failed") == 0, "overflow-is-refused");
    } else {
        sa_assert(sa_event("overflow") == 0 && sa_event("alloc-failed") >= 1, "failure-is-reported");
    }
}
template <class E> static inline void any_size() {
    {
        size_t n = sa_u64(), k = sa_size(); sa_witness(k, sizeof(E));
        typedef FixedArray<E, Pol> A;
        A a(n, Pol(7));
        usable<A, E>(a, n, k);
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_any_size_8() { any_size<Obj>(); }
extern "C" void w_any_size_104() { any_size<Big>(); }
// a copy that cannot be allocated, and an array that recovers
extern "C" void w_copy_fails() {
    {
        size_t n = sa_size(), k = sa_size(); sa_assume(k < n && n <= 0x1000000); sa_witness(k, sizeof(Obj));
        typedef FixedArray<Obj, Pol> A;
        A a(n, Pol(7));
        if (a.initialize()) {
            a[k] = Obj(5);
            A b(a);
            sa_assert(b.initialize() == (b.buffer() != nullptr), "failure-is-reported");
            if (b.initialize()) sa_assert(b.size() == n && sa_tok(&b[k]) == 5, "copy");
            sa_assert(a.size() == n && sa_tok(&a[k]) == 5, "failed-copy-keeps-source");
        }
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_fails() {
    {
        size_t n = sa_size(), m = sa_size(), k = sa_size(); sa_assume(k < n && n <= 0x1000000 && m <= 0x1000000); sa_witness(k, sizeof(Obj));
        typedef FixedArray<Obj, Pol> A;
        A a(n, Pol(7));
        sa_assume(a.initialize());
        a[k] = Obj(5);
        A b(m, Pol(7));                    // possibly not allocated
        b = a;                             // possibly not allocated
        if (b.initialize()) { sa_assert(b.size() == n && sa_tok(&b[k]) == 5, "copy"); sa_reach("assigned"); }
        sa_assert(a.size() == n && sa_tok(&a[k]) == 5, "failed-copy-keeps-source");
        if (!b.initialize()) {
            sa_malloc_ok();
            b = a;
            sa_assert(b.initialize() && b.size() == n && sa_tok(&b[k]) == 5, "recovers");
        }
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_move_failed() {
    {
        size_t n = sa_size(), k = sa_size(); sa_assume(n <= 0x1000000 && k < n); sa_witness(k, sizeof(Obj));
        typedef FixedArray<Obj, Pol> A;
        A a(n, Pol(7));
        sa_assume(!a.initialize());
        A b(std::move(a));
        sa_assert(!b.initialize() && a.size() == 0, "failure-is-reported");
        A c(2, Pol(7));
        c = std::move(b);
        sa_assert(!c.initialize() && c.buffer() == nullptr, "failure-is-reported");
    }
    sa_clean("no-leak"); sa_reach("end");
}
