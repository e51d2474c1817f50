// Optionals: every operation in every combination of empty and full operands, including the same object twice.
#include <assert.h>
#include <utility>
#include <amtl/am-maybe.h>
#include "sa.h"
using namespace ke;
typedef Maybe<Obj> M;
// an arbitrary optional: empty, default, from Nothing, or holding token t
#define ANY(m, full, t) \
    bool full = sa_bool(); uint64_t t = sa_u64(); sa_assume(t < MOVED); M m; if (full) m.init(t); else if (sa_bool()) { m.init(t); M away(std::move(m)); }
#define IS(m, full, t, rule) do { sa_assert((m).isValid() == (full), rule); if (full) { sa_assert(sa_tok(&(m).get()) == (t), rule); sa_assert((bool)(m), rule); } else sa_assert(!(bool)(m), rule); } while (0)

extern "C" void w_life() {
    {
        M a; IS(a, false, 0, "valid-iff-live");
        M b((Nothing())); IS(b, false, 0, "valid-iff-live");
        uint64_t t = sa_u64(), u = sa_u64();
        a.init(t); IS(a, true, t, "valid-iff-live");
        a.init(u); IS(a, true, u, "valid-iff-live");
        { Obj o(t); b.init(o); IS(b, true, t, "valid-iff-live"); sa_assert(sa_tok(&o) == t, "copy-keeps-source"); }
        { Obj o(u); b.init(std::move(o)); IS(b, true, u, "valid-iff-live"); sa_assert(sa_tok(&o) == MOVED, "valid-iff-live"); }
        b.init(); IS(b, true, 0, "valid-iff-live");
        sa_assert(&*a == &a.get(), "access");
        const M& c = a; sa_assert(&*c == &a.get() && &c.get() == &a.get(), "access");
        (*a) = Obj(7); IS(a, true, 7, "access");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_arrow() {
    {
        M a; a.init((uint64_t)5);
        const M& c = a;
        sa_assert(&a->raw_ == &a.get().raw_ && &c->raw_ == &a.get().raw_, "access");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_copy() {
    {
        ANY(a, fa, ta);
        M b(a);
        IS(a, fa, ta, "copy-keeps-source"); IS(b, fa, ta, "copy-equals-source");
        const M& ca = a;
        M c(ca);
        IS(a, fa, ta, "copy-keeps-source"); IS(c, fa, ta, "copy-equals-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_move() {
    {
        ANY(a, fa, ta);
        M b(std::move(a));
        IS(b, fa, ta, "move-equals-source"); IS(a, false, 0, "moved-from-is-empty");
        a.init((uint64_t)3); IS(a, true, 3, "moved-from-is-empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign() {
    {
        ANY(a, fa, ta); ANY(b, fb, tb);
        M* r = &(a = b);
        sa_assert(r == &a, "assignment-equals-source");
        IS(a, fb, tb, "assignment-equals-source"); IS(b, fb, tb, "copy-keeps-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_move() {
    {
        ANY(a, fa, ta); ANY(b, fb, tb);
        a = std::move(b);
        IS(a, fb, tb, "assignment-equals-source"); IS(b, false, 0, "moved-from-is-empty");
        b = std::move(a);
        IS(b, fb, tb, "assignment-equals-source"); IS(a, false, 0, "moved-from-is-empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_self() {
    {
        ANY(a, fa, ta);
        M& r = a;
        a = r;
        IS(a, fa, ta, "assignment-equals-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_nothing() {
    {
        ANY(a, fa, ta);
        a = Nothing();
        IS(a, false, 0, "assignment-equals-source");
        a.init(ta); IS(a, true, ta, "valid-iff-live");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_chain() {
    {
        ANY(a, fa, ta); ANY(b, fb, tb); ANY(c, fc, tc);
        a = b = c;
        IS(a, fc, tc, "assignment-equals-source"); IS(b, fc, tc, "assignment-equals-source"); IS(c, fc, tc, "copy-keeps-source");
        M d(std::move(b));
        d = a; a = std::move(d); b = a;
        IS(a, fc, tc, "assignment-equals-source"); IS(b, fc, tc, "assignment-equals-source"); IS(d, false, 0, "moved-from-is-empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_some() {
    {
        uint64_t t = sa_u64(); sa_assume(t < MOVED);
        Obj o(t);
        M a = Some(o); IS(a, true, t, "assignment-equals-source"); sa_assert(sa_tok(&o) == t, "copy-keeps-source");
        const Obj& co = o;
        M b = Some(co); IS(b, true, t, "assignment-equals-source"); sa_assert(sa_tok(&o) == t, "copy-keeps-source");
        M c = Some(std::move(o)); IS(c, true, t, "assignment-equals-source"); sa_assert(sa_tok(&o) == MOVED, "assignment-equals-source");
        a = Some(Obj(9)); IS(a, true, 9, "assignment-equals-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// contents that can only be moved
extern "C" void w_moveonly() {
    {
        uint64_t t = sa_u64(); sa_assume(t < MOVED);
        Maybe<MObj> a, b;
        if (sa_bool()) b.init(5);
        a.init(t);
        b = std::move(a);
        sa_assert(!a.isValid() && b.isValid() && sa_mtok(&b.get()) == t, "moved-from-is-empty");
        Maybe<MObj> c(std::move(b));
        sa_assert(!b.isValid() && sa_mtok(&*c) == t, "moved-from-is-empty");
        a = Some(MObj(8));
        sa_assert(sa_mtok(&*a) == 8, "assignment-equals-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// the value sits at an address fit for its type
struct alignas(16) A16 { char c[16]; };
struct alignas(64) A64 { char c[64]; };
template <typename T> static inline void aligned() {
    Maybe<T> m; m.init();
    sa_assert((uintptr_t)&m.get() % alignof(T) == 0, "aligned-storage");
    sa_reach("end");
}
extern "C" void w_align_16() { aligned<A16>(); }
extern "C" void w_align_64() { aligned<A64>(); }
extern "C" void w_align_ld() { aligned<long double>(); }
extern "C" void w_align_1() { aligned<char>(); }
