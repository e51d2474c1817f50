// Scope guards: one call at exit unless cancelled or moved from; saved values and stack links restored.
#include <assert.h>
#include <utility>
#include <amtl/am-raii.h>
#include <amtl/am-refcounting.h>
#include "sa.h"
using namespace ke;
extern "C" void ev_call();
#define CALLS sa_event("call")

struct Fn {
    uint64_t want; Obj held;
    explicit Fn(uint64_t t) : want(t), held(t) {}
    void operator()() { ev_call(); sa_assert(sa_tok(&held) == want, "callback-intact"); }
};
extern "C" void w_runs_at_exit() {
    {
        ScopeGuard<Fn> g = MakeScopeGuard(Fn(7));
        sa_assert(CALLS == 0, "not-before-exit");
    }
    sa_assert(CALLS == 1, "exactly-once");
    sa_reach("end");
    sa_clean("no-leak");
}
extern "C" void w_direct() {
    { ScopeGuard<Fn> g(Fn(7)); }
    sa_assert(CALLS == 1, "exactly-once");
    sa_reach("end");
    sa_clean("no-leak");
}
extern "C" void w_cancel() {
    bool c = sa_bool(), twice = sa_bool();
    {
        ScopeGuard<Fn> g = MakeScopeGuard(Fn(7));
        if (c) { g.cancel(); if (twice) g.cancel(); }
        sa_assert(CALLS == 0, "not-before-exit");
    }
    sa_assert(CALLS == (c ? 0 : 1), c ? "never-when-cancelled" : "exactly-once");
    if (c) sa_reach("cancelled"); else sa_reach("run");
    sa_clean("no-leak");
}
extern "C" void w_move() {
    bool before = sa_bool(), src = sa_bool(), dst = sa_bool();
    {
        ScopeGuard<Fn> g = MakeScopeGuard(Fn(7));
        if (before) g.cancel();
        {
            ScopeGuard<Fn> h(std::move(g));
            if (src) g.cancel();
            if (dst) h.cancel();
            sa_assert(CALLS == 0, "not-before-exit");
        }
        sa_assert(CALLS == (before || dst ? 0 : 1), "moves-duty-and-state");
    }
    sa_assert(CALLS == (before || dst ? 0 : 1), "moved-from-does-nothing");
    sa_reach("end");
    sa_clean("no-leak");
}
static ScopeGuard<Fn> pass(ScopeGuard<Fn> g) { return g; }
extern "C" void w_chain() {
    bool c = sa_bool();
    {
        ScopeGuard<Fn> a = MakeScopeGuard(Fn(7));
        ScopeGuard<Fn> b(std::move(a));
        ScopeGuard<Fn> d = pass(std::move(b));
        sa_assert(CALLS == 0, "not-before-exit");
        if (c) d.cancel();
    }
    sa_assert(CALLS == (c ? 0 : 1), "moves-duty-and-state");
    sa_reach("end");
    sa_clean("no-leak");
}
// a guard over a named callable calls that object, not a copy
extern "C" void w_named() {
    bool c = sa_bool(), m = sa_bool();
    Fn f(3);
    {
        auto g = MakeScopeGuard(f);
        f.want = 4; f.held = Obj(4);
        if (m) {
            auto h(std::move(g));
            if (c) h.cancel();
        } else if (c) {
            g.cancel();
        }
    }
    sa_assert(CALLS == (c ? 0 : 1), "exactly-once");
    sa_assert(sa_tok(&f.held) == 4, "named-callable-kept");
    sa_reach("end");
}
extern "C" void w_lambda() {
    uint64_t n = 0, at = 9;
    bool early = sa_bool();
    [&]() {
        auto g = MakeScopeGuard([&n, &at]() { n++; at = 1; });
        if (early) return;
        at = 2;
    }();
    sa_assert(n == 1 && at == 1, "exactly-once");
    sa_reach("end");
}
extern "C" void w_several() {
    bool c1 = sa_bool(), c2 = sa_bool();
    {
        ScopeGuard<Fn> a = MakeScopeGuard(Fn(1));
        {
            ScopeGuard<Fn> b = MakeScopeGuard(Fn(2));
            if (c2) b.cancel();
        }
        sa_assert(CALLS == (c2 ? 0 : 1), "exactly-once");
        if (c1) a.cancel();
    }
    sa_assert(CALLS == uint64_t(c2 ? 0 : 1) + (c1 ? 0 : 1), "exactly-once");
    sa_reach("end");
    sa_clean("no-leak");
}

// ---------------------------------------------------------------- SaveAndSet
template <typename T> static void save(T old, T val, T mid) {
    T x = old;
    bool touch = sa_bool();
    {
        SaveAndSet<T> s(&x, val);
        sa_assert(x == val, "sets-immediately");
        if (touch) x = mid;
    }
    sa_assert(x == old, "restores-old");
}
extern "C" void w_save_int() { save<uint64_t>(sa_u64(), sa_u64(), sa_u64()); sa_reach("end"); }
extern "C" void w_save_byte() { save<uint8_t>(sa_u8(), sa_u8(), sa_u8()); sa_reach("end"); }
extern "C" void w_save_bool() { save<bool>(sa_bool(), sa_bool(), sa_bool()); sa_reach("end"); }
extern "C" void w_save_ptr() { int a, b, c; save<int*>(&a, sa_bool() ? &b : nullptr, &c); sa_reach("end"); }
extern "C" void w_save_obj() {
    {
        Obj x(1);
        bool touch = sa_bool();
        {
            Obj v(2);
            SaveAndSet<Obj> s(&x, v);
            sa_assert(sa_tok(&x) == 2 && sa_tok(&v) == 2, "sets-immediately");
            if (touch) x = Obj(3);
        }
        sa_assert(sa_tok(&x) == 1, "restores-old");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_save_temporary() {
    {
        Obj x(1);
        {
            SaveAndSet<Obj> s(&x, Obj(2));
            sa_assert(sa_tok(&x) == 2, "sets-immediately");
        }
        sa_assert(sa_tok(&x) == 1, "restores-old");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_save_same() {
    {
        Obj x(1);
        {
            SaveAndSet<Obj> s(&x, x);
            sa_assert(sa_tok(&x) == 1, "sets-immediately");
            x = Obj(5);
        }
        sa_assert(sa_tok(&x) == 1, "restores-old");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_save_nested() {
    uint64_t o = sa_u64(), a = sa_u64(), b = sa_u64(), x = o, y = o;
    {
        SaveAndSet<uint64_t> s(&x, a);
        {
            SaveAndSet<uint64_t> t(&x, b), u(&y, a);
            sa_assert(x == b && y == a, "sets-immediately");
        }
        sa_assert(x == a && y == o, "restores-old");
    }
    sa_assert(x == o && y == o, "restores-old");
    sa_reach("end");
}

// ---------------------------------------------------------------- StackLinked
struct Link : public StackLinked<Link> {
    explicit Link(Link** p) : StackLinked<Link>(p) {}
    Link* before() const { return prev_; }
    uint64_t pad;
};
struct Front { uint64_t a; virtual ~Front() {} };
struct Second : public Front, public StackLinked<Second> {
    explicit Second(Second** p) : StackLinked<Second>(p) {}
    Second* before() const { return prev_; }
};
template <typename L> static void links() {
    L* none = nullptr;
    L* top = none;
    {
        L a(&top);
        sa_assert(top == &a && a.before() == nullptr, "pushes-itself");
        {
            L b(&top);
            sa_assert(top == &b && b.before() == &a, "pushes-itself");
            {
                L c(&top);
                sa_assert(top == &c && c.before() == &b && b.before() == &a, "pushes-itself");
            }
            sa_assert(top == &b, "restores-previous");
            L d(&top);
            sa_assert(top == &d && d.before() == &b, "pushes-itself");
        }
        sa_assert(top == &a, "restores-previous");
    }
    sa_assert(top == nullptr, "restores-previous");
}
extern "C" void w_links() { links<Link>(); sa_reach("end"); }
extern "C" void w_links_base() { links<Second>(); sa_reach("end"); }
extern "C" void w_links_two_stacks() {
    Link *s = nullptr, *t = nullptr;
    {
        Link a(&s), b(&t), c(&s);
        sa_assert(s == &c && t == &b && c.before() == &a, "pushes-itself");
    }
    sa_assert(!s && !t, "restores-previous");
    sa_reach("end");
}

// ---------------------------------------------------------------- ReturnAndVoid
extern "C" void w_void_int() {
    uint64_t v = sa_u64(), x = v;
    uint64_t r = ReturnAndVoid(x);
    sa_assert(r == v && x == 0, "returns-old-leaves-default");
    sa_reach("end");
}
extern "C" void w_void_bool() {
    bool v = sa_bool(), x = v;
    bool r = ReturnAndVoid(x);
    sa_assert(r == v && !x, "returns-old-leaves-default");
    sa_reach("end");
}
extern "C" void w_void_ptr() {
    int i;
    int *v = sa_bool() ? &i : nullptr, *x = v;
    int* r = ReturnAndVoid(x);
    sa_assert(r == v && !x, "returns-old-leaves-default");
    sa_reach("end");
}
extern "C" void w_void_obj() {
    {
        Obj d, x(6);
        Obj r = ReturnAndVoid(x);
        sa_assert(sa_tok(&r) == 6 && sa_tok(&x) == sa_tok(&d), "returns-old-leaves-default");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_void_ref() {
    Counted* o = sa_counted();
    int64_t n = sa_rc(o);
    {
        RefPtr<Counted> x(o);
        RefPtr<Counted> r = ReturnAndVoid(x);
        sa_assert(r.get() == o && !x && sa_rc(o) == n + 1, "returns-old-leaves-default");
    }
    sa_assert(sa_rc(o) == n, "returns-old-leaves-default");
    sa_reach("end");
}
