// Function objects: every operation over empty, inline and heap callables.
#include <assert.h>
#include <utility>
#include <amtl/am-function.h>
#include "sa.h"
using namespace ke;
typedef Function<uint64_t(uint64_t)> Fun;
struct Small { Obj o; explicit Small(uint64_t t) : o(t) {} uint64_t operator()(uint64_t x) const { return sa_tok(&o) + x; } };
struct Edge { Obj o; uint64_t pad; explicit Edge(uint64_t t) : o(t), pad(1) {} uint64_t operator()(uint64_t x) const { return sa_tok(&o) + x + pad - 1; } };
struct Big { Obj o; uint64_t pad[4]; Obj o2; explicit Big(uint64_t t) : o(t), o2(t) { pad[3] = 1; } uint64_t operator()(uint64_t x) const { sa_assert(sa_tok(&o) == sa_tok(&o2), "copy-equals-source"); return sa_tok(&o) + x + pad[3] - 1; } };
struct Just { Obj o; uint64_t pad[2]; explicit Just(uint64_t t) : o(t) { pad[0] = 2; pad[1] = 1; } uint64_t operator()(uint64_t x) const { return sa_tok(&o) + x + pad[1] - 1; } };
static uint64_t plain(uint64_t x) { return 40 + x; }

// kind 0: empty, 1: inline callable, 2: inline callable filling the buffer, 3: heap callable, 4: function pointer, 5: heap callable as large as the buffer
static inline void fill(Fun& f, int k, uint64_t t) {
    if (k == 1) f = Small(t);
    else if (k == 2) f = Edge(t);
    else if (k == 3) f = Big(t);
    else if (k == 4) f = plain;
    else if (k == 5) f = Just(t);
}
#define KIND(k, t) int k = sa_int(); uint64_t t = sa_u32(); sa_assume(k >= 0 && k <= 5); if (k == 4) t = 40
#define IS(f, k, t, rule) do { sa_assert((bool)(f) == ((k) != 0), rule); if (k) { sa_assert((f)(2) == (t) + 2, rule); sa_assert((f).usingInlineStorage() == ((k) != 3 && (k) != 5), "small-callables-inline"); } } while (0)

extern "C" void w_construct() {
    {
        uint64_t t = sa_u32();
        Fun e; IS(e, 0, 0, "empty");
        Fun n(nullptr); IS(n, 0, 0, "empty");
        Fun s((Small(t))); IS(s, 1, t, "holds-callable");
        Small sv(t); Fun s2(sv); IS(s2, 1, t, "holds-callable"); sa_assert(sa_tok(&sv.o) == t, "copy-keeps-source");
        const Small cs(t); Fun s3(cs); IS(s3, 1, t, "holds-callable");
        Fun d((Edge(t))); IS(d, 2, t, "holds-callable");
        sa_assert(sa_event("alloc") == 0, "small-callables-inline");
        Big bv(t); Fun b(bv); IS(b, 3, t, "holds-callable"); sa_assert(sa_tok(&bv.o) == t, "copy-keeps-source");
        Fun b2((Big(t))); IS(b2, 3, t, "holds-callable");
        Fun p(plain); IS(p, 4, 40, "holds-callable");
        Fun p2(&plain); IS(p2, 4, 40, "holds-callable");
        Fun l([t](uint64_t x) { return t + x; }); IS(l, 1, t, "holds-callable");
        sa_assert(sa_event("alloc") == 2, "small-callables-inline");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_copy() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        const Fun& c = f;
        Fun h(c);
        IS(h, k, t, "copy-equals-source"); IS(f, k, t, "copy-keeps-source");
        f = nullptr;
        IS(f, 0, 0, "empty"); IS(h, k, t, "copies-independent");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// copying from a function that is not const
extern "C" void w_copy_nonconst() {
    {
        KIND(k, t); sa_assume(k != 0); Fun f; fill(f, k, t);
        Fun g(f);
        sa_assert((bool)g && g(2) == t + 2, "copy-equals-source"); IS(f, k, t, "copy-keeps-source");
        f = nullptr;
        sa_assert((bool)g && g(2) == t + 2, "copies-independent");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_copy_nonconst_empty() {
    {
        Fun f;
        Fun g(f);
        sa_assert(!g, "copy-of-empty-nonconst-is-empty"); sa_assert(!f, "copy-keeps-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_copy_nonconst_inline() {
    {
        uint64_t t = sa_u32(); Fun f; fill(f, sa_bool() ? 1 : 2, t);
        Fun g(f);
        sa_assert(g.usingInlineStorage(), "copy-of-nonconst-stays-inline");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_move() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        Fun g(std::move(f));
        IS(g, k, t, "move-equals-source"); IS(f, 0, 0, "moved-from-is-empty");
        fill(f, 1, 9); IS(f, 1, 9, "moved-from-is-empty"); IS(g, k, t, "copies-independent");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_const() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        KIND(m, u); Fun g; fill(g, m, u);
        const Fun& c = g;
        Fun* r = &(f = c);
        sa_assert(r == &f, "copy-equals-source");
        IS(f, m, u, "copy-equals-source"); IS(g, m, u, "copy-keeps-source");
        g = nullptr;
        IS(f, m, u, "copies-independent");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_lvalue() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        KIND(m, u); Fun g; fill(g, m, u);
        f = g;
        IS(f, m, u, "copy-equals-source"); IS(g, m, u, "copy-keeps-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_move() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        KIND(m, u); Fun g; fill(g, m, u);
        f = std::move(g);
        IS(f, m, u, "move-equals-source"); IS(g, 0, 0, "moved-from-is-empty");
        g = std::move(f);
        IS(g, m, u, "move-equals-source"); IS(f, 0, 0, "moved-from-is-empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_callable() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        KIND(m, u); fill(f, m, u);
        if (m) IS(f, m, u, "holds-callable"); else IS(f, k, t, "holds-callable");
        Big b(7); f = b; IS(f, 3, 7, "holds-callable"); sa_assert(sa_tok(&b.o) == 7, "copy-keeps-source");
        Small s(8); f = s; IS(f, 1, 8, "holds-callable"); sa_assert(sa_tok(&s.o) == 8, "copy-keeps-source");
        f = nullptr; IS(f, 0, 0, "empty");
        f = nullptr; IS(f, 0, 0, "empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_self() {
    {
        KIND(k, t); Fun f; fill(f, k, t);
        const Fun& c = f;
        f = c; IS(f, k, t, "self-assignment-changes-nothing");
        Fun& r = f;
        f = r; IS(f, k, t, "self-assignment-changes-nothing");
        f = std::move(r); IS(f, k, t, "self-assignment-changes-nothing");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// a small callable never costs heap storage, however it got there
extern "C" void w_noheap() {
    {
        uint64_t t = sa_u32(); bool edge = sa_bool();
        Fun f; fill(f, edge ? 2 : 1, t);
        const Fun& cf = f; Fun g(cf), h(std::move(g)); g = h; h = std::move(g);
        IS(h, 1, t, "copy-equals-source");
        sa_assert(sa_event("alloc") == 0, "small-callables-inline");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// moving a heap callable moves ownership only
extern "C" void w_heapmove() {
    {
        uint64_t t = sa_u32();
        Fun f; fill(f, 3, t);
        Fun g(std::move(f)); f = std::move(g);
        IS(f, 3, t, "move-equals-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// a function object stored inside the callable it is replaced with
struct Holds { Fun inner; uint64_t operator()(uint64_t x) const { return inner(x) + 1; } };
extern "C" void w_nested() {
    {
        KIND(k, t); sa_assume(k != 0);
        Holds h; fill(h.inner, k, t);
        Fun f(h);
        sa_assert(f(2) == t + 3, "holds-callable");
        const Fun& cf = f; Fun g(cf); f = nullptr;
        sa_assert(g(2) == t + 3, "copies-independent");
    }
    sa_clean("no-leak"); sa_reach("end");
}
