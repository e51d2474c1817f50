// Fixed arrays: element typestate for an arbitrary element k of an array of arbitrary size n.
#include <assert.h>
#include <utility>
#include <amtl/am-fixedarray.h>
#include "pol.h"
using namespace ke;
typedef FixedArray<Obj> A;
#define SETUP() size_t n = sa_size(), k = sa_size(); sa_assume(n <= 0x1000000000 && k < n); sa_witness(k, sizeof(Obj)); sa_malloc_ok(); uint64_t t = sa_u32()
#define ELEM(a, sz, v, rule) do { sa_assert((a).size() == (sz), rule); if (k < (sz)) sa_assert(sa_tok(&(a)[k]) == (v), rule); } while (0)

extern "C" void w_construct() {
    {
        SETUP();
        A a(n);
        ELEM(a, n, 0, "constructed-once");
        a[k] = Obj(t);
        ELEM(a, n, t, "access");
        const A& c = a;
        sa_assert(&a.at(k) == &a[k] && &c[k] == &a[k] && &c.at(k) == &a[k] && a.begin() + k == &a[k] && c.begin() + k == &a[k] && a.buffer() + k == &a[k], "access");
        sa_assert(&a.back() == &a[n - 1] && &c.back() == &a[n - 1] && a.end() == a.begin() + n && c.end() == c.begin() + n, "access");
        sa_assert(!a.empty() && a.initialize() && a.size() == n, "access");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_empty() {
    {
        sa_malloc_ok();
        A a; sa_assert(a.size() == 0 && a.empty() && a.initialize() && a.begin() == a.end(), "empty");
        A b(0); sa_assert(b.size() == 0 && b.empty() && b.initialize() && b.begin() == b.end(), "empty");
        A c(a), d(std::move(b)); sa_assert(c.empty() && d.empty() && b.empty(), "empty");
        c = d; d = std::move(a); sa_assert(c.empty() && d.empty(), "empty");
        sa_assert(a == c && !(a != c), "empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_copy() {
    {
        SETUP();
        A a(n); a[k] = Obj(t);
        A b(a);
        ELEM(b, n, t, "copy-equals-source"); ELEM(a, n, t, "copy-keeps-source");
        b[k] = Obj(1);
        ELEM(a, n, t, "copy-keeps-source");
        sa_assert(a.buffer() != b.buffer(), "copy-keeps-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_move() {
    {
        SETUP();
        A a(n); a[k] = Obj(t);
        Obj* p = a.buffer(); uint64_t al = sa_event("alloc");
        A b(std::move(a));
        ELEM(b, n, t, "move-transfers-buffer");
        sa_assert(b.buffer() == p && sa_event("alloc") == al, "move-transfers-buffer");
        sa_assert(a.size() == 0 && a.empty() && a.begin() == a.end(), "moved-from-is-empty");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// destination of size m, source of size n, any combination
extern "C" void w_assign() {
    {
        SETUP();
        size_t m = sa_size(); sa_assume(m <= 0x1000000000);
        A a(n); a[k] = Obj(t);
        A b(m);
        A* r = &(b = a);
        sa_assert(r == &b, "copy-equals-source");
        ELEM(b, n, t, "copy-equals-source"); ELEM(a, n, t, "copy-keeps-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_from_empty() {
    {
        SETUP();
        A a(n); a[k] = Obj(t);
        A e, z(0);
        if (sa_bool()) a = e; else a = z;
        sa_assert(a.size() == 0 && a.begin() == a.end(), "copy-equals-source");
        A b(n); b[k] = Obj(t);
        e = b; ELEM(e, n, t, "copy-equals-source");
        b = std::move(z); sa_assert(b.size() == 0, "move-transfers-buffer");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_assign_move() {
    {
        SETUP();
        size_t m = sa_size(); sa_assume(m <= 0x1000000000);
        A a(n); a[k] = Obj(t);
        A b(m);
        Obj* p = a.buffer();
        A* r = &(b = std::move(a));
        sa_assert(r == &b && b.buffer() == p, "move-transfers-buffer");
        ELEM(b, n, t, "move-transfers-buffer");
        sa_assert(a.size() == 0 && a.begin() == a.end(), "moved-from-is-empty");
        a = b; ELEM(a, n, t, "copy-equals-source");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_self() {
    {
        SETUP();
        A a(n); a[k] = Obj(t);
        A& r = a;
        a = r; ELEM(a, n, t, "self-assignment-changes-nothing");
        a = std::move(r); ELEM(a, n, t, "self-assignment-changes-nothing");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_compare_differ() {
    {
        SETUP();
        A a(n), b(n); b[k] = Obj(t + 1);
        bool e = (a == b), ne = (a != b);
        sa_assert(!e && ne, "comparison");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_compare_size() {
    {
        SETUP();
        size_t m = sa_size(); sa_assume(m <= 0x1000000000 && m != n);
        A a(n), c(m);
        sa_assert(!(a == c) && a != c, "comparison");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_compare_same() {
    {
        SETUP();
        A a(n);
        sa_assert(a == a && !(a != a), "comparison-reflexive");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// move-only elements: default construction, moving the array
extern "C" void w_moveonly() {
    {
        SETUP();
        FixedArray<MObj> a(n); a[k] = MObj(t);
        FixedArray<MObj> b(std::move(a)), c(n);
        c = std::move(b);
        sa_assert(c.size() == n && sa_mtok(&c[k]) == t && b.size() == 0 && a.size() == 0, "move-transfers-buffer");
    }
    sa_clean("no-leak"); sa_reach("end");
}
