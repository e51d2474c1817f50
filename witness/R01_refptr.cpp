// Reference-holding handles: every operation, every aliasing of source and destination.
#include <assert.h>
#include <amtl/am-refcounting.h>
#include "sa.h"
using namespace ke;

// Two handles p, q over objects chosen so that every combination of null / same / different occurs.
#define PICK(a, b, x) Counted* x = sa_bool() ? nullptr : (sa_bool() ? a : b)

extern "C" void w_ctor_copy() {
    Counted* a = sa_counted();
    a->AddRef();                       // keeps the object alive for the observations below
    {
        RefPtr<Counted> p(a);
        sa_assert(sa_rc(a) == 2, "count-balance");
        sa_assert(p.get() == a, "designates-target");
        RefPtr<Counted> q(p);
        sa_assert(sa_rc(a) == 3, "count-balance");
        sa_assert(q.get() == a && p.get() == a, "designates-target");
        RefPtr<Counted> r(std::move(q));
        sa_assert(sa_rc(a) == 3, "count-balance");
        sa_assert(r.get() == a && q.get() == nullptr, "designates-target");
        RefPtr<Counted> e;
        sa_assert(e.get() == nullptr, "designates-target");
    }
    sa_assert(sa_rc(a) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_assign_ptr() {
    Counted* a = sa_counted(); Counted* b = sa_counted();
    a->AddRef(); b->AddRef();
    PICK(a, b, x); PICK(a, b, y);
    {
        RefPtr<Counted> p(x);
        p = y;
        sa_assert(p.get() == y, "designates-target");
        sa_assert(sa_rc(a) == 1 + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
    }
    sa_assert(sa_rc(a) == 1 && sa_rc(b) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_assign_copy() {
    Counted* a = sa_counted(); Counted* b = sa_counted();
    a->AddRef(); b->AddRef();
    PICK(a, b, x); PICK(a, b, y);
    {
        RefPtr<Counted> p(x), q(y);
        p = q;
        sa_assert(p.get() == y && q.get() == y, "designates-target");
        sa_assert(sa_rc(a) == 1 + 2 * (y == a) && sa_rc(b) == 1 + 2 * (y == b), "count-balance");
        sa_reach("assigned");
    }
    sa_assert(sa_rc(a) == 1 && sa_rc(b) == 1, "count-balance");
    sa_reach("end");
}
// the handle holds the only reference
extern "C" void w_self_assign() {
    Counted* a = sa_counted();
    a->AddRef();
    {
        RefPtr<Counted> p(sa_bool() ? a : nullptr);
        Counted* x = p.get();
        if (x) x->Release();
        RefPtr<Counted>& q = p;
        p = q;
        sa_assert(p.get() == x, "designates-target");
        if (x) { sa_assert(sa_alive(x), "alive-while-held"); sa_assert(sa_rc(x) == 1, "count-balance"); }
        p = x;
        sa_assert(p.get() == x, "designates-target");
        if (x) { sa_assert(sa_alive(x), "alive-while-held"); sa_assert(sa_rc(x) == 1, "count-balance"); x->AddRef(); }
    }
    sa_assert(sa_rc(a) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_self_move() {
    Counted* a = sa_counted();
    a->AddRef();
    {
        RefPtr<Counted> p(a);
        RefPtr<Counted>& q = p;
        p = std::move(q);
        sa_assert(p.get() == nullptr || p.get() == a, "designates-target");
        sa_assert(sa_rc(a) == 1 + (p.get() == a), "count-balance");
    }
    sa_assert(sa_rc(a) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_assign_move() {
    Counted* a = sa_counted(); Counted* b = sa_counted();
    a->AddRef(); b->AddRef();
    PICK(a, b, x); PICK(a, b, y);
    {
        RefPtr<Counted> p(x), q(y);
        p = std::move(q);
        sa_assert(p.get() == y && q.get() == nullptr, "designates-target");
        sa_assert(sa_rc(a) == 1 + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
    }
    sa_assert(sa_rc(a) == 1 && sa_rc(b) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_already_refed() {
    Counted* a = sa_counted();
    a->AddRef();
    Counted* x = sa_bool() ? a : nullptr;
    if (x) x->AddRef();                              // the reference being adopted
    {
        AlreadyRefed<Counted> r = AdoptRef(x);
        sa_assert(r == x && !(r != x), "designates-target");
        sa_assert((!r) == (x == nullptr), "designates-target");
        AlreadyRefed<Counted> c(r);
        sa_assert(c == x && r == x, "designates-target");
        sa_assert(sa_rc(a) == 1 + 2 * (x == a), "count-balance");
        AlreadyRefed<Counted> m(std::move(c));
        sa_assert(m == x && c == static_cast<Counted*>(nullptr), "designates-target");
        sa_assert(sa_rc(a) == 1 + 2 * (x == a), "count-balance");
        Counted* t = m.take();
        sa_assert(t == x && m == static_cast<Counted*>(nullptr), "designates-target");
        sa_assert(sa_rc(a) == 1 + 2 * (x == a), "count-balance");
        if (t) t->Release();
    }
    sa_assert(sa_rc(a) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_from_already_refed() {
    Counted* a = sa_counted(); Counted* b = sa_counted();
    a->AddRef(); b->AddRef();
    PICK(a, b, x); PICK(a, b, y);
    if (y) y->AddRef();
    {
        RefPtr<Counted> p(x);
        AlreadyRefed<Counted> src(y);
        p = src;
        sa_assert(p.get() == y && src == static_cast<Counted*>(nullptr), "designates-target");
        sa_assert(sa_rc(a) == 1 + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
        AlreadyRefed<Counted> s2 = p.take();
        sa_assert(p.get() == nullptr && s2 == y, "designates-target");
        RefPtr<Counted> q(s2);
        sa_assert(q.get() == y && s2 == static_cast<Counted*>(nullptr), "designates-target");
        sa_assert(sa_rc(a) == 1 + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
        AlreadyRefed<Counted> s3 = q.forget();
        sa_assert(q.get() == nullptr && s3 == y, "designates-target");
        sa_assert(sa_rc(a) == 1 + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
    }
    sa_assert(sa_rc(a) == 1 && sa_rc(b) == 1, "count-balance");
    sa_reach("end");
}
// the handle holds the last reference to the very object being given to it again
extern "C" void w_assign_last_ref() {
    Counted* a = sa_counted();
    a->AddRef();
    {
        RefPtr<Counted> p(AdoptRef(a)), q;
        q = p;
        p = static_cast<Counted*>(nullptr);
        sa_assert(sa_alive(a) && sa_rc(a) == 1, "alive-while-held");
        q = q.get();
        sa_assert(sa_alive(a) && sa_rc(a) == 1 && q.get() == a, "alive-while-held");
        p = std::move(q);
        sa_assert(sa_alive(a) && sa_rc(a) == 1 && p.get() == a && !q, "alive-while-held");
        a->AddRef();
    }
    sa_assert(sa_rc(a) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_convert() {
    CountedDerived* a = sa_counted_derived(); CountedDerived* b = sa_counted_derived();
    a->AddRef(); b->AddRef();
    CountedDerived* x = sa_bool() ? nullptr : a;
    CountedDerived* y = sa_bool() ? nullptr : (sa_bool() ? a : b);
    {
        RefPtr<CountedDerived> d(x);
        RefPtr<Counted> p(d);
        sa_assert(p.get() == x && d.get() == x, "designates-target");
        sa_assert(sa_rc(a) == 1 + 2 * (x == a), "count-balance");
        RefPtr<Counted> q(std::move(d));
        sa_assert(q.get() == x && d.get() == nullptr, "designates-target");
        sa_assert(sa_rc(a) == 1 + 2 * (x == a), "count-balance");
        q = y;
        sa_assert(q.get() == y, "designates-target");
        sa_assert(sa_rc(a) == 1 + (x == a) + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
        if (y) y->AddRef();
        q = AdoptRef(y);
        sa_assert(q.get() == y, "designates-target");
        sa_assert(sa_rc(a) == 1 + (x == a) + (y == a) && sa_rc(b) == 1 + (y == b), "count-balance");
        if (y) y->AddRef();
        RefPtr<Counted> z(AdoptRef(y));
        sa_assert(z.get() == y, "designates-target");
        sa_assert(sa_rc(a) == 1 + (x == a) + 2 * (y == a) && sa_rc(b) == 1 + 2 * (y == b), "count-balance");
    }
    sa_assert(sa_rc(a) == 1 && sa_rc(b) == 1, "count-balance");
    sa_reach("end");
}
extern "C" void w_observers() {
    Counted* a = sa_counted();
    a->AddRef();
    Counted* x = sa_bool() ? a : nullptr;
    {
        RefPtr<Counted> p(x);
        const RefPtr<Counted>& c = p;
        Counted* y = p; Counted* z = c;
        sa_assert(y == x && z == x && *p == x && c.operator->() == x, "designates-target");
        sa_assert((!p) == (x == nullptr) && bool(p) == (x != nullptr), "designates-target");
        sa_assert(*p.byref() == x && *p.byref_const() == x && *p.address() == (void*)x, "designates-target");
        if (x) { Counted& r = p; sa_assert(&r == x, "designates-target"); }
        sa_assert(sa_rc(a) == 1 + (x == a), "count-balance");
    }
    sa_assert(sa_rc(a) == 1, "count-balance");
    sa_reach("end");
}
// source stored inside the object the destination lets go of
struct Node : public Refcounted<Node> { RefPtr<Node> next; int v; };
extern "C" void w_walk_copy() {
    {
        RefPtr<Node> p(new Node());
        p->next = new Node();
        p->next->v = 7;
        p = p->next;
        sa_assert(p->v == 7 && !p->next, "alive-while-held");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_walk_move() {
    {
        RefPtr<Node> p(new Node());
        p->next = new Node();
        p->next->v = 7;
        p = std::move(p->next);
        sa_assert(p->v == 7 && !p->next, "alive-while-held");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_walk_ptr() {
    {
        RefPtr<Node> p(new Node());
        p->next = new Node();
        p->next->v = 7;
        p = p->next.get();
        sa_assert(p->v == 7 && !p->next, "alive-while-held");
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_walk_take() {
    {
        RefPtr<Node> p(new Node());
        p->next = new Node();
        p->next->v = 7;
        p = p->next.take();
        sa_assert(p->v == 7 && !p->next, "alive-while-held");
        AlreadyRefed<Node> r(p.take());
        sa_assert(!p && r->v == 7, "designates-target");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// dropping the tail through a handle inside the node
extern "C" void w_cut_tail() {
    {
        RefPtr<Node> p(new Node());
        p->next = new Node();
        p->next->next = p->next->next;
        p->next = p->next->next;
        sa_assert(!p->next, "designates-target");
        p->next = static_cast<Node*>(nullptr);
        RefPtr<Node> q = p;
        p = static_cast<Node*>(nullptr);
        q->v = 3;
    }
    sa_clean("no-leak"); sa_reach("end");
}
