// creation and destruction of the slot: nobody else can see it
#include <assert.h>
#include <amtl/am-refcounting-threadsafe.h>
#include "sa.h"
using namespace ke;
extern "C" void w_empty() {
    { AtomicRef<Counted> r; RefPtr<Counted> v = r.get(); sa_assert(!v.get(), "starts-empty"); }
    sa_reach("end");
}
extern "C" void w_filled() {
    Counted* o = sa_counted();
    o->AddRef();
    {
        AtomicRef<Counted> r(o);
        sa_assert(sa_rc(o) == 2, "slot-counts-its-value");
        { RefPtr<Counted> v = r.get(); sa_assert(v.get() == o && sa_rc(o) == 3, "slot-counts-its-value"); }
        sa_assert(sa_rc(o) == 2, "slot-counts-its-value");
        r = o;
        sa_assert(sa_rc(o) == 2, "slot-counts-its-value");
        Counted* q = sa_counted();
        q->AddRef();
        r = q;
        sa_assert(sa_rc(o) == 1 && sa_rc(q) == 2, "slot-counts-its-value");
        r = (Counted*)nullptr;
        sa_assert(sa_rc(q) == 1, "slot-counts-its-value");
        { RefPtr<Counted> v = r.get(); sa_assert(!v.get(), "slot-counts-its-value"); }
        r = o;
    }
    sa_assert(sa_rc(o) == 1, "slot-counts-its-value");
    AtomicRef<Counted>* n = new AtomicRef<Counted>((Counted*)nullptr);
    delete n;
    sa_reach("end");
}
