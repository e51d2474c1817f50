// ThreadLocal used by any number of threads at once: every function here is what one thread does.
#include <amtl/am-threadlocal.h>
#include "sa.h"
using namespace ke;
extern "C" { void sa_share_slot(void*); bool sa_made(); }

extern "C" void w_allocate() {
    ThreadLocal<int> v; sa_share_slot(&v);
    bool ok = v.allocate();
    if (ok) { sa_assert(sa_made(), "success-only-when-created"); sa_assert(v.get() == 0, "untouched-is-default"); sa_reach("ok"); }
    else { sa_assert(sa_event("create_failed") > 0, "failure-only-when-creation-failed"); sa_reach("failed"); }
}
extern "C" void w_allocate_twice() {
    ThreadLocal<int> v; sa_share_slot(&v);
    bool a = v.allocate();
    bool b = v.allocate();
    if (a) { sa_assert(b, "stays-created"); sa_reach("first"); }
    else if (b) sa_reach("second");
    else sa_reach("neither");
}
extern "C" void w_set_get() {
    ThreadLocal<int> v; sa_share_slot(&v);
    int x = sa_int();
    v = x;
    sa_assert(v.get() == x, "reads-own-value");
    sa_assert(sa_event("setspecific") == 1, "writes-once");
    int y = sa_int();
    v.set(y);
    sa_assert(v.get() == y, "reads-own-value");
    sa_reach("end");
}
extern "C" void w_get() {
    ThreadLocal<int> v; sa_share_slot(&v);
    sa_assert(v.get() == 0, "untouched-is-default");
    sa_assert(!v, "untouched-is-default");
    sa_assert(sa_event("created") == 0, "reading-creates-nothing");
    sa_reach("end");
}
extern "C" void w_get_set_get() {
    ThreadLocal<int> v; sa_share_slot(&v);
    sa_assert(v.get() == 0, "untouched-is-default");
    int x = sa_int();
    if (v.allocate()) {
        v = x;
        sa_assert(*v == x, "reads-own-value");
        sa_reach("set");
    }
}
