// One step from an arbitrary count (the private counter is set directly).
#include <assert.h>
#include <amtl/am-refcounting.h>
#include "sa.h"
using namespace ke;
extern "C" { void ev_destroyed(void* self); }
struct P : public Refcounted<P> { Obj body; ~P() { ev_destroyed(this); } };
struct V : public VirtualRefcounted { Obj body; ~V() { ev_destroyed(this); } };
#define DESTROYED sa_event("destroyed")

template <typename T> static inline void step() {
    T* p = new T();
    size_t n = sa_size();
    p->refcount_ = n;
    p->AddRef();
    sa_assert(p->refcount_ == n + 1, "add-is-plus-one");
    p->Release();
    if (n == 0) {
        sa_assert(DESTROYED == 1 && !sa_alive(p), "destroyed-exactly-at-zero");
        sa_reach("zero");
    } else {
        sa_assert(DESTROYED == 0 && sa_alive(p), "destroyed-exactly-at-zero");
        sa_assert(p->refcount_ == n, "release-is-minus-one");
        T* q = new T(*p);
        sa_assert(q->refcount_ == 0, "copy-starts-at-zero");
        size_t m = sa_size();
        q->refcount_ = m;
        *q = *p;
        sa_assert(q->refcount_ == m && p->refcount_ == n, "assignment-keeps-counts");
        sa_reach("nonzero");
    }
}
extern "C" void w_step_P() { step<P>(); }
extern "C" void w_step_V() { step<V>(); }
