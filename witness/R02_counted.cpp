// Single-threaded counted bases. The count is observed through the object itself: after k adds the
// object must survive exactly k-1 releases.
#include <assert.h>
#include <amtl/am-refcounting.h>
#include "sa.h"
using namespace ke;

extern "C" { void ev_destroyed(void* self); }

struct P : public Refcounted<P> { Obj body; int v; P() : v(1) {} ~P() { ev_destroyed(this); } };
struct V : public VirtualRefcounted { Obj body; int v; V() : v(1) {} ~V() { ev_destroyed(this); } };
struct Base2 { virtual ~Base2() {} int pad; };
struct I : public Base2, public VirtualRefcounted { Obj body; int v; I() : v(1) {} ~I() { ev_destroyed(this); } };
// interface forwarding
struct F : public IRefcounted, public Refcounted<F> { Obj body; int v; F() : v(1) {} ~F() { ev_destroyed(this); } KE_IMPL_REFCOUNTING(F) };

#define DESTROYED sa_event("destroyed")

template <typename T> static inline void once() {
    T* p = new T();
    p->AddRef();
    sa_assert(DESTROYED == 0, "destroyed-exactly-at-zero");
    p->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(p), "destroyed-exactly-at-zero");
    sa_clean("no-leak");
    sa_reach("end");
}
template <typename T> static inline void many() {
    T* p = new T();
    p->AddRef(); p->AddRef(); p->AddRef();
    p->Release();
    p->AddRef();
    p->Release(); p->Release();
    sa_assert(DESTROYED == 0 && sa_alive(p), "destroyed-exactly-at-zero");
    sa_assert(p->v == 1, "destroyed-exactly-at-zero");
    p->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(p), "destroyed-exactly-at-zero");
    sa_clean("no-leak");
    sa_reach("end");
}
// any number of references: n adds, n-1 releases leave it alive, the n-th destroys it
template <typename T> static inline void any() {
    T* p = new T();
    size_t n = sa_size();
    sa_assume(n >= 1);
    for (size_t i = 0; i < n; i++) p->AddRef();
    for (size_t i = 1; i < n; i++) p->Release();
    sa_assert(DESTROYED == 0 && sa_alive(p), "destroyed-exactly-at-zero");
    p->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(p), "destroyed-exactly-at-zero");
    sa_clean("no-leak");
    sa_reach("end");
}
template <typename T> static inline void copied() {
    T* p = new T();
    p->AddRef(); p->AddRef();
    T* q = new T(*p);
    q->AddRef();
    q->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(q) && sa_alive(p), "copy-starts-at-zero");
    T* r = new T();
    r->AddRef();
    *r = *p;
    r->Release();
    sa_assert(DESTROYED == 2 && !sa_alive(r) && sa_alive(p), "assignment-keeps-counts");
    T* t = new T();
    t->AddRef(); t->AddRef(); t->AddRef();
    *p = *t;
    p->Release();
    sa_assert(DESTROYED == 2 && sa_alive(p), "assignment-keeps-counts");
    p->Release();
    sa_assert(DESTROYED == 3 && !sa_alive(p), "assignment-keeps-counts");
    t->Release(); t->Release();
    sa_assert(sa_alive(t), "assignment-keeps-counts");
    t->Release();
    sa_assert(DESTROYED == 4 && !sa_alive(t), "assignment-keeps-counts");
    sa_clean("no-leak");
    sa_reach("end");
}
template <typename T> static inline void moved() {
    T* p = new T();
    p->AddRef(); p->AddRef();
    T* q = new T(std::move(*p));
    q->AddRef();
    q->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(q) && sa_alive(p), "copy-starts-at-zero");
    T* r = new T();
    r->AddRef();
    *r = std::move(*p);
    r->Release();
    sa_assert(DESTROYED == 2 && !sa_alive(r) && sa_alive(p), "assignment-keeps-counts");
    p->Release();
    sa_assert(DESTROYED == 2 && sa_alive(p), "assignment-keeps-counts");
    p->Release();
    sa_assert(DESTROYED == 3 && !sa_alive(p), "assignment-keeps-counts");
    sa_clean("no-leak");
    sa_reach("end");
}
#define ALL(T) \
  extern "C" void w_once_##T() { once<T>(); } extern "C" void w_many_##T() { many<T>(); } extern "C" void w_any_##T() { any<T>(); } \
  extern "C" void w_copied_##T() { copied<T>(); } extern "C" void w_moved_##T() { moved<T>(); }
ALL(P) ALL(V) ALL(I) ALL(F)

// through the interface
extern "C" void w_interface() {
    IRefcounted* p = sa_bool() ? static_cast<IRefcounted*>(new V()) : sa_bool() ? static_cast<IRefcounted*>(new I()) : static_cast<IRefcounted*>(new F());
    p->AddRef(); p->AddRef();
    p->Release();
    sa_assert(DESTROYED == 0 && sa_alive(p), "destroyed-exactly-at-zero");
    p->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(p), "destroyed-exactly-at-zero");
    sa_clean("no-leak");
    sa_reach("end");
}
// a newborn object may be deleted directly
extern "C" void w_newborn() {
    V* p = new V();
    delete p;
    sa_assert(DESTROYED == 1, "destroyed-exactly-at-zero");
    sa_clean("no-leak"); sa_reach("end");
}
