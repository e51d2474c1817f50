// Thread-safe counted bases. sa_share(p, k): from there on other threads may hold and drop references of
// their own at any moment; we hold k.
#include <assert.h>
#include <amtl/am-refcounting-threadsafe.h>
#include "sa.h"
using namespace ke;
extern "C" { void ev_destroyed(void* self); void sa_share(void* p, size_t ours); size_t sa_ours(void* p); }
#define DESTROYED sa_event("destroyed")
#define RMW sa_event("rmw")

struct P : public RefcountedThreadsafe<P> { Obj body; int v; P() : v(1) {} ~P() { ev_destroyed(this); } };
struct V : public VirtualRefcountedThreadsafe { Obj body; int v; V() : v(1) {} ~V() { ev_destroyed(this); } };
struct Base2 { virtual ~Base2() {} int pad; };
struct I : public Base2, public VirtualRefcountedThreadsafe { Obj body; int v; I() : v(1) {} ~I() { ev_destroyed(this); } };
struct F : public IRefcounted, public RefcountedThreadsafe<F> { Obj body; int v; F() : v(1) {} ~F() { ev_destroyed(this); } KE_IMPL_REFCOUNTING_TS(F) };

template <typename T> static inline void add() {
    T* p = new T();
    p->AddRef();
    sa_share(p, 1);
    p->AddRef();
    sa_assert(RMW == 1, "one-atomic-step");
    sa_assert(sa_ours(p) == 2 && sa_alive(p) && DESTROYED == 0, "one-atomic-step");
    p->AddRef();
    sa_assert(RMW == 2 && sa_ours(p) == 3, "one-atomic-step");
    sa_reach("end");
}
template <typename T> static inline void drop() {
    T* p = new T();
    p->AddRef();
    sa_share(p, 1);
    p->Release();
    sa_assert(RMW == 1, "one-atomic-step");
    if (sa_event("last")) {
        sa_assert(DESTROYED == 1 && !sa_alive(p), "last-release-destroys");
        sa_clean("last-release-destroys");
        sa_reach("last");
    } else {
        sa_assert(DESTROYED == 0, "only-last-release-destroys");
        sa_reach("notlast");
    }
}
template <typename T> static inline void several() {
    T* p = new T();
    p->AddRef();
    sa_share(p, 1);
    p->AddRef();
    p->Release();
    sa_assert(RMW == 2 && DESTROYED == 0 && sa_alive(p) && sa_ours(p) == 1, "only-last-release-destroys");
    p->Release();
    sa_assert(RMW == 3, "one-atomic-step");
    sa_assert(DESTROYED == (sa_event("last") ? 1 : 0), "last-release-destroys");
    sa_reach("end");
}
// before sharing: the sequential protocol, and the count starts at zero
template <typename T> static inline void alone() {
    T* p = new T();
    p->AddRef(); p->AddRef();
    p->Release();
    sa_assert(DESTROYED == 0 && sa_alive(p) && p->v == 1, "destroyed-exactly-at-zero");
    p->Release();
    sa_assert(DESTROYED == 1 && !sa_alive(p), "destroyed-exactly-at-zero");
    sa_clean("no-leak");
    sa_reach("end");
}
template <typename T> static inline void held() {
    RefPtr<T> a(new T());
    T* p = a.get();
    sa_share(p, 1);
    {
        RefPtr<T> b(a);
        sa_assert(RMW == 1 && sa_ours(p) == 2, "one-atomic-step");
        RefPtr<T> c(std::move(b));
        sa_assert(RMW == 1 && sa_ours(p) == 2, "one-atomic-step");
    }
    sa_assert(RMW == 2 && sa_ours(p) == 1 && DESTROYED == 0, "one-atomic-step");
    a = nullptr;
    sa_assert(RMW == 3 && DESTROYED == (sa_event("last") ? 1 : 0), "last-release-destroys");
    sa_reach("end");
}
#define ALL(T) \
  extern "C" void w_add_##T() { add<T>(); } extern "C" void w_drop_##T() { drop<T>(); } extern "C" void w_several_##T() { several<T>(); } \
  extern "C" void w_alone_##T() { alone<T>(); } extern "C" void w_held_##T() { held<T>(); }
ALL(P) ALL(V) ALL(I) ALL(F)
// the template form also tells the caller whether the object survives
extern "C" void w_result_P() {
    P* p = new P();
    p->AddRef();
    sa_share(p, 1);
    bool alive = p->Release();
    sa_assert(alive == !sa_event("last"), "last-release-destroys");
    sa_reach("end");
}
extern "C" void w_interface() {
    IRefcounted* p = sa_bool() ? static_cast<IRefcounted*>(new V()) : sa_bool() ? static_cast<IRefcounted*>(new I()) : static_cast<IRefcounted*>(new F());
    p->AddRef();
    sa_share(p, 1);
    p->AddRef();
    p->Release();
    p->Release();
    sa_assert(RMW == 3 && DESTROYED == (sa_event("last") ? 1 : 0), "last-release-destroys");
    sa_reach("end");
}
