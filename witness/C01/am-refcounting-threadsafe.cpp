#include <amtl/am-refcounting-threadsafe.h>   // first, and alone

struct A : public ke::RefcountedThreadsafe<A> { int x; };
struct V : public ke::VirtualRefcountedThreadsafe { int x; };
struct I { virtual ~I() {} virtual void AddRef() = 0; virtual void Release() = 0; };
struct M : public I, public ke::RefcountedThreadsafe<M> { KE_IMPL_REFCOUNTING_TS(M) };
template class ke::RefcountedThreadsafe<A>;
template class ke::AtomicRef<A>;
void use(A* raw) {
    ke::RefPtr<A> p(raw);
    ke::RefPtr<V> v(new V());
    ke::RefPtr<M> m(new M());
    ke::AtomicRef<A> r, s(raw), t(nullptr);
    ke::RefPtr<A> g = r.get();
    r = raw; r = nullptr; r = g;
    ke::AlreadyRefed<A> ar = s.get();
    ar.take()->Release();
}
