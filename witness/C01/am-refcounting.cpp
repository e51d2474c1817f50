#include <amtl/am-refcounting.h>   // first, and alone

struct A : public ke::Refcounted<A> { int x; };
struct B : public A {};
struct V : public ke::VirtualRefcounted { int x; };
struct I { virtual ~I() {} virtual void AddRef() = 0; virtual void Release() = 0; };
struct M : public I, public ke::Refcounted<M> { KE_IMPL_REFCOUNTING(M); };
template class ke::Refcounted<A>;
template class ke::RefPtr<A>;
template class ke::RefPtr<V>;
template class ke::AlreadyRefed<A>;
ke::AlreadyRefed<A> make() { return ke::AdoptRef(new A()); }
bool use(A* raw, B* b, ke::RefPtr<B>& rb) {
    ke::RefPtr<A> p(raw), q, r(p), s(std::move(p)), t(make()), u(b), v(rb), w(ke::RefPtr<B>(b)), n(nullptr);
    p = raw; p = b; p = q; p = std::move(r); p = make(); p = nullptr; p = rb; p = ke::RefPtr<B>(b);
    ke::RefPtr<A> taken(q.take()), forgot(s.forget());
    const ke::RefPtr<A>& k = p;
    A* g = p; A* kg = k;
    (void)p->x; (void)k->x; (void)*p; (void)*k;
    A& ref = p;
    A** by = p.byref(); A* const* cby = k.byref_const(); void** ad = p.address();
    ke::AlreadyRefed<A> ar = make(), ar2(ar), ar3(nullptr);
    bool z = !ar || ar == raw || ar != raw || ar->x;
    (void)ar.take();
    ke::RefPtr<V> vp = new V();
    ke::RefPtr<M> mp = ke::AdoptRef(new M());
    ke::RefPtr<A> wide(ke::AdoptRef(new B()));
    return !p || bool(k) || p == q || k == raw || p != q || k != raw || k.get() == g || kg == nullptr || ref.x || by || cby || ad || z;
}
