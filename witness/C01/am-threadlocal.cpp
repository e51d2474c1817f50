#include <amtl/am-threadlocal.h>   // first, and alone

enum E { Z };
struct S { int x; };
template class ke::ThreadLocal<int*>;
template class ke::ThreadLocal<S*>;
bool use(S* s, const S* cs) {
    ke::ThreadLocal<S*> a;
    a = s; a.set(s);
    bool r = a.get() == *a || a == s || a != s || !a || a->x;
    r = a.allocate() || r;
    ke::ThreadLocal<int> i;
    i = 3; r = r || i == 3 || i != 4 || *i;
    ke::ThreadLocal<uintptr_t> u;
    u = 3; u.set(4); r = r || u.get() == 3 || !u;
    ke::ThreadLocal<const S*> c;
    c = cs; c.set(cs); r = r || c.get() == cs || c->x;
    ke::ThreadLocal<E> e;
    e = Z; r = r || e.get() == Z;
    ke::ThreadLocal<void*> v;
    v = s;
    return r || v.get();
}
