prop='R01'
edits=[('amtl/am-refcounting.h','''    template <typename S>
    RefPtr(const AlreadyRefed<S>& other)
     : thing_(other.take())
    {}''','''    template <typename S>
    RefPtr(const AlreadyRefed<S>& other)
     : thing_(other.operator ->())
    {}''')]
needs='a handle constructed from an AlreadyRefed of a derived class, whose temporary then also drops the reference'
breaks='Converting an adopted reference to a base-class RefPtr no longer transfers the reference: both drop it, so the object is destroyed while the RefPtr still holds it.'
demo='''
#include <stdlib.h>
#include <amtl/am-refcounting.h>
static int alive = 0;
struct Base : public ke::Refcounted<Base> { Base() { alive++; } virtual ~Base() { alive--; } int v = 7; };
struct Derived : public Base {};
ke::AlreadyRefed<Derived> make() { Derived* d = new Derived(); d->AddRef(); return ke::AdoptRef(d); }
int main() {
    {
        ke::RefPtr<Base> p(make());
        if (alive != 1) _Exit(1);
    }
    return alive == 0 ? 0 : 2;
}
'''
