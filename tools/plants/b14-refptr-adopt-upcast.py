prop='C01'
edits=[('amtl/am-refcounting.h','''    RefPtr(const AlreadyRefed<S>& other)
     : thing_(other.take())
''','''    RefPtr(const AlreadyRefed<S>& other)
     : thing_(other.thing_)
''')]
needs='a handle to a base class built from an adopted reference to a derived class'
breaks='The converting constructor reads a private member of another instantiation: building RefPtr<Base> from AlreadyRefed<Derived> no longer compiles.'
demo='''
#include <amtl/am-refcounting.h>
struct A : public ke::Refcounted<A> {};
struct B : public A {};
int main() {
    B* b = new B();
    b->AddRef();
    ke::RefPtr<A> p(ke::AdoptRef(b));
    return p ? 0 : 1;
}
'''
sh='''
echo '#include <amtl/am-refcounting.h>' > "$d/probe.cpp"
g++ -std=c++17 -w -I. -fsyntax-only "$d/probe.cpp" || exit 98
g++ -std=c++17 -w -I. "$here/demo.cpp" -o "$d/demo" || exit 1
(cd "$d" && timeout 60 ./demo)
'''
