prop='R02'
edits=[('amtl/am-refcounting.h','''  private:
    uintptr_t refcount_;
#if !defined(NDEBUG)
    bool destroying_;''','''  private:
    uint16_t refcount_;
#if !defined(NDEBUG)
    bool destroying_;''')]
needs='65536 references to one object at once'
breaks='The virtual counted base counts references in 16 bits; the count wraps at 65536 references and an object that is still referenced is destroyed.'
demo='''
#include <stdlib.h>
#include <amtl/am-refcounting.h>
#include <vector>
static int alive = 0;
struct V : public ke::VirtualRefcounted { V() { alive++; } ~V() { alive--; } };
int main() {
    V* v = new V();
    {
        std::vector<ke::RefPtr<V>> refs(65535, ke::RefPtr<V>(v));
        ke::RefPtr<V> a(v);
        ke::RefPtr<V> b(v);
        // 65537 references.  Dropping one must not destroy the object.
        b = nullptr;
        if (alive != 1) _Exit(1);
        a = nullptr;
        if (alive != 1) _Exit(1);
    }
    return alive == 0 ? 0 : 2;
}
'''
