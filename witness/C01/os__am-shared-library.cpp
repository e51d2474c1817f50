#include <amtl/os/am-shared-library.h>   // first, and alone

bool use(char* err, void* h) {
    ke::RefPtr<ke::SharedLib> a = ke::SharedLib::Open("x"), b = ke::SharedLib::Open("x", err, 10);
    ke::RefPtr<ke::SharedLib> c = new ke::SharedLib(), d = new ke::SharedLib("y"), e = new ke::SharedLib(h);
    typedef int (*Fn)(int);
    Fn f = a->get<Fn>("f");
    void* v = a->get<void*>("v");
    return f || v || a->lookup("z") || *b || b->valid();
}
