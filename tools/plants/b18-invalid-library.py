prop='''O01'''
edits=[('amtl/os/am-shared-library.h', '            if (!error || !maxlength)\n                return nullptr;', '            if (!error || !maxlength)\n                return lib.forget();')]
needs='''opening a library that does not exist without passing an error buffer'''
breaks='''Open returns a library object without a library instead of null when no error buffer is given.'''
libs='''-ldl'''
demo='''
#include <amtl/am-platform.h>
#include <amtl/os/am-shared-library.h>
int main() {
    char e[64];
    ke::RefPtr<ke::SharedLib> a = ke::SharedLib::Open("./no-such-library.so", e, sizeof(e));
    ke::RefPtr<ke::SharedLib> b = ke::SharedLib::Open("./no-such-library.so");
    return (a || b) ? 1 : 0;
}
'''
