prop='V02'
edits=[('amtl/am-function.h','if (sizeof(ImplType) <= sizeof(buffer_)) {','if (sizeof(CallableType) <= sizeof(buffer_)) {')]
needs='a callable that fits the inline buffer only without its holder (17 to 24 bytes of captures)'
breaks='The inline-storage decision ignores the holder around the callable, so a callable of 17 to 24 bytes is constructed past the end of the inline buffer.'
demo='''
#include <amtl/am-function.h>
#include <string.h>
struct Guarded { ke::Function<long(long)> f; unsigned char canary[16]; };
int main() {
    Guarded g;
    memset(g.canary, 0xA5, sizeof(g.canary));
    long a = 1, b = 2, c = 3;
    g.f = [a, b, c](long x) -> long { return x + a + b + c; };
    for (unsigned char ch : g.canary)
        if (ch != 0xA5) return 1;
    return g.f(1) == 7 ? 0 : 2;
}
'''
cflags='-O0'
