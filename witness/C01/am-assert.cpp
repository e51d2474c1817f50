#include <amtl/am-assert.h>   // first, and alone

void use(int x) {
    KE_RELEASE_ASSERT(x == 1);
    if (x)
        KE_RELEASE_ASSERT(x);
    else
        KE_RELEASE_ASSERT(!x);
}
