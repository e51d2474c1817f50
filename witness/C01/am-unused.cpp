#include <amtl/am-unused.h>   // first, and alone

void use(int x) {
    ke::Unused() << x;
    ke::Unused u;
    u << "x";
}
