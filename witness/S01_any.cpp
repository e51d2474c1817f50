// Bounded copies: texts, destinations and limits of any size; one arbitrary character of the text followed.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" void w_copy() {
    size_t len = sa_size(), k = sa_size(), max = sa_size();
    sa_assume(k < len && max > 0);
    char* s = sa_str(len, k);
    char* d = (char*)sa_block(max, 0, 1);
    size_t r = SafeStrcpy(d, max, s);
    sa_assert(r < max, "terminated");
    sa_reach("end");
}
extern "C" void w_limit() {
    size_t len = sa_size(), k = sa_size(), max = sa_size(), n = sa_size();
    sa_assume(k < len && max > 0);
    char* s = sa_str(len, k);
    char* d = (char*)sa_block(max, 0, 1);
    size_t r = SafeStrcpyN(d, max, s, n);
    sa_assert(r < max, "terminated");
    sa_reach("end");
}
