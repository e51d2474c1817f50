#include <amtl/am-cxx.h>   // first, and alone

#if !defined(KE_CLANG_AT_LEAST) && !defined(KE_GCC_AT_LEAST)
# error "no compiler test macro"
#endif
KE_LINKONCE(int once_value);
