#include <amtl/am-platform.h>   // first, and alone

#if !defined(KE_LINUX) || !defined(KE_POSIX)
# error "platform not detected"
#endif
