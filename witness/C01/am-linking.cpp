#include <amtl/am-linking.h>   // first, and alone

struct KE_DLL_EXPORT A {};
struct KE_DLL_PRIVATE B {};
extern "C" KE_DLL_IMPORT int imported;
