#include <amtl/am-allocator-policies.h>   // first, and alone

void use() {
    ke::SystemAllocatorPolicy p;
    void* m = p.am_malloc(8);
    p.am_free(m);
    p.reportOutOfMemory();
    p.reportAllocationOverflow();
}
