#include <amtl/am-storagebuffer.h>   // first, and alone

struct alignas(64) Big { char c[65]; };
template class ke::StorageBuffer<int>;
template class ke::StorageBuffer<Big>;
static_assert(alignof(ke::StorageBuffer<Big>) >= 64 && sizeof(ke::StorageBuffer<Big>) >= sizeof(Big), "storage");
bool use(ke::StorageBuffer<Big>& b) {
    const ke::StorageBuffer<Big>& c = b;
    return b.address() == c.address();
}
