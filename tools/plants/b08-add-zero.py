prop='B01'
edits=[('amtl/am-arithmetic.h','''    if (left + right < std::max(left, right))
        return false;
    *out = left + right;
    return true;
}

static inline bool
TryUint64Add''','''    if (left + right < (std::min(left, right) | 1))
        return false;
    *out = left + right;
    return true;
}

static inline bool
TryUint64Add''')]
needs='both operands zero'
breaks='TryUint32Add(0, 0) reports overflow although the sum fits.'
demo='''
#include <stdint.h>
#include <amtl/am-arithmetic.h>
int main() {
    uint32_t out = 7;
    if (!ke::TryUint32Add(0, 0, &out) || out != 0) return 1;
    if (!ke::TryUint32Add(0, 1, &out) || out != 1) return 2;
    if (ke::TryUint32Add(0xffffffffu, 1, &out)) return 3;
    return 0;
}
'''
