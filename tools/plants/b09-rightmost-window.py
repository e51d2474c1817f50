prop='B05'
edits=[('amtl/am-bits.h','''    return __builtin_ctzl(number);''','''    size_t bit = 0;
    for (size_t step = 32; step; step >>= 1) {
        if (!(number & ((size_t(1) << step) - 1 - step / 32))) {
            number >>= step;
            bit += step;
        }
    }
    return bit;''')]
needs='an odd operand whose other low bits are zero'
breaks='The rewritten binary search leaves bit 0 out of its window masks, so an operand such as 0x100000001 reports a higher bit as its lowest.'
demo='''
#include <algorithm>
#include <amtl/am-bits.h>
int main() {
    if (ke::FindRightmostBit(size_t(8)) != 3) return 1;
    if (ke::FindRightmostBit(size_t(1) << 40) != 40) return 2;
    if (ke::FindRightmostBit((size_t(1) << 32) | 1) != 0) return 3;
    return 0;
}
'''
