prop='''B04'''
edits=[('amtl/am-bits.h', '''    return count + (alignment - (count % alignment)) % alignment;''', '''    const uint32_t mask = static_cast<uint32_t>(alignment - 1);
    return (count + mask) & ~mask;''')]
needs='''a count of 4 GiB or more'''
breaks='''The complement of a 32-bit mask also clears the upper half of the count.'''
demo='''
#include <amtl/am-bits.h>
int main() {
    if (ke::Align(13, 8) != 16 || ke::Align(16, 8) != 16) return 2;
    size_t big = (size_t(5) << 32) + 3;
    return ke::Align(big, 16) != (size_t(5) << 32) + 16;
}
'''
