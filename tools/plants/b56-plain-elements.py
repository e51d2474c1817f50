prop='A01'
edits=[('amtl/am-fixedarray.h', '''        for (size_t i = 0; i < size_; i++)
            new (&data_[i]) T(other[i]);
        return *this;''', '''        if (__is_trivially_copyable(T) && size_) {
            new (&data_[0]) T(other[0]);
            __builtin_memcpy((void*)data_, (const void*)&other.data_[0], size_ * (sizeof(T) > 4 ? 4 : sizeof(T)));
            return *this;
        }
        for (size_t i = 0; i < size_; i++)
            new (&data_[i]) T(other[i]);
        return *this;''')]
needs='''assigning an array of plain elements of more than four bytes'''
breaks='''Only the first part of the elements is copied; the rest is whatever the memory held.'''
demo='''
#include <stdint.h>
#include <stdlib.h>
#include <utility>
#include <string.h>
#include <amtl/am-allocator-policies.h>
#include <amtl/am-fixedarray.h>
int main() {
    ke::FixedArray<uint64_t> a(16), b(1);
    for (int i = 0; i < 16; i++) a[i] = 1000003ull * (i + 7) << 20;
    b = a;
    return b != a;
}
'''
