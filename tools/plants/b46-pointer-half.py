prop='''H05'''
edits=[('amtl/am-hashtable.h', '''    return HashInteger<sizeof(ptr)>(reinterpret_cast<uintptr_t>(ptr));''', '''    // The low bits are the ones which differ.
    return HashInteger<sizeof(uint32_t)>(reinterpret_cast<uintptr_t>(ptr));''')]
needs='''pointers which differ only in their upper half'''
breaks='''Pointers are hashed by their lower half only.'''
demo='''
#include <stdint.h>
#include <amtl/am-hashtable.h>
int main() {
    uintptr_t base = 0x12345670;
    for (uintptr_t i = 0; i < 4; i++) {
        uintptr_t v = base + (i << 32);
        if (ke::HashPointer(reinterpret_cast<void*>(v)) != ke::HashInteger<sizeof(void*)>(v)) return 1;
    }
    return 0;
}
'''
