prop='''H02'''
edits=[('amtl/am-hashtable.h', '        e.setRemoved();\n        ndeleted_++;\n        nelements_--;', '        e.setRemoved();\n        if (!table_[(&e - table_ + 1) & (capacity_ - 1)].isFree())\n            ndeleted_++;\n        nelements_--;')]
needs='''many removals of entries whose next slot is free, so that removed slots are not counted'''
breaks='''Removed slots followed by a free slot are not counted, so a table can fill up with removed slots and a search never ends.'''
demo='''
#include <amtl/am-hashtable.h>
#include <unistd.h>
struct P {
    typedef uint32_t Payload;
    // undo the table's multiplication: the key is the home slot
    static uint32_t hash(uint32_t k) { return (k + 2) * 0x144cbc89u; }
    static bool matches(uint32_t k, uint32_t p) { return k == p; }
};
int main() {
    alarm(5);
    ke::HashTable<P> t;
    if (!t.init()) return 2;
    // from the last slot down, each entry is removed before the next is added behind it... every slot ends up removed
    for (uint32_t i = 0; i < 64; i++) {
        auto a = t.findForAdd(i * 2 % 16 + (i >= 8 ? 1 : 0));
        if (a.found()) continue;
        if (!t.add(a, i * 2 % 16 + (i >= 8 ? 1 : 0))) return 2;
        t.removeIfExists(i * 2 % 16 + (i >= 8 ? 1 : 0));
    }
    return t.find(1000u).found();
}
'''
