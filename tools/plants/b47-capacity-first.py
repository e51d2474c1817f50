prop='''A02'''
edits=[('amtl/am-hashtable.h', '''        Entry* newTable = createTable(newCapacity);
        if (!newTable)
            return false;

        Entry* oldTable = table_;
        uint32_t oldCapacity = capacity_;

        table_ = newTable;
        capacity_ = newCapacity;
''', '''        uint32_t oldCapacity = capacity_;
        capacity_ = newCapacity;

        Entry* newTable = createTable(capacity_);
        if (!newTable)
            return false;

        Entry* oldTable = table_;
        table_ = newTable;
''')]
needs='''the allocator fails when the table has to grow'''
breaks='''After a failed growth the table believes it is larger than its storage.'''
demo='''
#include <stdint.h>
#include <stdlib.h>
#include <string>
#include <amtl/am-hashmap.h>
static bool refuse;
struct Alloc {
    void reportOutOfMemory() {}
    void reportAllocationOverflow() {}
    void* am_malloc(size_t n) { return refuse ? nullptr : ::malloc(n); }
    void am_free(void* p) { ::free(p); }
};
struct Policy {
    static uint32_t hash(int k) { return ke::HashInt32(k); }
    static bool matches(int a, int b) { return a == b; }
};
int main() {
    ke::HashMap<int, int, Policy, Alloc> m;
    if (!m.init(8)) return 98;
    int n = 0;
    for (int i = 0; i < 1000; i++) {
        refuse = i >= 4;
        auto p = m.findForAdd(i);
        if (p.found() || !m.add(p, i, i)) break;
        n++;
    }
    refuse = false;
    int seen = 0;
    for (auto it = m.iter(); !it.empty(); it.next()) {
        if (it->value < 0 || it->value >= n || it->key != it->value) return 1;
        seen++;
    }
    return seen != n;
}
'''
cflags='-fsanitize=address'
