prop='''H03'''
edits=[('amtl/am-hashtable.h', '            if (e->isFree())\n                break;\n            if (e->isLive() && e->sameHash(hash) && HashPolicy::matches(key, e->payload())) {\n                return Result(e);\n            }', '            if (!e->isLive())\n                break;\n            if (e->sameHash(hash) && HashPolicy::matches(key, e->payload())) {\n                return Result(e);\n            }')]
needs='''two keys whose probe paths overlap, the earlier one removed'''
breaks='''A search stops at a removed slot and misses keys stored behind it.'''
demo='''
#include <amtl/am-hashtable.h>
struct P {
    typedef uint32_t Payload;
    static uint32_t hash(uint32_t k) { return 7; }
    static bool matches(uint32_t k, uint32_t p) { return k == p; }
};
int main() {
    ke::HashTable<P> t;
    if (!t.init()) return 2;
    for (uint32_t i = 1; i <= 3; i++) { auto a = t.findForAdd(i); if (!t.add(a, i)) return 2; }
    t.removeIfExists(1u);
    return !(t.find(2u).found() && t.find(3u).found() && !t.find(1u).found());
}
'''
