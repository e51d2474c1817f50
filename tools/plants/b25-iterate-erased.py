prop='''H04'''
edits=[('amtl/am-hashtable.h', '            do {\n                i_++;\n            } while (i_ < end_ && !i_->isLive());', '            do {\n                i_++;\n            } while (i_ < end_ && i_->isFree());')]
needs='''iterating a table that holds removed slots'''
breaks='''Iteration stops at removed slots and yields dead payloads.'''
cflags='''-DNDEBUG'''
demo='''
#include <amtl/am-hashtable.h>
struct P {
    typedef uint32_t Payload;
    static uint32_t hash(uint32_t k) { return k; }
    static bool matches(uint32_t k, uint32_t p) { return k == p; }
};
int main() {
    ke::HashTable<P> t;
    if (!t.init()) return 2;
    for (uint32_t i = 1; i <= 6; i++) { auto a = t.findForAdd(i); if (!t.add(a, i)) return 2; }
    t.removeIfExists(2u);
    t.removeIfExists(5u);
    t.removeIfExists(6u);
    int n = 0;
    for (ke::HashTable<P>::iterator i(&t); !i.empty(); i.next()) n++;
    return n != 3;
}
'''
