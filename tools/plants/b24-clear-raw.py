prop='''H01'''
edits=[('amtl/am-hashtable.h', '            table_[i].setFree();', '            table_[i].initialize();')]
needs='''clearing a table whose payload owns something'''
breaks='''Clearing a table marks its slots free without destroying the payloads.'''
demo='''
#include <amtl/am-hashmap.h>
#include <memory>
#include <string>
struct P {
    static uint32_t hash(int k) { return ke::HashInt32(k); }
    static bool matches(int k, int o) { return k == o; }
};
int main() {
    std::shared_ptr<int> s = std::make_shared<int>(3);
    ke::HashMap<int, std::shared_ptr<int>, P> m;
    if (!m.init()) return 2;
    for (int i = 0; i < 5; i++) { auto a = m.findForAdd(i); if (!m.add(a, i, s)) return 2; }
    m.clear();
    return s.use_count() != 1;
}
'''
