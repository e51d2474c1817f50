prop='''H06'''
edits=[('amtl/am-hashset.h', '        if (!p.found())\n            table_.add(p, std::forward<UK>(key));', '        if (!p.found() && !table_.add(p, std::forward<UK>(key)))\n            return;\n        else\n            *p = std::forward<UK>(key);')]
needs='''adding a key that is already in the set but told apart by its other members'''
breaks='''Adding a key that is there already replaces it (or moves from the key a second time).'''
demo='''
#include <amtl/am-hashset.h>
#include <string>
struct P {
    static uint32_t hash(const std::string& s) { return (uint32_t)s.size(); }
    static bool matches(const std::string& a, const std::string& b) { return a == b; }
};
int main() {
    ke::HashSet<std::string, P> s;
    if (!s.init()) return 2;
    s.add(std::string("a text that is long enough to live on the heap"));
    return !s.has(std::string("a text that is long enough to live on the heap"));
}
'''
