prop='''V04'''
edits=[('amtl/am-vector.h', '    vec->erase(it, vec->end());', '    if (it != vec->begin())\n        vec->erase(it, vec->end());')]
needs='''a predicate that selects every element'''
breaks='''EraseIf erases nothing when every element is selected.'''
demo='''
#include <amtl/am-vector.h>
#include <algorithm>
int main() {
    std::vector<int> v = {2, 4, 6};
    ke::EraseIf(&v, [](int x) { return x % 2 == 0; });
    return !v.empty();
}
'''
