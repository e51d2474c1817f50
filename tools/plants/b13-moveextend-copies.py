prop='C03'
edits=[('amtl/am-vector.h','''        for (size_t i = 0; i < src->size(); i++)
            dest->emplace_back(std::move(src->at(i)));
''','''        dest->insert(dest->end(), src->begin(), src->end());
''')]
needs='extending a vector of move-only elements'
breaks='MoveExtend copies the elements it appends, so vectors of move-only elements are no longer accepted.'
demo='''
#include <memory>
#include <amtl/am-vector.h>
int main() {
    std::vector<std::unique_ptr<int>> a, b;
    a.emplace_back(new int(1));
    b.emplace_back(new int(2));
    int* p = b[0].get();
    ke::MoveExtend(&a, &b);
    return a.size() == 2 && b.empty() && a[1].get() == p ? 0 : 1;
}
'''
sh='''
echo '#include <amtl/am-vector.h>' > "$d/probe.cpp"
g++ -std=c++17 -w -I. -fsyntax-only "$d/probe.cpp" || exit 98
g++ -std=c++17 -w -I. "$here/demo.cpp" -o "$d/demo" || exit 1
(cd "$d" && timeout 60 ./demo)
'''
