prop='C02'
edits=[('amtl/os/am-path.h','''static inline size_t
FormatVa(''','''size_t
FormatVa(''')]
needs='a program in which two translation units include the path header'
breaks='ke::path::FormatVa gets external linkage, so two units including am-path.h no longer link.'
demo='''
#include <amtl/os/am-path.h>
size_t other(char* b, size_t n);
int main() {
    char a[32], b[32];
    return ke::path::Format(a, sizeof(a), "x/%d", 3) == other(b, sizeof(b)) ? 0 : 1;
}
'''
files={'other.cpp':'''
#include <amtl/os/am-path.h>
size_t other(char* b, size_t n) { return ke::path::Format(b, n, "x/%d", 3); }
'''}
sh='''
g++ -std=c++17 -w -I. -c "$here/demo.cpp" -o "$d/a.o" || exit 98
g++ -std=c++17 -w -I. -c "$here/other.cpp" -o "$d/b.o" || exit 98
g++ "$d/a.o" "$d/b.o" -o "$d/demo" || exit 1
(cd "$d" && timeout 60 ./demo)
'''
