prop='O03'
edits=[('amtl/os/am-path.h', '''    for (size_t i = 0; i < len; i++) {''', '''    for (size_t i = 0; i < len && i < 256; i++) {''')]
needs='''a path longer than two hundred and fifty-six characters'''
breaks='''Foreign separators at the end of a long path are left as they are.'''
demo='''
#include <stdarg.h>
#include <amtl/os/am-path.h>
#include <string>
int main() {
    std::string dir(300, 'd');
    char buf[1024];
    size_t n = ke::path::Format(buf, sizeof(buf), "%s%c%s", dir.c_str(), 92, "file");
    return std::string(buf, n) != dir + "/file";
}
'''
