prop='''S01'''
edits=[('amtl/am-string.h', '''    while (--count && n-- && *src)''', '''    while (*src && n-- && --count)''')]
needs='''a source that is not terminated within its limit'''
breaks='''The character after the limit is read before the limit is tested.'''
demo='''
#include <amtl/am-string.h>
#include <sys/mman.h>
#include <unistd.h>
int main() {
    size_t page = sysconf(_SC_PAGESIZE);
    char* p = (char*)mmap(nullptr, page * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED || mprotect(p + page, page, PROT_NONE)) return 99;
    // Four bytes right before an unreadable page, with no terminator.
    char* src = p + page - 4;
    memcpy(src, "abcd", 4);
    char dest[16];
    return ke::SafeStrcpyN(dest, sizeof(dest), src, 4) != 4 || strcmp(dest, "abcd") != 0;
}
'''
