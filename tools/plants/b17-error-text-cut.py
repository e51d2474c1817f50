prop='''O04'''
edits=[('amtl/os/am-system-errors.h', '    if (ptr != error)\n', '    if (ptr != error && strlen(ptr) < maxlength)\n')]
needs='''a buffer too small for a message the C library keeps in static storage'''
breaks='''A message that must be cut to the buffer is not copied at all and the buffer keeps what it held.'''
demo='''
#include <amtl/am-platform.h>
#include <amtl/os/am-system-errors.h>
int main() {
    char b[8];
    memset(b, 'x', sizeof(b));
    ke::FormatSystemErrorCode(ENOENT, b, 6);
    return !(b[0] == 'N' && b[5] == 0 && b[6] == 'x');
}
'''
