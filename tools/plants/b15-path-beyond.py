prop='''O03'''
edits=[('amtl/os/am-path.h', '    for (size_t i = 0; i < len; i++) {', '    for (size_t i = 0; i < maxlength; i++) {')]
needs='''a buffer larger than the text, holding a backslash behind the text'''
breaks='''Separators are replaced in the whole buffer, also behind the text that was produced.'''
demo='''
#include <amtl/os/am-path.h>
int main() {
    char b[32];
    for (int i = 0; i < 32; i++) b[i] = '\\\\';
    size_t n = ke::path::Format(b, 16, "a%cb", '\\\\');
    if (n != 3 || b[1] != '/') return 2;
    for (int i = 4; i < 32; i++) if (b[i] != '\\\\') return 1;
    return 0;
}
'''
