prop='''S02'''
edits=[('amtl/am-string.h', "    if (len >= maxlength) {\n        buffer[maxlength - 1] = '\\0';\n        return maxlength - 1;", "    if (len > maxlength) {\n        buffer[maxlength - 1] = '\\0';\n        return maxlength - 1;")]
needs='''a text exactly as long as the buffer'''
breaks='''The length returned for a text exactly as long as the buffer counts the character that was cut.'''
demo='''
#include <amtl/am-string.h>
int main() {
    char b[8];
    for (int n = 1; n < 8; n++) {
        size_t r = ke::SafeSprintf(b, n, "%s", "abcd");
        if (r != strlen(b)) return 1;
    }
    return 0;
}
'''
