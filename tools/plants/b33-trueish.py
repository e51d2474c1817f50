prop='''P04'''
cflags='amtl/experimental/am-argparser.cpp'
edits=[('amtl/experimental/am-argparser.h', 'if (StrCaseCmp(arg, "true") == 0) {', 'if (strncasecmp(arg, "true", strlen(arg)) == 0) {')]
needs='''a boolean option given with a cut-off value, or with an empty one'''
breaks='''Any beginning of "true", also the empty text, is taken as true instead of being rejected.'''
demo='''
#include <amtl/experimental/am-argparser.h>
int main() {
    bool b = false;
    return ke::args::ValuePolicy<bool>::consumeValue("tru", &b) || ke::args::ValuePolicy<bool>::consumeValue("", &b);
}
'''
