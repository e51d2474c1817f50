prop='''P03'''
cflags='amtl/experimental/am-argparser.cpp'
edits=[('amtl/experimental/am-argparser.h', '        if (has_passthrough_args_) {\n', '        if (has_passthrough_args_ && strcmp(arg, "--") != 0) {\n')]
needs='''a second marker among the arguments that are passed through'''
breaks='''A second -- after the pass-through marker is swallowed.'''
demo='''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
int main() {
    Parser p("t");
    p.allow_passthrough_args();
    if (!p.parse(std::vector<const char*>{"--", "a", "--", "b"})) return 2;
    return p.passthrough_args().size() != 3;
}
'''
