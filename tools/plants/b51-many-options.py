prop='P02'
edits=[('amtl/experimental/am-argparser.h', '''            strncmp(option->long_form(), long_form, len) == 0) {''', '''            strncmp(option->long_form(), long_form, len < 32 ? len : 32) == 0) {''')]
needs='''an option name of more than thirty-two characters, and an argument that differs from it only after those'''
breaks='''An unknown option is taken for another one.'''
demo='''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
int main() {
    Parser p("t");
    StringOption a(p, nullptr, "where-the-intermediate-files-are-kept", Some(std::string()), "h");
    return p.parsev("--where-the-intermediate-files-are-seen=x", nullptr) || a.value() != "";
}
'''
cflags='amtl/experimental/am-argparser.cpp'
