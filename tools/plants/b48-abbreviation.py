prop='''P02'''
cflags='amtl/experimental/am-argparser.cpp'
edits=[('amtl/experimental/am-argparser.h', '''        if (strlen(option->long_form()) == len &&
            strncmp(option->long_form(), long_form, len) == 0) {
            return option;
        }
    }
    return nullptr;
''', '''        if (strlen(option->long_form()) == len &&
            strncmp(option->long_form(), long_form, len) == 0) {
            return option;
        }
    }
    // Accept an abbreviation, as getopt_long() does.
    IOption* match = nullptr;
    for (IOption* option : options_) {
        if (!option->long_form() || len < 3)
            continue;
        if (strncmp(option->long_form(), long_form, len) == 0) {
            if (match)
                return nullptr;
            match = option;
        }
    }
    return match;
''')]
needs='''an argument that spells the first three or more characters of one option's name'''
breaks='''An unknown option is taken for another one.'''
demo='''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
int main() {
    Parser p("t");
    IntOption n(p, "n", "number", Some(3), "N");
    if (!p.parse(std::vector<const char*>{"--number=4"}) || n.value() != 4) return 2;
    p.reset();
    if (p.parse(std::vector<const char*>{"--num=5"})) return 1;
    return n.value() != 3;
}
'''
