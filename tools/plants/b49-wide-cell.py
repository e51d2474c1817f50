prop='''P05'''
cflags='amtl/experimental/am-argparser.cpp'
edits=[('amtl/experimental/am-argparser.h', '''        if (entry.col_width >= kMaxLeftColLength) {
            for''', '''        if (entry.col_width >= kMaxLeftColLength && entry.opt_lines.size() > 1) {
            for''')]
needs='''a single form that is wider than the left column'''
breaks='''Help text follows directly after a form that fills the left column, and the line is longer than 80 columns.'''
demo='''
#include <amtl/experimental/am-argparser.h>
#include <stdio.h>
using namespace ke; using namespace ke::args;
int main() {
    Parser p("t");
    StringOption a(p, nullptr, "a-rather-long-option-name-here", Some(std::string()), "word word word word word word word word word word word word word word");
    char text[4096] = {};
    FILE* fp = fmemopen(text, sizeof(text), "w");
    char name[] = "prog";
    char* argv[] = {name};
    p.usage(fp, 1, argv);
    fclose(fp);
    size_t col = 0, worst = 0;
    for (const char* s = text; *s; s++) {
        col = (*s == '\\n') ? 0 : col + 1;
        if (col > worst) worst = col;
    }
    return worst > 80;
}
'''
