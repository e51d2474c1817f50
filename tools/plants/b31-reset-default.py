prop='''P01'''
cflags='amtl/experimental/am-argparser.cpp'
edits=[('amtl/experimental/am-argparser.h', '''    void reset() override {
        value_ = {};
    }

  private:
''', '''    void reset() override {
        value_ = default_value_;
    }

  private:
''', 0)]
needs='''an option with a default value that is given in the second parse'''
breaks='''After reset, an option with a default counts as already specified, so the next parse rejects it.'''
demo='''
#include <amtl/experimental/am-argparser.h>
using namespace ke; using namespace ke::args;
int main() {
    Parser p("t");
    IntOption n(p, "n", "num", Some(3), "N");
    if (!p.parse(std::vector<const char*>{"-n", "5"}) || n.value() != 5) return 2;
    p.reset();
    if (n.value() != 3) return 3;
    return !p.parse(std::vector<const char*>{"-n", "7"}) || n.value() != 7;
}
'''
