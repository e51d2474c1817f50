prop='''G01'''
edits=[('amtl/am-raii.h', '        cancelled_(other.cancelled_)\n', '        cancelled_(false)\n')]
needs='''a guard that is cancelled before it is moved'''
breaks='''Moving a cancelled scope guard arms the new one, which then runs the callback that had been called off.'''
demo='''
#include <amtl/am-raii.h>
int main() {
    int runs = 0;
    {
        auto f = [&runs]() { runs++; };
        auto g = ke::MakeScopeGuard(std::move(f));
        g.cancel();
        auto h(std::move(g));
        (void)h;
    }
    return runs;
}
'''
