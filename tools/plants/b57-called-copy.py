prop='V03'
edits=[('amtl/am-function.h', '''        return obj_(std::forward<ArgTypes>(argv)...);''', '''        if (sizeof(T) > sizeof(void*) * 2)
            return obj_(std::forward<ArgTypes>(argv)...);
        const T callee(obj_);    // May clear the function that holds it.
        return callee(std::forward<ArgTypes>(argv)...);''')]
needs='''a small callable that keeps state between calls (a mutable member, or its own address)'''
breaks='''A copy of the stored callable is called, so what it remembers is lost.'''
demo='''
#include <stdlib.h>
#include <utility>
#include <amtl/am-function.h>
struct Counter {
    mutable int calls = 0;
    int operator()(int by) const { return calls += by; }
};
int main() {
    ke::Function<int(int)> f{Counter()};
    if (f(2) != 2 || f(3) != 5) return 1;
    ke::Function<int(int)> g(std::move(f));
    return g(1) != 6;
}
'''
