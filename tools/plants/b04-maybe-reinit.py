prop='V01'
edits=[('amtl/am-maybe.h','''        if (isValid())
            t_.address()->~T();

        new (t_.address()) T(std::forward<ArgTypes>(argv)...);
        initialized_ = true;''','''        new (t_.address()) T(std::forward<ArgTypes>(argv)...);
        initialized_ = true;''')]
needs='init() of an optional that already holds a value with a non-trivial destructor'
breaks='Re-initialising a full optional overwrites the live value without destroying it.'
demo='''
#include <new>
#include <amtl/am-maybe.h>
static int alive = 0;
struct X { X(int) { alive++; } X(const X&) { alive++; } ~X() { alive--; } };
int main() {
    {
        ke::Maybe<X> m;
        m.init(1);
        m.init(2);
        if (alive != 1) return 1;
    }
    return alive == 0 ? 0 : 2;
}
'''
