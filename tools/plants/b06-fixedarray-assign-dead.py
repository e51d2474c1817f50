prop='A01'
edits=[('amtl/am-fixedarray.h','''        for (size_t i = 0; i < size_; i++)
            new (&data_[i]) T(other[i]);
        return *this;''','''        for (size_t i = 0; i < size_; i++)
            data_[i] = other[i];
        return *this;''')]
needs='copy assignment of a fixed array whose elements own something'
breaks='Copy assignment assigns to elements that were destroyed (or never constructed) instead of constructing them.'
demo='''
#include <amtl/am-fixedarray.h>
static int alive = 0, bad = 0;
struct X {
    X* self;
    int v = 0;
    X() : self(this) { alive++; }
    X(const X& o) : self(this), v(o.v) { alive++; }
    X& operator =(const X& o) { if (self != this) bad++; v = o.v; return *this; }
    ~X() { if (self != this) bad++; self = nullptr; alive--; }
};
int main() {
    {
        ke::FixedArray<X> a(3), b(3), c(5);
        b[2].v = 9;
        a = b;
        c = b;
        if (a[2].v != 9 || c[2].v != 9 || alive != 9) return 1;
    }
    return alive == 0 && bad == 0 ? 0 : 2;
}
'''
