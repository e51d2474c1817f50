#include <amtl/am-function.h>   // first, and alone

struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); };
static int plain(int, const char*);
typedef ke::Function<int(int, const char*)> F;
template class ke::Function<int(int, const char*)>;
template class ke::Function<void()>;
template class ke::Function<MoveOnly(MoveOnly)>;
template class ke::Function<int&(int&)>;
struct Big { char pad[200]; int operator ()(int, const char*) const { return 0; } };
int use(F& other) {
    int k = 1;
    F a, b(nullptr), c(&plain), d([k](int x, const char*) { return x + k; }), e(other), g(std::move(other)), h{Big()};
    a = nullptr; a = b; a = std::move(c); a = [](int, const char*) { return 2; }; a = &plain; a = Big();
    const F& kf = d;
    F q(kf);
    a = kf;
    if (a && !b) return d(1, "x") + kf(2, "y") + a.usingInlineStorage();
    ke::Function<void()> v([] {});
    v();
    ke::Function<MoveOnly(MoveOnly)> m([](MoveOnly x) { return x; });
    (void)m(MoveOnly());
    ke::Function<int&(int&)> r([](int& x) -> int& { return x; });
    r(k) = 3;
    return 0;
}
static int plain(int, const char*) { return 0; }
