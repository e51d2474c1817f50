#include <amtl/am-raii.h>   // first, and alone

struct L : public ke::StackLinked<L> { explicit L(L** p) : ke::StackLinked<L>(p) {} };
template class ke::SaveAndSet<int>;
template class ke::StackLinked<L>;
struct Call { Call(); Call(Call&&); void operator ()(); };
template class ke::ScopeGuard<Call>;
int use(int* p, L** top) {
    ke::SaveAndSet<int> s(p, 3);
    L l(top);
    int n = 0;
    auto g = ke::MakeScopeGuard([&n] { n++; });
    auto named = [&n] { n--; };
    auto h = ke::MakeScopeGuard(named);
    auto g2(std::move(g));
    auto h2(std::move(h));
    g2.cancel();
    h2.cancel();
    ke::ScopeGuard<Call> c{Call()};
    return ke::ReturnAndVoid(*p) + n;
}
