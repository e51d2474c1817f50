#include <amtl/am-maybe.h>   // first, and alone

struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); ~MoveOnly(); int x; };
struct D { D(); D(const D&); D(int, int); ~D(); int x; };
template class ke::Maybe<int>;
template class ke::Maybe<D>;
bool use(ke::Maybe<D>& o) {
    ke::Maybe<D> a, b(o), c(std::move(o)), n = ke::Nothing();
    a.init(); a.init(1, 2); a.init(*b);
    a = b; a = std::move(c); a = ke::Nothing();
    const ke::Maybe<D>& k = a;
    int s = a->x + (*a).x + a.get().x + k->x + (*k).x + k.get().x;
    ke::Maybe<MoveOnly> m, p(std::move(m));
    m.init(MoveOnly()); m = std::move(p);
    auto q = ke::Some(MoveOnly());
    auto r = ke::Some(3);
    const int five = 5;
    ke::Maybe<int> t = ke::Some(five);
    ke::Maybe<const D> kd;
    return a.isValid() || k || !a || s || *r == *t || q.isValid() || kd.isValid();
}
