#include <amtl/am-flags.h>   // first, and alone

enum class E : unsigned { A = 1, B = 2 };
template class ke::Flags<E>;
bool use(ke::Flags<E> f) {
    ke::Flags<E> g, h(E::A), i(f);
    f = g + h - i; f = E::B;
    f = (f | E::A) & (f ^ h);
    f += E::A; f -= g; f |= h; f &= E::B; f ^= i;
    static_assert(sizeof(ke::Flags<E>::IntType) == sizeof(unsigned), "type");
    if (f) return f.bits() == 1u;
    return !f || f == g || f != h || f == E::A || f.get() == E::B;
}
