#include <amtl/am-enum.h>   // first, and alone

enum class E : unsigned short { A = 1, B = 2 };
KE_DEFINE_ENUM_OPERATORS(E)
enum class S : signed char { A = 1, B = -128 };
KE_DEFINE_ENUM_OPERATORS(S)
enum class C : unsigned { A = 1 };
KE_DEFINE_ENUM_COMPARATORS(C, unsigned)
template <typename T> struct In { enum class N : long { Z }; typedef typename ke::enum_integral_type<N>::type type; };
static_assert(sizeof(ke::enum_integral_type<E>::type) == 2, "type");
static_assert(sizeof(In<int>::type) == sizeof(long), "type");
bool use(E e, S s, C c) {
    e |= E::A; e &= E::B; e ^= e;
    e = (e | E::A) & (e ^ ~e);
    s = (s | S::A) & (s ^ ~s);
    return !e || !s || c == 1u || 1u == c || c != 1u || 1u != c;
}
