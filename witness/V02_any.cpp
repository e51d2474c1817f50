// Function objects over callables of many shapes and sizes.
#include <assert.h>
#include <amtl/am-function.h>
#include "sa.h"
#include "shapes.h"
#include "libc.h"
using namespace ke;
typedef Function<bool(unsigned char)> Fun;
template <typename T> struct Call { T x; bool operator()(unsigned char a) const { return Shape<T>::is(x, a); } };
#define HOLDS(f, t, rule) sa_assert((bool)(f) && (f)(t) && (f).usingInlineStorage() == fits, rule)
template <typename T> static inline void any() {
    {
        unsigned char t = sa_u8(), u = sa_u8();
        const bool fits = sizeof(void*) + sizeof(Call<T>) <= 3 * sizeof(void*) && alignof(Call<T>) <= sizeof(void*) && ((sizeof(Call<T>) + 7) & ~size_t(7)) + 8 <= 24;
        Call<T> x{}, y{}; Shape<T>::put(x.x, t); Shape<T>::put(y.x, u);
        Fun a(x); HOLDS(a, t, "holds-callable"); sa_assert(x(t), "copy-keeps-source");
        const Fun& ca = a;
        Fun b(ca); HOLDS(b, t, "copy-equals-source"); HOLDS(a, t, "copy-keeps-source");
        b = y; HOLDS(b, u, "holds-callable"); HOLDS(a, t, "copies-independent"); sa_assert(y(u), "copy-keeps-source");
        Fun c(std::move(b)); HOLDS(c, u, "move-equals-source"); sa_assert(!b, "moved-from-is-empty");
        b = std::move(a); HOLDS(b, t, "move-equals-source"); sa_assert(!a, "moved-from-is-empty");
        const Fun& cc = c;
        b = cc; HOLDS(b, u, "copy-equals-source"); HOLDS(c, u, "copy-keeps-source");
        // over a callable of another size, both ways
        Call<Plain<40>> wide = {}; Shape<Plain<40>>::put(wide.x, t);
        Call<Held<8>> small; Shape<Held<8>>::put(small.x, t);
        Fun w(wide), s(small);
        w = cc; HOLDS(w, u, "copy-equals-source");
        s = cc; HOLDS(s, u, "copy-equals-source");
        w = wide; sa_assert(w(t) && !w.usingInlineStorage(), "holds-callable");
        s = small; sa_assert(s(t), "holds-callable");
        c = std::move(w); sa_assert(c(t) && !w && !c.usingInlineStorage(), "move-equals-source");
        b = std::move(s); sa_assert(b(t) && !s, "move-equals-source");
        c = x; HOLDS(c, t, "holds-callable");
        b = nullptr; sa_assert(!b, "empty");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_any_##name() { any<T>(); }
SHAPES_COPYABLE(X)
#undef X
