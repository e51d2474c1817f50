// Optionals of payload types of many shapes.
#include <assert.h>
#include <amtl/am-maybe.h>
#include "sa.h"
#include "shapes.h"
#include "libc.h"
using namespace ke;
#define IS(m, full, t, rule) do { sa_assert((m).isValid() == (full) && (bool)(m) == (full), rule); if (full) sa_assert(Shape<T>::is((m).get(), t) && Shape<T>::is(*(m), t), rule); } while (0)
template <typename T> static inline void any() {
    {
        unsigned char t = sa_u8(), u = sa_u8();
        T x{}; Shape<T>::put(x, t);
        Maybe<T> a; IS(a, false, 0, "valid-iff-live");
        a.init(x); IS(a, true, t, "valid-iff-live"); sa_assert(Shape<T>::is(x, t), "copy-keeps-source");
        Maybe<T> b(a); IS(b, true, t, "copy-equals-source"); IS(a, true, t, "copy-keeps-source");
        Shape<T>::put(*b, u); IS(b, true, u, "access"); IS(a, true, t, "copy-keeps-source");
        Maybe<T> c(std::move(b)); IS(c, true, u, "move-equals-source"); IS(b, false, 0, "moved-from-is-empty");
        const Maybe<T> k(c); IS(k, true, u, "copy-equals-source");
        a = k; IS(a, true, u, "copy-equals-source"); IS(k, true, u, "copy-keeps-source");
        b = c; IS(b, true, u, "copy-equals-source"); IS(c, true, u, "copy-keeps-source");
        a = std::move(c); IS(a, true, u, "move-equals-source"); IS(c, false, 0, "moved-from-is-empty");
        b = c; IS(b, false, 0, "copy-equals-source");
        Maybe<T>& r = a; a = r; IS(a, true, u, "self-assignment-changes-nothing");
        a = std::move(r); IS(a, true, u, "self-assignment-changes-nothing");
        Maybe<T> s = Some(x); IS(s, true, t, "some"); sa_assert(Shape<T>::is(x, t), "some-keeps-lvalue");
        const T& cx = x;
        Maybe<T> q = Some(cx); IS(q, true, t, "some"); sa_assert(Shape<T>::is(x, t), "some-keeps-lvalue");
        s = Some(std::move(x)); IS(s, true, t, "some");
        c.init(); sa_assert(c.isValid(), "valid-iff-live");
        c = Nothing(); IS(c, false, 0, "copy-equals-source");
    }
    SHAPES_END(); sa_reach("end");
}
template <typename T> static inline void any_move() {
    {
        unsigned char t = sa_u8(), u = sa_u8();
        T x{}; Shape<T>::put(x, t);
        Maybe<T> a; a.init(std::move(x)); IS(a, true, t, "valid-iff-live");
        Maybe<T> b(std::move(a)); IS(b, true, t, "move-equals-source"); IS(a, false, 0, "moved-from-is-empty");
        Maybe<T> c; c.init(); Shape<T>::put(*c, u);
        b = std::move(c); IS(b, true, u, "move-equals-source"); IS(c, false, 0, "moved-from-is-empty");
        T y{}; Shape<T>::put(y, t);
        Maybe<T> d = Some(std::move(y)); IS(d, true, t, "some");
        d = std::move(c); IS(d, false, 0, "move-equals-source");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_any_##name() { any<T>(); }
SHAPES_COPYABLE(X)
#undef X
#define X(name, T) extern "C" void w_anymove_##name() { any_move<T>(); }
SHAPES_MOVEONLY(X)
#undef X
