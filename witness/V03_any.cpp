// Calls with callables, arguments and results of many shapes.
#include <assert.h>
#include <utility>
#include <amtl/am-function.h>
#include "shapes.h"
#include "libc.h"
using namespace ke;
extern "C" void ev_call();
#define CALLS sa_event("call")
static const void* me_;
// the stored callable holds a T and is handed one in every way
template <typename T> struct Callee {
    T held; mutable unsigned char calls;
    int operator()(T v, T& l, const T& c, T&& r, int t) const {
        ev_call();
        me_ = this;
        sa_assert(calls == CALLS - 1, "stored-callable-called");
        calls++;
        sa_assert(Shape<T>::is(held, (unsigned char)t), "callable-intact");
        sa_assert(Shape<T>::is(v, (unsigned char)(t + 1)) && Shape<T>::is(l, (unsigned char)(t + 2)) && Shape<T>::is(c, (unsigned char)(t + 3)) && Shape<T>::is(r, (unsigned char)(t + 4)), "arguments-in-place");
        Shape<T>::put(l, (unsigned char)(t + 5));
        T taken(std::move(r));
        sa_assert(Shape<T>::is(taken, (unsigned char)(t + 4)), "arguments-in-place");
        return t + 6;
    }
};
template <typename T> static inline void any_call() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        Callee<T> k{}; Shape<T>::put(k.held, t);
        typedef Function<int(T, T&, const T&, T&&, int)> F;
        F f(std::move(k));
        for (int i = 0; i < 3; i++) {
            T v{}, l{}, c{}, r{};
            Shape<T>::put(v, t + 1); Shape<T>::put(l, t + 2); Shape<T>::put(c, t + 3); Shape<T>::put(r, t + 4);
            int got = f(std::move(v), l, c, std::move(r), t);
            sa_assert(CALLS == i + 1, "called-once");
            sa_assert(got == t + 6, "result-unchanged");
            sa_assert(Shape<T>::is(l, t + 5) && Shape<T>::is(c, t + 3), "arguments-in-place");
            if (i == 1) { F g(std::move(f)); sa_assert(!f && !!g, "moves"); f = std::move(g); }
        }
    }
    SHAPES_END(); sa_reach("end");
}
// results
template <typename T> struct Maker { T held; T operator()() const { T x{}; x = held; return x; } };
template <typename T> struct Same { T& operator()(T& x) const { return x; } };
template <typename T> struct SameConst { const T& operator()(const T* x) const { return *x; } };
template <typename T> struct Through { T&& operator()(T&& x) const { return std::move(x); } };
template <typename T> static inline void any_result() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        T x{}; Shape<T>::put(x, t);
        Function<T&(T&)> a{Same<T>()}; sa_assert(&a(x) == &x, "result-unchanged");
        Function<const T&(const T*)> b{SameConst<T>()}; sa_assert(&b(&x) == &x, "result-unchanged");
        Function<T&&(T&&)> c{Through<T>()}; T&& r = c(std::move(x)); sa_assert(&r == &x && Shape<T>::is(x, t), "result-unchanged");
    }
    SHAPES_END(); sa_reach("end");
}
template <typename T> static inline void any_made() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        Maker<T> m{}; Shape<T>::put(m.held, t);
        Function<T()> f(std::move(m));
        T x = f(), y = f();
        sa_assert(Shape<T>::is(x, t) && Shape<T>::is(y, t), "result-unchanged");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_anyresult_##name() { any_result<T>(); }
SHAPES_COPYABLE(X)
SHAPES_MOVEONLY(X)
#undef X
#define V03_SHAPES(X) X(u8, unsigned char) X(u16, uint16_t) X(i32, int) X(u64, uint64_t) X(ptr, char*) X(flag, bool) X(p24, Plain<24>) X(p40, Plain<40>) X(obj, Obj) X(h8, Held<8>) X(h32, Held<32>) X(p200, Plain<200>) X(h130, Held<130>) X(oc, OnlyCopies) X(tiny, Tiny)
#define X(name, T) extern "C" void w_anycall_##name() { any_call<T>(); }
V03_SHAPES(X)
#undef X
#define X(name, T) extern "C" void w_anymade_##name() { any_made<T>(); }
V03_SHAPES(X)
#undef X
