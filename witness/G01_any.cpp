// Saved values, emptied variables and guards over values of many shapes.
#include <assert.h>
#include <utility>
#include <amtl/am-raii.h>
#include "shapes.h"
#include "libc.h"
using namespace ke;
extern "C" void ev_call();
#define CALLS sa_event("call")
template <typename T> static inline void any_saved() {
    {
        unsigned char t = sa_u8(); sa_assume(t > 3 && t < 200);
        T x{}; Shape<T>::put(x, t);
        T v{}; Shape<T>::put(v, t + 1);
        {
            SaveAndSet<T> s(&x, v);
            sa_assert(Shape<T>::is(x, t + 1) && Shape<T>::is(v, t + 1), "sets-the-value");
            {
                T w{}; Shape<T>::put(w, t + 2);
                SaveAndSet<T> n(&x, w);
                sa_assert(Shape<T>::is(x, t + 2), "sets-the-value");
                Shape<T>::put(x, t + 5);
            }
            sa_assert(Shape<T>::is(x, t + 1), "old-value-restored");
            SaveAndSet<T> own(&x, x);
            sa_assert(Shape<T>::is(x, t + 1), "sets-the-value");
            Shape<T>::put(x, t + 6);
        }
        sa_assert(Shape<T>::is(x, t), "old-value-restored");
    }
    SHAPES_END(); sa_reach("end");
}
template <typename T> static inline void any_void() {
    {
        unsigned char t = sa_u8(); sa_assume(t > 3 && t < 200);
        T x{}; Shape<T>::put(x, t | 1);
        { T y = ReturnAndVoid(x); sa_assert(Shape<T>::is(y, t | 1), "returns-old-value"); }
        T none = T(); T z = ReturnAndVoid(x);
        sa_assert(z == none && x == none, "default-left-behind");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_anysave_##name() { any_saved<T>(); }
SHAPES_COPYABLE(X)
#undef X
#define G01_VOID(X) X(u8, unsigned char) X(u16, uint16_t) X(i32, int) X(u64, uint64_t) X(ptr, char*) X(flag, bool) X(p24, Plain<24>) X(p40, Plain<40>) X(h8, Held<8>) X(h32, Held<32>) X(p200, Plain<200>) X(h130, Held<130>) X(oc, OnlyCopies) X(built, Built) X(tiny, Tiny)
#define X(name, T) extern "C" void w_anyvoid_##name() { any_void<T>(); }
G01_VOID(X)
#undef X
template <typename T> struct Calls { T x; unsigned char t; void operator()() { ev_call(); sa_assert(Shape<T>::is(x, t), "callback-intact"); } };
template <typename T> static inline void any_guard() {
    {
        unsigned char t = sa_u8(); sa_assume(t < 200);
        bool c = sa_bool(), m = sa_bool();
        {
            Calls<T> f{{}, t}; Shape<T>::put(f.x, t);
            auto g = MakeScopeGuard(std::move(f));
            sa_assert(CALLS == 0, "not-before-exit");
            if (m) {
                { ScopeGuard<Calls<T>> h(std::move(g)); if (c) h.cancel(); }
                sa_assert(CALLS == (c ? 0 : 1), "exactly-once");
            } else if (c) g.cancel();
        }
        sa_assert(CALLS == (c ? 0 : 1), "exactly-once");
    }
    SHAPES_END(); sa_reach("end");
}
#define X(name, T) extern "C" void w_anyguard_##name() { any_guard<T>(); }
SHAPES_COPYABLE(X)
SHAPES_MOVEONLY(X)
#undef X
static void plain() { ev_call(); }
static bool answers() { ev_call(); return false; }
extern "C" void w_function() {
    bool c = sa_bool();
    { ScopeGuard<void (*)()> g(&plain); if (c) g.cancel(); }
    sa_assert(CALLS == (c ? 0 : 1), "exactly-once");
    sa_reach("end");
}
extern "C" void w_result() {
    bool c = sa_bool();
    { auto g = MakeScopeGuard(&answers); if (c) g.cancel(); }
    sa_assert(CALLS == (c ? 0 : 1), "exactly-once");
    sa_reach("end");
}
extern "C" void w_empty_callable() {
    bool c = sa_bool();
    { auto g = MakeScopeGuard([]() { ev_call(); }); if (c) g.cancel(); }
    sa_assert(CALLS == (c ? 0 : 1), "exactly-once");
    sa_reach("end");
}
