// Calling a function object: arguments, value categories, results, and nothing else.
#include <assert.h>
#include <utility>
#include <amtl/am-function.h>
#include "sa.h"
using namespace ke;
extern "C" void ev_call();
#define CALLS sa_event("call")

struct Cats {
    const void* expect_ref; const void* expect_cref; const void* expect_rref;
    void operator()(Obj a, Obj& b, const Obj& c, Obj&& d, MObj e, uint64_t f, uint8_t g) const {
        ev_call();
        sa_assert(sa_tok(&a) == 1 && sa_tok(&b) == 2 && sa_tok(&c) == 3 && sa_tok(&d) == 4 && sa_mtok(&e) == 5 && f == 6 && g == 7, "arguments-in-position");
        sa_assert(&b == expect_ref && &c == expect_cref && &d == expect_rref, "arguments-keep-category");
        b = Obj(20);
        Obj taken(std::move(d));
    }
};
extern "C" void w_categories() {
    {
        Obj a(1), b(2), c(3), d(4);
        Cats k = {&b, &c, &d};
        Function<void(Obj, Obj&, const Obj&, Obj&&, MObj, uint64_t, uint8_t)> f(k);
        f(a, b, c, std::move(d), MObj(5), 6, 7);
        sa_assert(CALLS == 1, "called-exactly-once");
        sa_assert(sa_tok(&a) == 1 && sa_tok(&b) == 20 && sa_tok(&c) == 3 && sa_tok(&d) == MOVED, "arguments-keep-category");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
// overload chosen by the value category the callable sees
struct Over { int operator()(Obj&) const { return 1; } int operator()(const Obj&) const { return 2; } int operator()(Obj&&) const { return 3; } };
extern "C" void w_overload() {
    {
        Obj o(1);
        Function<int(Obj&)> l((Over()));
        Function<int(const Obj&)> c((Over()));
        Function<int(Obj&&)> r((Over()));
        Function<int(Obj)> v((Over()));
        sa_assert(l(o) == 1 && c(o) == 2 && r(std::move(o)) == 3 && v(o) == 3, "arguments-keep-category");
        sa_assert(sa_tok(&o) == 1, "arguments-keep-category");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
// results
struct Ret { uint64_t t; Obj operator()(uint64_t x) const { ev_call(); return Obj(t + x); } };
extern "C" void w_result_object() {
    {
        uint64_t t = sa_u32();
        Ret k = {t};
        Function<Obj(uint64_t)> f(k);
        Obj r = f(3);
        sa_assert(sa_tok(&r) == t + 3 && CALLS == 1, "result-unchanged");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct RetM { MObj operator()() const { ev_call(); return MObj(11); } };
extern "C" void w_result_moveonly() {
    {
        Function<MObj()> f((RetM()));
        MObj r = f();
        sa_assert(sa_mtok(&r) == 11 && CALLS == 1, "result-unchanged");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
struct RetRef { uint64_t* p; uint64_t& operator()() const { ev_call(); return *p; } };
extern "C" void w_result_reference() {
    uint64_t cell = 4;
    RetRef k = {&cell};
    Function<uint64_t&()> f(k);
    uint64_t& r = f();
    sa_assert(&r == &cell && CALLS == 1 && cell == 4, "result-unchanged");
    sa_reach("end");
}
struct Wide { uint64_t a, b, c, d; };
struct RetW { Wide operator()(const Wide& w) const { ev_call(); Wide r = {w.d, w.c, w.b, w.a}; return r; } };
extern "C" void w_result_struct() {
    Wide w = {sa_u64(), sa_u64(), sa_u64(), sa_u64()};
    Function<Wide(const Wide&)> f((RetW()));
    Wide r = f(w);
    sa_assert(r.a == w.d && r.b == w.c && r.c == w.b && r.d == w.a && CALLS == 1, "result-unchanged");
    sa_reach("end");
}
static bool neg(bool b) { ev_call(); return !b; }
extern "C" void w_result_bool() {
    bool b = sa_bool();
    Function<bool(bool)> f(neg);
    sa_assert(f(b) == !b && CALLS == 1, "result-unchanged");
    Function<int(int8_t, uint16_t, int64_t)> g([](int8_t x, uint16_t y, int64_t z) { ev_call(); return x == -3 && y == 65535 && z == -9 ? -7 : 0; });
    sa_assert(g(-3, 65535, -9) == -7 && CALLS == 2, "arguments-in-position");
    sa_reach("end");
}
// nothing but the call: storage, contents and emptiness stay as they were
struct Keep { Obj o; uint64_t pad[3]; explicit Keep(uint64_t t) : o(t) { pad[0] = pad[1] = pad[2] = 5; } void operator()() const { ev_call(); sa_assert(sa_tok(&o) == 77 && pad[0] == 5 && pad[2] == 5, "call-has-no-other-effect"); } };
struct KeepS { Obj o; explicit KeepS(uint64_t t) : o(t) {} void operator()() const { ev_call(); sa_assert(sa_tok(&o) == 77, "call-has-no-other-effect"); } };
extern "C" void w_repeat() {
    {
        bool big = sa_bool();
        Function<void()> f;
        if (big) f = Keep(77); else f = KeepS(77);
        uint64_t al = sa_event("alloc"), fr = sa_event("free");
        const Function<void()>& c = f;
        c(); c(); f();
        sa_assert(CALLS == 3, "called-exactly-once");
        sa_assert(sa_event("alloc") == al && sa_event("free") == fr, "call-has-no-other-effect");
        sa_assert((bool)f && f.usingInlineStorage() == !big, "call-has-no-other-effect");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
// the stored callable itself is called: what it remembers stays with it, and a copy remembers for itself
struct Memory { mutable uint64_t sum; uint64_t operator()(uint64_t by) const { ev_call(); return sum += by; } };
struct MemoryBig { mutable uint64_t sum; uint64_t pad[4]; uint64_t operator()(uint64_t by) const { ev_call(); return sum += by; } };
struct MemoryObj { Obj o; mutable uint64_t sum; uint64_t operator()(uint64_t by) const { ev_call(); sa_assert(sa_tok(&o) == 9, "call-has-no-other-effect"); return sum += by; } };
template <typename T> static inline void remembers(const T& t) {
    uint64_t x = sa_u32(), y = sa_u32();
    Function<uint64_t(uint64_t)> f(t);
    sa_assert(f(x) == x && f(y) == x + y, "stored-callable-called");
    Function<uint64_t(uint64_t)> g(f);
    sa_assert(g(1) == x + y + 1 && f(1) == x + y + 1 && CALLS == 4, "stored-callable-called");
    Function<uint64_t(uint64_t)> h(std::move(f));
    sa_assert(h(1) == x + y + 2 && g(1) == x + y + 2 && CALLS == 6, "stored-callable-called");
}
extern "C" void w_memory() {
    { Memory k = {0}; remembers(k); sa_reach("end"); }
    sa_clean("no-leak");
}
extern "C" void w_memory_big() {
    { MemoryBig k = {0, {1, 2, 3, 4}}; remembers(k); sa_reach("end"); }
    sa_clean("no-leak");
}
extern "C" void w_memory_obj() {
    { MemoryObj k = {Obj(9), 0}; remembers(k); sa_reach("end"); }
    sa_clean("no-leak");
}
