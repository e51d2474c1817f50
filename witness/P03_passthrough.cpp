// Pass-through: every vector of three arguments from a set where the marker is first, last, a value, repeated, or follows a stop.
#include "args.h"
static inline uint32_t any(uint32_t n) { uint32_t i = sa_u32(); sa_assume(i < n); return i; }
static inline Tok pick(uint32_t i) {
    switch (i) {
    case 0: return tok("--", DASHES);
    case 1: return tok("-s", OPT, S);
    case 2: return tok("-b", OPT, B);
    case 3: return tok("x", PLAIN);
    case 4: return tok("-q", OPT, Q);
    case 5: return tok("-zz", UNKNOWN);
    default: return tok("", PLAIN);
    }
}
static inline void run(const Tok* a, size_t n, Conf c) {
    sa_format_real(1);
    {
        Fix f;
        if (c.collect) f.p.collect_extra_args();
        if (c.passthrough) f.p.allow_passthrough_args();
        if (c.inline_values) f.p.enable_inline_values();
        if (c.slashes) f.p.allow_slashes();
        std::vector<const char*> v;
        for (size_t i = 0; i < n; i++) v.push_back(a[i].text);
        bool ok = f.p.parse(v);
        Want w = model(a, n, c);
        sa_assert(ok == w.ok, "accepts-exactly-the-valid");
        values(f, w);
        if (w.npass) sa_reach("passed-through"); else sa_reach("nothing-passed");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// the marker somewhere
#define AT(n) extern "C" void w_at_##n() { Tok a[3]; for (uint32_t i = 0; i < 3; i++) a[i] = i == n ? pick(0) : pick(any(7)); run(a, 3, {n == 1, true, false, false}); }
AT(0) AT(1) AT(2)
// options before, anything after
extern "C" void w_four() {
    Tok a[4] = {pick(3), pick(any(5)), pick(0), pick(any(7))};
    run(a, 4, {true, true, false, false});
}
extern "C" void w_four_first() {
    Tok a[4] = {pick(any(7)), pick(0), pick(any(7)), pick(0)};
    run(a, 4, {sa_bool(), true, false, false});
}
// not enabled: the marker is an ordinary (unknown) argument or a value
extern "C" void w_off() {
    uint32_t n = any(3);
    Tok a[3];
    for (uint32_t i = 0; i < 3; i++) a[i] = i == n ? pick(0) : pick(any(4));
    sa_format_real(1);
    {
        Fix f;
        std::vector<const char*> v;
        for (size_t i = 0; i < 3; i++) v.push_back(a[i].text);
        bool ok = f.p.parse(v);
        Want w = model(a, 3, {false, false, false, false});
        sa_assert(ok == w.ok, "accepts-exactly-the-valid");
        values(f, w);
        sa_assert(f.p.passthrough_args().empty(), "pass-through-arguments");
        if (ok) sa_reach("accepted"); else sa_reach("refused");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// only exactly two dashes are the marker, also with inline values and slashes
extern "C" void w_lookalikes() {
    uint32_t i = any(4);
    Tok a[2] = {i == 0 ? tok("---", UNKNOWN) : i == 1 ? tok("--=", UNKNOWN) : i == 2 ? tok("-", UNKNOWN) : tok("//", UNKNOWN), pick(3)};
    run(a, 2, {false, true, true, true});
}
extern "C" void w_inline() {
    Tok a[3] = {tok("-sx", OPT, S, "x"), pick(0), tok("/s:x", UNKNOWN)};
    run(a, 3, {false, true, true, true});
}
// what follows is passed on byte for byte
extern "C" void w_bytes() {
    char t[4];
    size_t n = any(4);
    for (size_t i = 0; i < n; i++) { uint8_t ch = sa_u8(); sa_assume(ch != 0); t[i] = (char)ch; }
    t[n] = 0;
    {
        Fix f;
        f.p.allow_passthrough_args();
        bool ok = f.p.parsev("x", "--", t, (const char*)nullptr);
        sa_assert(ok, "accepts-exactly-the-valid");
        const auto& v = f.p.passthrough_args();
        sa_assert(v.size() == 1 && v[0].size() == n, "pass-through-arguments");
        for (size_t i = 0; i < n; i++) sa_assert(v[0][i] == t[i], "pass-through-arguments");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
