// Reset: after any first parse, the second gives what it gives on a new parser.
#include "args.h"
static inline uint32_t any(uint32_t n) { uint32_t i = sa_u32(); sa_assume(i < n); return i; }
static inline Tok pick(uint32_t i) {
    switch (i) {
    case 0: return tok("-s", OPT, S);
    case 1: return tok("-n=12", OPT, N, "12");
    case 2: return tok("-b", OPT, B);
    case 3: return tok("-e", OPT, E);
    case 4: return tok("--toggle", OPT, T);
    case 5: return tok("-q", OPT, Q);
    case 6: return tok("--rep=y", OPT, R, "y");
    case 7: return tok("x", PLAIN);
    case 8: return tok("--", DASHES);
    case 9: return tok("-zz", UNKNOWN);
    default: return tok("--no-enable", NO, E);
    }
}
static inline bool go(Parser& p, const Tok* a, size_t n) {
    std::vector<const char*> v;
    for (size_t i = 0; i < n; i++) v.push_back(a[i].text);
    return p.parse(v);
}
static inline void cycle(uint32_t x, uint32_t y, uint32_t z, bool twice) {
    sa_format_real(1);
    {
        Conf c = {true, true, false, false};
        Fix f;
        f.p.collect_extra_args();
        f.p.allow_passthrough_args();
        Tok a[3] = {pick(x), pick(y), pick(y == 8 ? 7 : x)};
        go(f.p, a, 3);
        f.p.reset();
        if (twice) f.p.reset();
        Want none = model(nullptr, 0, c);
        values(f, none);
        sa_assert(!recorded_error(f.p), "error-forgotten");
        Tok b[2] = {pick(z), pick(7)};
        bool ok = go(f.p, b, 2);
        Want w = model(b, 2, c);
        sa_assert(ok == w.ok, "same-result-as-new");
        values(f, w);
        if (!ok) { sa_assert(recorded_error(f.p), "same-error-as-new"); sa_reach("refused"); } else sa_reach("accepted");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// the second parse gives the options the first one gave, and others
#define CYCLE(n) extern "C" void w_after_##n() { cycle(n, any(11), n, false); } \
    extern "C" void w_then_extra_##n() { cycle(n, any(11), 7, false); } extern "C" void w_then_bad_##n() { cycle(n, any(11), 9, false); }
CYCLE(0) CYCLE(1) CYCLE(2) CYCLE(3) CYCLE(4) CYCLE(5) CYCLE(6) CYCLE(7) CYCLE(8) CYCLE(9) CYCLE(10)
extern "C" void w_again() { uint32_t x = any(11); cycle(x, x, x, true); }

// every option kind, positionals and static options of every value type
extern "C" void w_kinds() {
    sa_format_real(1);
    StringOption ss("ss", nullptr, Nothing(), "s");
    RepeatOption<int> rr(nullptr, "rr", "r");
    {
        Parser p;
        Option<bool> b(p, nullptr, "bool", Some(true), "b");
        IntOption pos(p, "count", "n");
        ToggleOption t(p, "t", nullptr, Nothing(), "t");
        StopOption q(p, "q", nullptr, Some(true), "q");
        uint32_t i = any(4);
        bool ok = i == 0 ? p.parsev("--bool=false", "7", (const char*)nullptr)
                : i == 1 ? p.parsev("-t", "--rr=3", "-ss", "v", "-q", (const char*)nullptr)
                : i == 2 ? p.parsev("7", "7", (const char*)nullptr) : p.parsev("--rr", "3", "--rr=4", "x", (const char*)nullptr);
        sa_assert(ok == (i < 2), "same-result-as-new");
        p.reset();
        sa_assert(b.hasValue() && b.value() && !b.willRepeat() == false, "option-forgotten");
        sa_assert(rr.values().empty(), "option-forgotten");
        sa_assert(!pos.hasValue() && !ss.hasValue() && !t.value() && q.value(), "option-forgotten");
        sa_assert(!recorded_error(p), "error-forgotten");
        ok = p.parsev("--bool=false", "-t", "--rr=5", "-ss", "w", "8", "-q", (const char*)nullptr);
        sa_assert(ok && !b.value() && t.value() && rr.values().size() == 1 && rr.values()[0] == 5 && eq(ss.value(), "w") && pos.value() == 8 && !q.value(), "same-result-as-new");
        sa_reach("end");
    }
    sa_va_clean();
}

// a parser asked for help
extern "C" void w_help() {
    sa_format_real(1);
    {
        Parser p("about");
        StringOption s(p, "s", "str", Nothing(), "s");
        uint32_t i = any(3);
        bool ok = i == 0 ? p.parsev("-h", (const char*)nullptr) : i == 1 ? p.parsev("--help", "x", (const char*)nullptr) : p.parsev("-s", "x", "-h", (const char*)nullptr);
        sa_assert(!ok, "same-result-as-new");
        p.reset();
        sa_assert(p.parsev(nullptr) && !s.hasValue(), "same-result-as-new");
        p.reset();
        sa_assert(p.parsev("-s", "y", (const char*)nullptr) && eq(s.value(), "y"), "same-result-as-new");
        p.reset();
        sa_assert(!p.parsev("-h", (const char*)nullptr), "same-result-as-new");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}

// configuration survives
extern "C" void w_config() {
    sa_format_real(1);
    {
        Parser p;
        StringOption s(p, "s", nullptr, Nothing(), "s");
        p.enable_inline_values();
        p.allow_slashes();
        p.collect_extra_args();
        p.allow_passthrough_args();
        if (sa_bool()) p.parsev("/s:x", "y", "--", "z", (const char*)nullptr);
        p.reset();
        sa_assert(p.parsev("/s:x", "y", "--", "z", (const char*)nullptr) && eq(s.value(), "x"), "configuration-kept");
        sa_assert(p.extra_args().size() == 1 && eq(p.extra_args()[0], "y") && p.passthrough_args().size() == 1 && eq(p.passthrough_args()[0], "z"), "configuration-kept");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
