// Long command lines, many options, long names and long values.
#include "args.h"
static inline void number(char* p, size_t i) { p[0] = (char)('a' + i / 10); p[1] = (char)('0' + i % 10); p[2] = 0; }
enum { MANY = 70 };
// many arguments: values of a repeated option, extras, and what follows the marker
static inline void line(bool repeat, bool extra, bool pass, int way = 0) {
    sa_format_real(1);
    {
        Fix f;
        f.p.collect_extra_args();
        f.p.allow_passthrough_args();
        static char text[3][MANY][12];
        std::vector<const char*> v;
        v.push_back("FILE");
        if (repeat || extra)
            for (size_t i = 0; i < MANY; i++) {
                if (repeat) {
                    number(text[0][i], i);
                    if (i & 1) { v.push_back("-r"); v.push_back(text[0][i]); }
                    else { char* p = text[0][i]; const char* o = "--rep="; size_t n = 0; while (o[n]) { p[n] = o[n]; n++; } number(p + n, i); v.push_back(p); }
                }
                if (extra) { number(text[1][i], MANY - i); v.push_back(text[1][i]); }
            }
        v.push_back("-n"); v.push_back("12");
        v.push_back("--enable");
        if (pass) {
            v.push_back("--");
            for (size_t i = 0; i < MANY; i++) { text[2][i][0] = '-'; number(text[2][i] + 1, i); v.push_back(text[2][i]); }
        }
        bool ok;
        if (way == 0) ok = f.p.parse(v);
        else if (way == 1) { v.insert(v.begin(), "program"); v.push_back(nullptr); ok = f.p.parse((int)v.size() - 1, (char**)&v[0]); }
        else { std::vector<std::string> t; for (const char* a : v) t.emplace_back(a); ok = f.p.parse(t); }
        sa_assert(ok, "accepts-exactly-the-valid");
        sa_assert(f.n.hasValue() && f.n.value() == 12 && f.e.value() && eq(f.s.value(), "dflt") && eq(f.pos.value(), "FILE"), "option-values");
        sa_assert(f.r.values().size() == (repeat ? MANY : 0), "repeated-values");
        sa_assert(f.p.extra_args().size() == (extra ? MANY : 0), "extra-arguments");
        sa_assert(f.p.passthrough_args().size() == (pass ? MANY : 0), "pass-through-arguments");
        for (size_t i = 0; i < MANY; i++) {
            if (repeat && i < f.r.values().size()) sa_assert(eq(f.r.values()[i], text[0][i] + (i & 1 ? 0 : 6)), "repeated-values");
            if (extra && i < f.p.extra_args().size()) sa_assert(eq(f.p.extra_args()[i], text[1][i]), "extra-arguments");
            if (pass && i < f.p.passthrough_args().size()) sa_assert(eq(f.p.passthrough_args()[i], text[2][i]), "pass-through-arguments");
        }
        sa_reach("end");
    }
    sa_va_clean(); sa_clean("no-leak");
}
extern "C" void w_line_repeat() { line(true, false, false); }
extern "C" void w_line_extra() { line(false, true, false); }
extern "C" void w_line_pass() { line(false, false, true); }
extern "C" void w_line_all() { line(true, true, true); }
extern "C" void w_line_argv() { line(true, false, true, 1); }
extern "C" void w_line_strings() { line(false, true, true, 2); }
// a long line is refused for its last argument as a short one is
extern "C" void w_late_error() {
    sa_format_real(1);
    {
        Fix f;
        f.p.collect_extra_args();
        std::vector<const char*> v;
        for (size_t i = 0; i < MANY; i++) v.push_back("x");
        uint32_t k = sa_u32(); sa_assume(k < 4);
        v.push_back(k == 0 ? "--zzz" : k == 1 ? "-n" : k == 2 ? "--num=q" : "-s");
        sa_assert(!f.p.parse(v), "accepts-exactly-the-valid");
        sa_assert(recorded_error(f.p), "error-recorded");
        sa_reach("end");
    }
    sa_va_clean(); sa_clean("no-leak");
}
// many options and positionals: each takes its own argument
struct Twenty {
    char shorts[20][4], longs[20][12];
    Parser p;
    std::vector<std::unique_ptr<StringOption>> o;
    std::vector<std::unique_ptr<StringOption>> pos;
    Twenty() {
        for (size_t i = 0; i < 20; i++) {
            shorts[i][0] = 's'; number(shorts[i] + 1, i);
            const char* w = "long-"; size_t n = 0; while (w[n]) { longs[i][n] = w[n]; n++; } number(longs[i] + n, i);
            o.emplace_back(std::make_unique<StringOption>(p, shorts[i], longs[i], Nothing(), "h"));
        }
        for (size_t i = 0; i < 20; i++) pos.emplace_back(std::make_unique<StringOption>(p, longs[i], "h"));
    }
};
extern "C" void w_many_options() {
    sa_format_real(1);
    {
        Twenty t;
        static char a[20][24], b[20][4];
        std::vector<const char*> v;
        for (size_t k = 0; k < 20; k++) {
            size_t i = k * 7 % 20;
            if (i & 1) { a[i][0] = '-'; a[i][1] = 's'; number(a[i] + 2, i); v.push_back(a[i]); number(b[i], i + 20); v.push_back(b[i]); }
            else { const char* w = "--long-"; size_t n = 0; while (w[n]) { a[i][n] = w[n]; n++; } number(a[i] + n, i); n += 2; a[i][n++] = '='; number(a[i] + n, i + 20); v.push_back(a[i]); number(b[i], i + 20); }
            v.push_back(t.shorts[k]);     // the k-th positional
        }
        sa_assert(t.p.parse(v), "accepts-exactly-the-valid");
        for (size_t i = 0; i < 20; i++) {
            sa_assert(t.o[i]->hasValue() && eq(t.o[i]->value(), b[i]), "option-values");
            sa_assert(t.pos[i]->hasValue() && eq(t.pos[i]->value(), t.shorts[i]), "positional-value");
        }
        t.p.reset();
        v.pop_back();
        sa_assert(!t.p.parse(v), "accepts-exactly-the-valid");
        sa_reach("end");
    }
    sa_va_clean(); sa_clean("no-leak");
}
// long names and long values
template <size_t N> static inline void long_text() {
    sa_format_real(1);
    {
        static char name[N + 1], arg[2 * N + 8], value[N + 1];
        for (size_t i = 0; i < N; i++) { name[i] = (char)('a' + i % 26); value[i] = (char)('A' + i * 5 % 26); }
        name[N] = value[N] = 0;
        Parser p;
        StringOption o(p, nullptr, name, Nothing(), "h");
        ToggleOption t(p, name, "short", Nothing(), "h");
        bool joined = sa_bool(), cut = sa_bool(), other = !cut && sa_bool();
        arg[0] = arg[1] = '-';
        size_t n = 2;
        for (size_t i = 0; i < N - cut; i++) arg[n++] = name[i];
        if (other) arg[n - 1]++;
        if (joined) { arg[n++] = '='; for (size_t i = 0; i < N; i++) arg[n++] = value[i]; }
        arg[n] = 0;
        std::vector<const char*> v = {arg};
        if (!joined) v.push_back(value);
        v.push_back("--short");
        bool ok = p.parse(v);
        sa_assert(ok == !(cut || other), "accepts-exactly-the-valid");
        if (!(cut || other)) sa_assert(o.hasValue() && eq(o.value(), value) && t.value(), "option-values");
        else sa_assert(!o.hasValue() && recorded_error(p), "error-recorded");
        sa_reach("end");
    }
    sa_va_clean(); sa_clean("no-leak");
}
extern "C" void w_long_16() { long_text<16>(); }
extern "C" void w_long_33() { long_text<33>(); }
extern "C" void w_long_70() { long_text<70>(); }
extern "C" void w_long_130() { long_text<130>(); }
