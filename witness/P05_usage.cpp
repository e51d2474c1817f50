// Usage text: names and help texts of every length around the column limits, with arbitrary characters.
#include "args.h"
extern "C" { size_t sa_out_longest_line(); }
static inline uint32_t any(uint32_t n) { uint32_t i = sa_u32(); sa_assume(i < n); return i; }
static char prog[] = "prog";
static char* argv0[] = {prog, nullptr};

// each text after the previous one, and nowhere again
static size_t at_;
static inline void next(const char* t, const char* rule) {
    size_t i = sa_out_has(t, at_);
    sa_assert(i != 0, rule);
    sa_assert(sa_out_has(t, 0) == i, rule);
    if (i) sa_assert(sa_out_has(t, i) == 0, rule);
    at_ = i ? i - 1 + 1 : at_;
}
static inline void after(const char* t, const char* rule) {
    size_t i = sa_out_has(t, at_);
    sa_assert(i != 0, rule);
    if (i) at_ = i;
}
static inline void shown(Parser& p, int argc = 1, char** argv = argv0) {
    sa_format_real(1);
    sa_out_clear();
    at_ = 0;
    p.usage(sa_file(), argc, argv);
}
// a name of n arbitrary letters or dashes starting with the given one
static inline void name(char* t, char c, size_t n) {
    for (size_t i = 0; i < n; i++) t[i] = c + (char)(i % 3);
    t[n] = 0;
}

extern "C" void w_kinds() {
    {
        Parser p("about this");
        StringOption s(p, "s", "str-opt", Nothing(), "sh1 sh2");
        IntOption n(p, "n", nullptr, Nothing(), "nh1");
        StringOption one(p, "first", "fh1 fh2 fh3");
        EnableOption e(p, nullptr, "enable", false, "eh1");
        ToggleOption t(p, "t", "toggle", Nothing(), "");
        StringOption two(p, "second", "th1");
        RepeatOption<std::string> r(p, "r", nullptr, "rh1");
        Option<bool> b(p, "b", "bool", Nothing(), "bh1");
        p.add_usage_line("@extra", "xh1 xh2");
        shown(p);
        next("about this\n", "about-text");
        next("Usage: prog [-h] first second\n", "usage-line");
        next("positional arguments:\n", "every-option-shown");
        after("  first ", "every-option-shown"); next("fh1 fh2 fh3\n", "help-complete");
        after("  second ", "every-option-shown"); next("th1\n", "help-complete");
        next("optional arguments:\n", "every-option-shown");
        next("  -h, --help ", "every-option-shown"); next("Display this help menu.\n", "help-complete");
        next("  -s, --str-opt=STR_OPT ", "every-option-shown"); next("sh1 sh2\n", "help-complete");
        next("  -n ", "every-option-shown"); next("nh1\n", "help-complete");
        next("  --enable ", "every-option-shown"); next("eh1\n", "help-complete");
        next("  -t, --toggle ", "every-option-shown");
        next("  -r ", "every-option-shown"); next("rh1\n", "help-complete");
        next("  -b, --bool ", "every-option-shown"); next("bh1\n", "help-complete");
        next("  @extra", "every-option-shown"); next("xh1 xh2\n", "help-complete");
        sa_assert(sa_out_longest_line() <= 80, "lines-fit");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// both forms share a cell only when they fit it
static inline void cell(size_t n) {
    {
        char l[80];
        name(l, 'a', n);
        Parser p;
        ToggleOption t(p, "t", l, Nothing(), "hh1 .................... .................... .................... .................... hh2");
        shown(p);
        next("Usage: prog [-h]\n", "usage-line");
        next("optional arguments:\n", "every-option-shown");
        after("  -t", "every-option-shown");
        after("--", "every-option-shown");
        next(l, "every-option-shown");
        at_ = 0;      // the help may stand beside either form
        after("  -t", "every-option-shown");
        next("hh1", "help-complete");
        next("hh2", "help-complete");
        sa_assert(sa_out_longest_line() <= 80, "lines-fit");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_cell_18() { cell(18); }
extern "C" void w_cell_19() { cell(19); }
extern "C" void w_cell_20() { cell(20); }
extern "C" void w_cell_22() { cell(22); }
extern "C" void w_cell_23() { cell(23); }
extern "C" void w_cell_24() { cell(24); }
extern "C" void w_cell_39() { cell(39); }
extern "C" void w_cell_74() { cell(74); }
// one form alone, of every kind, with help longer than a line
static inline void alone(int kind, size_t n) {
    {
        char l[80];
        name(l, 'a', n);
        static const char h[] = "hh1 .................... .................... .................... .................... hh2";
        Parser p;
        if (kind == 0) { ToggleOption t(p, nullptr, l, Nothing(), h); shown(p); }
        else if (kind == 1) { ToggleOption t(p, l, nullptr, Nothing(), h); shown(p); }
        else if (kind == 2) { StringOption t(p, l, h); shown(p); }
        else { p.add_usage_line(l, h); shown(p); }
        if (kind == 2) {
            next("Usage: prog [-h] ", "usage-line");
            after(l, "usage-line");
        }
        after(kind == 0 ? "  --" : kind == 1 ? "  -" : "  ", "every-option-shown");
        after(l, "every-option-shown");
        next("hh1", "help-complete");
        next("hh2", "help-complete");
        if (kind != 2 || n < 60) { sa_assert(sa_out_longest_line() <= 80, "lines-fit"); }
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
#define ALONE(n) extern "C" void w_alone_##n() { alone(sa_bool() ? (sa_bool() ? 0 : 1) : (sa_bool() ? 2 : 3), n); }
ALONE(1) ALONE(23) ALONE(24) ALONE(25) ALONE(26) ALONE(27) ALONE(28) ALONE(29) ALONE(45) ALONE(74)
// with the value named after the option
static inline void value_cell(size_t n) {
    {
        char l[40];
        name(l, 'a', n);
        Parser p;
        StringOption t(p, "t", l, Nothing(), "hh1 hh2");
        shown(p);
        after("  -t", "every-option-shown");
        after("--", "every-option-shown");
        next(l, "every-option-shown");
        after("=", "every-option-shown");
        for (size_t i = 0; l[i]; i++) l[i] = l[i] - 'a' + 'A';
        next(l, "every-option-shown");
        at_ = 0;      // the help may stand beside either form
        after("  -t", "every-option-shown");
        next("hh1", "help-complete");
        next("hh2", "help-complete");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_value_8() { value_cell(8); }
extern "C" void w_value_9() { value_cell(9); }
extern "C" void w_value_10() { value_cell(10); }
extern "C" void w_value_14() { value_cell(14); }
// help of two or three words around the width of the column; every word whole, in order, none lost
static inline void words(size_t a, size_t b, size_t c, bool positional) {
    {
        char h[140], x[64], y[64], z[64];
        name(x, 'a', a); name(y, 'd', b); name(z, 'g', c);
        size_t n = 0;
        for (size_t i = 0; i < a; i++) h[n++] = x[i];
        h[n++] = ' ';
        for (size_t i = 0; i < b; i++) h[n++] = y[i];
        h[n++] = ' ';
        for (size_t i = 0; i < c; i++) h[n++] = z[i];
        h[n] = 0;
        Parser p;
        if (positional) {
            StringOption o(p, "w", h);
            shown(p);
        } else {
            ToggleOption o(p, "w", nullptr, Nothing(), h);
            shown(p);
        }
        next(x, "help-complete");
        next(y, "help-complete");
        next(z, "help-complete");
        if (a < 52 && b < 52 && c < 52) { sa_assert(sa_out_longest_line() <= 80, "lines-fit"); }
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_words_short() { words(3, 3, 3, sa_bool()); }
extern "C" void w_words_25() { words(25, 25, 4, sa_bool()); }
extern "C" void w_words_26() { words(25, 26, 4, false); }
extern "C" void w_words_27() { words(26, 26, 4, false); }
extern "C" void w_words_28() { words(20, 30, 4, false); }
extern "C" void w_words_50() { words(50, 4, 50, sa_bool()); }
extern "C" void w_words_51() { words(51, 51, 4, false); }
extern "C" void w_words_60() { words(60, 4, 60, sa_bool()); }
// arbitrary characters in the help word, the program name and the value shown
extern "C" void w_any_text() {
    {
        char h[4], g[8] = {'p', 0, 'q', 0};
        for (size_t i = 0; i < 3; i++) { uint8_t c = sa_u8(); sa_assume(c > ' ' && c < 128); h[i] = (char)c; }
        h[3] = 0;
        uint8_t c = sa_u8(); sa_assume(c > ' ' && c < 128); g[1] = (char)c;
        char* av[] = {g, nullptr};
        Parser p(h);
        p.set_usage_line(h);
        ToggleOption t(p, "t", nullptr, Nothing(), h);
        shown(p, 1, av);
        after(h, "about-text");
        after(g, "usage-line");
        after(h, "usage-line");
        after("  -t ", "every-option-shown");
        after(h, "help-complete");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// after a failure: the usage line and the error only, unless help was asked for
extern "C" void w_error() {
    {
        bool help = sa_bool();
        Parser p0, p1("about");
        Parser& p = help ? p1 : p0;
        IntOption n(p, "n", "num", Nothing(), "nh1");
        char a0[] = "-n", a1[] = "zz", a2[] = "-h", a3[] = "--help";
        uint32_t i = any(3);
        char* av[] = {prog, a0, a1, i == 0 ? nullptr : i == 1 ? a2 : a3, nullptr};
        int argc = i ? 4 : 3;
        sa_format_real(1);
        bool ok = p.parse(argc, av);
        sa_assert(!ok, "parse-fails");
        shown(p, argc, av);
        next("Usage: prog", "usage-line");
        if (!help || i == 0) {
            next("error: ", "error-shown");
            sa_assert(sa_out_has("zz", 0) != 0, "error-shown");
            sa_assert(sa_out_has("nh1", 0) == 0, "error-only");
            sa_reach("error");
        } else {
            sa_assert(sa_out_has("error: ", 0) == 0, "help-shown");
            next("  -n, --num=NUM ", "every-option-shown");
            next("nh1\n", "help-complete");
            sa_reach("help");
        }
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_nothing() {
    {
        Parser p;
        shown(p, 0, nullptr);
        after("Usage:", "usage-line");
        sa_assert(sa_out_has("arguments:", 0) == 0, "every-option-shown");
        p.add_usage_line("x", "xh1");
        StringOption o(p, "file", "fh1");
        shown(p, 0, nullptr);
        next("positional arguments:\n", "every-option-shown");
        next("  file", "every-option-shown"); next("fh1\n", "help-complete");
        after("  x", "every-option-shown"); next("xh1\n", "help-complete");
        sa_assert(sa_out_has("optional arguments:", 0) == 0, "every-option-shown");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// many options and positionals, and help of many words: all of it, in order
extern "C" void w_many() {
    {
        char names[12][6], helps[12][6];
        Parser p;
        std::vector<std::unique_ptr<IOption>> o;
        for (size_t i = 0; i < 12; i++) {
            const char* w = "name"; for (size_t j = 0; j < 4; j++) { names[i][j] = w[j]; helps[i][j] = "help"[j]; }
            names[i][4] = helps[i][4] = (char)('a' + i); names[i][5] = helps[i][5] = 0;
        }
        for (size_t i = 0; i < 6; i++) o.emplace_back(std::make_unique<StringOption>(p, names[i], helps[i]));
        for (size_t i = 6; i < 10; i++) o.emplace_back(std::make_unique<ToggleOption>(p, nullptr, names[i], Nothing(), helps[i]));
        for (size_t i = 10; i < 12; i++) p.add_usage_line(names[i], helps[i]);
        shown(p);
        after("Usage: prog [-h]", "usage-line");
        for (size_t i = 0; i < 6; i++) after(names[i], "usage-line");
        after("\n", "usage-line");
        for (size_t i = 0; i < 12; i++) { after(names[i], "every-option-shown"); next(helps[i], "help-complete"); }
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_many_words() {
    {
        char h[60 * 8];
        size_t n = 0;
        for (size_t i = 0; i < 60; i++) {
            if (i) h[n++] = ' ';
            h[n++] = (char)('a' + i % 26); h[n++] = (char)('A' + i / 26);
            for (size_t k = 0; k < i % 5; k++) h[n++] = '.';
        }
        h[n] = 0;
        Parser p;
        ToggleOption t(p, "t", nullptr, Nothing(), h);
        shown(p);
        next("optional arguments:\n", "every-option-shown");
        for (size_t i = 0; i < 60; i++) {
            char w[3] = {(char)('a' + i % 26), (char)('A' + i / 26), 0};
            next(w, "help-complete");
        }
        sa_assert(sa_out_longest_line() <= 80, "lines-fit");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
