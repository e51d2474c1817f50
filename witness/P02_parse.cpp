// Every vector of up to two arguments of every shape, against a model over the table of argument shapes.
#include "args.h"

static inline Tok pick(uint32_t i) {
    switch (i) {
    case 0: return tok("-s", OPT, S);
    case 1: return tok("--str=x", OPT, S, "x");
    case 2: return tok("-b", OPT, B);
    case 3: return tok("true", PLAIN);
    case 4: return tok("FALSE", PLAIN);
    case 5: return tok("", PLAIN);
    case 6: return tok("-", UNKNOWN);
    case 7: return tok("--", DASHES);
    case 8: return tok("--no-enable", NO, E);
    case 9: return tok("-e", OPT, E);
    case 10: return tok("--no-zzz", UNKNOWN);
    case 11: return tok("--no-", UNKNOWN);
    case 12: return tok("-n", OPT, N);
    case 13: return tok("12", PLAIN);
    case 14: return tok("-3", UNKNOWN);
    case 15: return tok("-b=maybe", OPT, B, "maybe");
    case 16: return tok("--enable=true", OPT, E, "true");
    case 17: return tok("--toggle", OPT, T);
    case 18: return tok("--no-toggle", UNKNOWN);
    case 19: return tok("-r", OPT, R);
    case 20: return tok("--rep=a=b", OPT, R, "a=b");
    case 21: return tok("-q", OPT, Q);
    case 22: return tok("--str=", OPT, S, "");
    case 23: return tok("-st", UNKNOWN);
    case 24: return tok("--num=12", OPT, N, "12");
    case 25: return tok("=", PLAIN);
    case 26: return tok("-=x", UNKNOWN);
    case 27: return tok("--str:x", UNKNOWN);
    case 28: return tok("--noenable", UNKNOWN);
    default: return tok("--no+enable", UNKNOWN);
    }
}
static const uint32_t COUNT = 30;
// almost the name of an option: cut short, continued, in another case, or the other form
static const char* const kNear[] = {
    "--e", "--en", "--ena", "--enab", "--enabl", "--enables", "--enable-", "--ENABLE", "--Enable", "--enablE", "-enable", "---enable", "--e=x", "--enabl=true",
    "--t", "--tog", "--toggl", "--toggles", "-toggle", "-t", "--st", "--str2", "--st=x", "--str2=x", "--str-x", "--STR=x", "-str", "-str=x", "--s", "--s=x",
    "--nu", "--nu=12", "--nums=12", "-num", "-num=12", "--n=12", "--re=x", "--reps=x", "-rep=x", "--r=x", "-S", "-N=12", "-B", "-E", "-Q", "-R=x",
    "-sx", "-ss", "-qq", "-ee", "-ex", "--b", "--bool", "--q", "--no-e", "--no-enabl", "--no-enables", "--no-ENABLE", "--No-enable", "--no-no-enable",
    "-no-enable", "--no-str", "--no-s", "--no-q", "--no-num=12", "--file", "--file=x", "-file", "-f", "--help", "-h",
};
static const uint32_t NEAR = sizeof(kNear) / sizeof(kNear[0]);
static inline uint32_t any(uint32_t n) {
    uint32_t i = sa_u32();
    sa_assume(i < n);
    return i;
}
static inline void given(Parser& p, Conf c) {
    if (c.collect) p.collect_extra_args();
    if (c.passthrough) p.allow_passthrough_args();
    if (c.inline_values) p.enable_inline_values();
    if (c.slashes) p.allow_slashes();
}
static inline void run(const Tok* a, size_t n, Conf c) {
    sa_format_real(1);
    {
        Fix f;
        given(f.p, c);
        std::vector<const char*> v;
        for (size_t i = 0; i < n; i++) v.push_back(a[i].text);
        bool ok = f.p.parse(v);
        Want w = model(a, n, c);
        sa_assert(ok == w.ok, "accepts-exactly-the-valid");
        values(f, w);
        if (!ok) { sa_assert(recorded_error(f.p), "failure-records-an-error"); sa_reach("refused"); }
        else sa_reach("accepted");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_none() {
    sa_format_real(1);
    {
        Fix f;
        bool ok = f.p.parse(std::vector<const char*>());
        values(f, model(nullptr, 0, {}));
        sa_assert(!ok && recorded_error(f.p), "failure-records-an-error");
        Parser p, h("help");
        sa_assert(p.parse(std::vector<const char*>()) && h.parse(std::vector<const char*>()), "accepts-exactly-the-valid");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_one() {
    Tok a[1] = {pick(any(COUNT))};
    run(a, 1, {sa_bool(), sa_bool(), false, false});
}
// only the whole name will do
static inline void near(uint32_t lo, uint32_t hi) {
    uint32_t i = sa_u32();
    sa_assume(i >= lo && i < hi);
    Tok a[2];
    for (uint32_t j = lo; j < hi; j++) if (i == j) a[0] = tok(kNear[j], UNKNOWN);
    a[1] = pick(13);
    run(a, sa_bool() ? 2 : 1, {sa_bool(), false, false, false});
}
extern "C" void w_near_0() { near(0, NEAR / 3); }
extern "C" void w_near_1() { near(NEAR / 3, NEAR * 2 / 3); }
extern "C" void w_near_2() { near(NEAR * 2 / 3, NEAR); }
// both lists, in every combination
static inline void pair(uint32_t first, bool on) {
    Tok a[2] = {pick(first), pick(any(COUNT))};
    run(a, 2, {on, on, false, false});
}
#define PAIR(n) extern "C" void w_two_##n() { pair(n, false); } extern "C" void w_two_on_##n() { pair(n, true); }
PAIR(0) PAIR(1) PAIR(2) PAIR(3) PAIR(5) PAIR(7) PAIR(8) PAIR(9) PAIR(12) PAIR(17) PAIR(19) PAIR(20) PAIR(21) PAIR(24)
// refused at once, or read like another: the second argument does not matter
extern "C" void w_two_refused() {
    static const uint32_t k[] = {4, 6, 10, 11, 13, 14, 15, 16, 18, 22, 23, 25, 26, 27};
    uint32_t i = any(14);
    Tok a[2];
    for (uint32_t j = 0; j < 14; j++) if (i == j) a[0] = pick(k[j]);
    uint32_t m = any(4);
    a[1] = m == 0 ? pick(0) : m == 1 ? pick(3) : m == 2 ? pick(7) : pick(21);
    run(a, 2, {sa_bool(), sa_bool(), false, false});
}
static inline Tok pick3(uint32_t i) {
    switch (i) {
    case 0: return pick(2);
    case 1: return pick(3);
    case 2: return pick(8);
    case 3: return pick(19);
    case 4: return pick(20);
    case 5: return pick(5);
    default: return pick(21);
    }
}
#define TRIPLE(n) extern "C" void w_three_##n() { Tok a[3] = {pick3(n), pick3(any(7)), pick3(any(7))}; bool c = sa_bool(); run(a, 3, {c, c, false, false}); }
TRIPLE(0) TRIPLE(1) TRIPLE(2) TRIPLE(3) TRIPLE(4)

// several extra arguments among options
extern "C" void w_extras() {
    Tok a[5] = {pick(3), pick(13), pick(9), pick(5), pick(4)};
    Tok b[5] = {pick(13), pick(2), pick(3), pick(3), pick(25)};
    bool c = sa_bool(), d = sa_bool();
    run(sa_bool() ? a : b, 5, {c, d, false, false});
}
extern "C" void w_passing() {
    Tok a[5] = {pick(3), pick(7), pick(9), pick(7), pick(10)};
    bool c = sa_bool(), d = sa_bool();
    run(a, sa_bool() ? 5 : 3, {c, d, false, false});
}

// inline values and slashes
static inline Tok inl(uint32_t i, Conf c) {
    Kind slash = c.slashes ? OPT : PLAIN;
    switch (i) {
    case 0: return tok("-sx", OPT, S, "x");
    case 1: return tok("-s:x", OPT, S, "x");
    case 2: return tok("-s=x", OPT, S, "x");
    case 3: return tok("-n12", OPT, N, "12");
    case 4: return tok("/n:12", slash, N, "12");
    case 5: return tok("/s", slash, S);
    case 6: return tok("-bFALSE", OPT, B, "FALSE");
    case 7: return tok("-b", OPT, B);
    case 8: return tok("-e1", OPT, E, "1");
    case 9: return tok("-qx", OPT, Q, "x");
    case 10: return tok("--str:x", OPT, S, "x");
    case 11: return tok("--strx", UNKNOWN);
    case 12: return tok("-", UNKNOWN);
    case 13: return tok("/", c.slashes ? UNKNOWN : PLAIN);
    case 14: return tok("/zz", c.slashes ? UNKNOWN : PLAIN);
    case 15: return tok("a:b", PLAIN);
    case 16: return tok("-zx", UNKNOWN);
    case 17: return tok("--no-enable", NO, E);
    case 18: return tok("-ra:b", OPT, R, "a:b");
    case 19: return tok("-r:a:b", OPT, R, "a:b");
    case 20: return tok("-n-3", OPT, N, "-3");
    case 21: return tok("/q", slash, Q);
    default: return tok("FALSE", PLAIN);
    }
}
static inline void inline_case(uint32_t first, bool slashes) {
    Conf c = {false, false, true, slashes};
    Tok a[2] = {inl(first, c), inl(any(23), c)};
    run(a, 2, c);
}
extern "C" void w_inline_one() {
    Conf c = {sa_bool(), false, true, sa_bool()};
    Tok a[1] = {inl(any(23), c)};
    run(a, 1, c);
}
#define INL(n) extern "C" void w_inline_##n() { inline_case(n, true); } extern "C" void w_inline_no_slash_##n() { inline_case(n, false); }
INL(0) INL(4) INL(5) INL(6) INL(7) INL(19)

// one argument of arbitrary characters: nothing outside it is read, and failing is reported
static inline void arbitrary(size_t n, bool inl, bool slashes) {
    sa_format_real(1);
    {
        char* t = new char[n + 1];
        for (size_t i = 0; i < n; i++) { uint8_t ch = sa_u8(); sa_assume(ch != 0); t[i] = (char)ch; }
        t[n] = 0;
        Fix f;
        given(f.p, {sa_bool(), sa_bool(), inl, slashes});
        bool ok = f.p.parse(std::vector<const char*>(1, t));
        sa_assert(ok || recorded_error(f.p), "failure-records-an-error");
        delete[] t;
    }
    sa_va_clean();
    sa_clean("no-leak");
    sa_reach("end");
}
extern "C" void w_any_1() { arbitrary(1, false, false); }
extern "C" void w_any_2() { arbitrary(2, false, false); }
extern "C" void w_any_3() { arbitrary(3, false, false); }
extern "C" void w_any_inline_1() { arbitrary(1, true, true); }
extern "C" void w_any_inline_2() { arbitrary(2, true, true); }
extern "C" void w_any_inline_3() { arbitrary(3, true, false); }

// every way to hand over the arguments
extern "C" void w_ways() {
    sa_format_real(1);
    {
        Fix f;
        char prog[] = "prog", a[] = "-s", b[] = "y", c[] = "z";
        char* argv[] = {prog, a, b, c, nullptr};
        uint32_t way = any(3);
        bool ok = way == 0 ? f.p.parse(4, argv)
                : way == 1 ? f.p.parsev("-s", "y", "z", (const char*)nullptr)
                : f.p.parse(std::vector<std::string>{"-s", "y", "z"});
        Tok m[3] = {tok("-s", OPT, S), tok("y", PLAIN), tok("z", PLAIN)};
        Want w = model(m, 3, {});
        sa_assert(ok && w.ok, "accepts-exactly-the-valid");
        values(f, w);
        sa_reach("end");
    }
    {
        Fix f;
        char prog[] = "prog";
        char* argv[] = {prog, nullptr};
        uint32_t way = any(4);
        bool ok = way == 0 ? f.p.parse(1, argv) : way == 1 ? f.p.parse(0, argv + 1) : way == 2 ? f.p.parsev(nullptr) : f.p.parse(std::vector<std::string>());
        sa_assert(!ok && recorded_error(f.p), "failure-records-an-error");
        sa_reach("none");
    }
    sa_va_clean();
    sa_clean("no-leak");
}

// asking for help fails the parse without an error; everything else is read the same with and without the help option
extern "C" void w_help() {
    sa_format_real(1);
    {
        Parser p("about");
        StringOption s(p, "s", "str", Nothing(), "s");
        StringOption pos(p, "file", "f");
        uint32_t i = any(6);
        bool ok = i == 0 ? p.parsev("-h", (const char*)nullptr) : i == 1 ? p.parsev("--help", "-zz", (const char*)nullptr)
                : i == 2 ? p.parsev("-s", "-h", "x", (const char*)nullptr) : i == 3 ? p.parsev("x", "-h", (const char*)nullptr)
                : i == 4 ? p.parsev("-h=x", (const char*)nullptr) : p.parsev("-zz", "-h", (const char*)nullptr);
        sa_assert(ok == (i == 2), "accepts-exactly-the-valid");
        if (i == 2) sa_assert(eq(s.value(), "-h") && eq(pos.value(), "x"), "string-value");
        if (!ok) sa_assert(recorded_error(p) == (i >= 4), "failure-records-an-error");
        if (i == 0) sa_reach("help");
        if (i >= 4) sa_reach("error");
    }
    sa_va_clean();
    sa_clean("no-leak");
}

// options declared before any parser belong to every parser
extern "C" void w_static() {
    sa_format_real(1);
    sa_assert(!Parser::sStaticOptions, "none-at-start");
    StringOption s("s", "str", Nothing(), "s");
    IntOption n("n", nullptr, Some(4), "n");
    Option<bool> b("b", nullptr, Nothing(), "b");
    EnableOption e("e", "enable", true, "e");
    ToggleOption t(nullptr, "toggle", Some(true), "t");
    StopOption q("q", nullptr, Nothing(), "q");
    RepeatOption<int> r("r", nullptr, "r");
    StringOption pos("file", "f");
    {
        bool help = sa_bool();
        Parser p0, p1("help");
        Parser& p = help ? p1 : p0;
        bool stop = sa_bool();
        bool ok = p.parsev("-s", "x", "--toggle", "-r", "7", "-b", "--no-enable", "y", "-n=12", stop ? "-q" : (const char*)nullptr, "-zz", (const char*)nullptr);
        sa_assert(ok, "accepts-exactly-the-valid");
        sa_assert(eq(s.value(), "x") && n.value() == 12 && b.value() && !e.value() && !t.value() && eq(pos.value(), "y"), "static-options");
        sa_assert(r.values().size() == 1 && r.values()[0] == 7 && q.value() == stop, "static-options");
        if (stop) sa_reach("stopped"); else sa_reach("whole");
    }
    sa_va_clean();
}
