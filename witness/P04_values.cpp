// Option values: arbitrary texts of up to three characters, the boundaries of the integer type, and every spelling of the booleans.
#include <errno.h>
#include "args.h"
static inline uint32_t any(uint32_t n) { uint32_t i = sa_u32(); sa_assume(i < n); return i; }
template <typename T> struct Raw : Option<T> {
    Raw(Parser& p, const Maybe<T>& d) : Option<T>(p, "x", nullptr, d, "x") {}
    bool take(const char* t) { return static_cast<IOption*>(this)->consumeValue(t); }
};
static inline void fill(char* t, size_t n) {
    for (size_t i = 0; i < n; i++) { uint8_t ch = sa_u8(); sa_assume(ch != 0); t[i] = (char)ch; }
    t[n] = 0;
}
// leading blanks, a sign, digits to the end
static inline bool decimal(const char* t, size_t n, int* out) {
    size_t i = 0;
    while (i < n && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) i++;
    bool neg = false;
    if (i < n && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-';
    if (i == n) return false;
    int v = 0;
    for (; i < n; i++) {
        if (t[i] < '0' || t[i] > '9') return false;
        v = v * 10 + (t[i] - '0');
    }
    *out = neg ? -v : v;
    return true;
}
static inline void int_case(size_t n) {
    {
        char* t = new char[n + 1];
        fill(t, n);
        Parser p;
        Raw<int> o(p, Some(77));
        bool earlier = sa_bool();
        if (earlier) sa_assert(o.take("5"), "integer-accepted");
        errno = sa_bool() ? ERANGE : 0;
        bool ok = o.take(t);
        int want = 0;
        bool is = decimal(t, n, &want);
        if (is) { sa_assert(ok, "integer-accepted"); sa_assert(o.value() == want, "integer-value"); sa_reach("accepted"); }
        else { sa_assert(!ok, "non-integer-refused"); sa_assert(o.value() == (earlier ? 5 : 77), "refused-leaves-value"); sa_reach("refused"); }
        delete[] t;
    }
    sa_clean("no-leak");
}
extern "C" void w_int_1() { int_case(1); }
extern "C" void w_int_2() { int_case(2); }
extern "C" void w_int_3() { int_case(3); }
extern "C" void w_int_bounds() {
    struct Row { const char* t; bool ok; int v; };
    static const Row k[] = {
        {"2147483647", true, 2147483647}, {"2147483648", false, 0}, {"-2147483648", true, -2147483647 - 1}, {"-2147483649", false, 0},
        {"4294967296", false, 0}, {"4294967301", false, 0}, {"-4294967291", false, 0}, {"9223372036854775807", false, 0}, {"9223372036854775808", false, 0},
        {"18446744073709551621", false, 0}, {"99999999999999999999", false, 0}, {"-99999999999999999999", false, 0}, {"", false, 0}, {"0x10", false, 0}, {"5 ", false, 0},
        {"007", true, 7}, {"-0", true, 0}, {"1e3", false, 0}, {"12.0", false, 0}, {"--5", false, 0}, {"1-", false, 0}};
    uint32_t n = sizeof(k) / sizeof(k[0]);
    uint32_t i = any(n);
    for (uint32_t j = 0; j < n; j++) {
        if (i != j) continue;
        Parser p;
        Raw<int> o(p, Some(77));
        errno = sa_bool() ? ERANGE : 0;
        bool ok = o.take(k[j].t);
        sa_assert(ok == k[j].ok, k[j].ok ? "integer-accepted" : "non-integer-refused");
        sa_assert(o.value() == (ok ? k[j].v : 77), "integer-value");
        if (ok) sa_reach("accepted"); else sa_reach("refused");
    }
}
static inline bool spells(const char* t, size_t n, const char* lower) {
    size_t i = 0;
    for (; i < n && lower[i]; i++) if ((t[i] | 32) != lower[i] || !((t[i] >= 'a' && t[i] <= 'z') || (t[i] >= 'A' && t[i] <= 'Z'))) return false;
    return i == n && !lower[i];
}
static inline void bool_case(char* t, size_t n) {
    {
        Parser p;
        Raw<bool> o(p, Nothing());
        bool earlier = sa_bool(), was = sa_bool();
        if (earlier) o.take(was ? "true" : "false");
        bool ok = o.take(t);
        bool yes = spells(t, n, "true"), no = spells(t, n, "false");
        sa_assert(ok == (yes || no), ok ? "non-boolean-refused" : "boolean-accepted");
        sa_assert(o.hasValue() == (ok || earlier), "refused-leaves-value");
        if (ok) { sa_assert(o.value() == yes, "boolean-value"); sa_reach("accepted"); }
        else { if (earlier) sa_assert(o.value() == was, "refused-leaves-value"); sa_reach("refused"); }
    }
    sa_clean("no-leak");
}
// every spelling with one character arbitrary
#define BOOL(name, word, n) extern "C" void w_bool_##name() { char t[8] = word; uint32_t i = any(n); for (uint32_t j = 0; j < n; j++) if (i == j) { uint8_t ch = sa_u8(); sa_assume(ch != 0); t[j] = (char)ch; } bool_case(t, n); }
BOOL(true, "true", 4) BOOL(TRUE, "TRUE", 4) BOOL(tRuE, "tRuE", 4) BOOL(false, "false", 5) BOOL(FALSE, "FALSE", 5)
extern "C" void w_bool_other() {
    char t[8];
    uint32_t i = any(6);
    const char* k = i == 0 ? "" : i == 1 ? "tru" : i == 2 ? "trues" : i == 3 ? "fals" : i == 4 ? "1" : "falsee";
    size_t n = strlen(k);
    for (size_t j = 0; j <= n; j++) t[j] = k[j];
    {
        Parser p;
        Raw<bool> o(p, Some(true));
        sa_assert(!o.take(t), "non-boolean-refused");
        sa_assert(o.value(), "refused-leaves-value");
        sa_assert(o.take(nullptr) && o.value(), "missing-value-is-true");
        Raw<bool> f(p, Some(false));
        sa_assert(f.take(nullptr) && f.value(), "missing-value-is-true");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
static inline void string_case(size_t n) {
    {
        char* t = new char[n + 1];
        fill(t, n);
        Parser p;
        Raw<std::string> o(p, Some(std::string("d")));
        bool earlier = sa_bool();
        if (earlier) o.take("ab");
        bool ok = o.take(t);
        sa_assert(ok == (n > 0), "string-accepted");
        if (ok) {
            sa_assert(o.value().size() == n, "string-value");
            for (size_t i = 0; i < n; i++) sa_assert(o.value()[i] == t[i], "string-value");
        } else sa_assert(eq(o.value(), earlier ? "ab" : "d"), "refused-leaves-value");
        delete[] t;
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_string_0() { string_case(0); }
extern "C" void w_string_1() { string_case(1); }
extern "C" void w_string_3() { string_case(3); }
// the same through a parse: defaults, repeated options, and the value kept apart from the default
extern "C" void w_parse() {
    sa_format_real(1);
    {
        Parser p;
        IntOption n(p, "n", nullptr, Some(4), "n");
        RepeatOption<int> r(p, "r", nullptr, "r");
        uint32_t i = any(4);
        bool ok = i == 0 ? p.parsev("-n", "-12", "-r=1", "-r", "2", (const char*)nullptr) : i == 1 ? p.parsev("-r=1", "-r=1x", (const char*)nullptr)
                : i == 2 ? p.parsev("-n=", (const char*)nullptr) : p.parsev("-r", "1", "-n=5 ", (const char*)nullptr);
        sa_assert(ok == (i == 0), "integer-accepted");
        sa_assert(n.value() == (i == 0 ? -12 : 4), "refused-leaves-value");
        sa_assert(r.values().size() == (i == 0 ? 2 : i == 2 ? 0 : 1), "refused-leaves-value");
        if (i != 2) sa_assert(r.values()[0] == 1, "integer-value");
        if (i == 0) sa_assert(r.values()[1] == 2, "integer-value");
        sa_assert(n.maybeValue().isValid() && n.maybeValue().get() == n.value(), "integer-value");
        sa_reach("end");
    }
    sa_va_clean();
    sa_clean("no-leak");
}
// long texts
template <size_t N> static inline void long_string() {
    {
        char t[N + 1]; uint8_t c = sa_u8(); sa_assume(c != 0);
        for (size_t i = 0; i < N; i++) t[i] = (char)(33 + i * 31 % 94);
        t[N / 2] = (char)c; t[N] = 0;
        Parser p;
        Raw<std::string> o(p, Nothing());
        sa_assert(o.take(t), "text-accepted");
        sa_assert(o.value().size() == N && eq(o.value(), t), "text-value");
        Raw<bool> b(p, Nothing());
        sa_assert(!b.take(t) && !b.hasValue(), "non-boolean-refused");
        Raw<int> n(p, Nothing());
        sa_assert(!n.take(t) && !n.hasValue(), "non-integer-refused");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_long_16() { long_string<16>(); }
extern "C" void w_long_80() { long_string<80>(); }
extern "C" void w_long_300() { long_string<300>(); }
extern "C" void w_long_number() {
    {
        Parser p;
        Raw<int> o(p, Nothing());
        sa_assert(o.take("000000000000000000000000000000000000000000000000000000000000000000000012") && o.value() == 12, "integer-accepted");
        sa_assert(o.take("-00000000000000000000000000000000000000002147483648") && o.value() == -2147483647 - 1, "integer-accepted");
        sa_assert(!o.take("123456789012345678901234567890123456789012345678901234567890"), "non-integer-refused");
        sa_assert(!o.take("000000000000000000000000000000000000000000000000000000000000000000000012x"), "non-integer-refused");
        sa_assert(o.value() == -2147483647 - 1, "refused-leaves-value");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
