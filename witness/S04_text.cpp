// Case conversion, prefix and suffix tests: every text of up to three characters.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;

static void fill(char* p, size_t len) {
    for (size_t i = 0; i < len; i++) { uint8_t c = sa_u8(); sa_assume(c != 0); p[i] = (char)c; }
    p[len] = 0;
}
static void case_case(size_t n) {
    {
        char t[4];
        fill(t, n);
        std::string u = Uppercase(t), l = Lowercase(t);
        sa_assert(u.size() == n && l.size() == n, "keeps-length");
        for (size_t i = 0; i < n; i++) {
            unsigned char c = (unsigned char)t[i], x = (unsigned char)u[i], y = (unsigned char)l[i];
            sa_assert(x == (c >= 'a' && c <= 'z' ? c - 32 : c), "converts-letters-only");
            sa_assert(y == (c >= 'A' && c <= 'Z' ? c + 32 : c), "converts-letters-only");
        }
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_case_0() { case_case(0); }
extern "C" void w_case_1() { case_case(1); }
extern "C" void w_case_2() { case_case(2); }

static bool prefix(const char* s, size_t n, const char* p, size_t m) {
    if (m > n) return false;
    for (size_t i = 0; i < m; i++) if (s[i] != p[i]) return false;
    return true;
}
static void starts_case(size_t n, size_t m) {
    {
        char* t = new char[n + 1]; char* p = new char[m + 1];
        fill(t, n); fill(p, m);
        bool r = sa_bool() ? StartsWith(t, p) : StartsWith(std::string(t, n), p);
        sa_assert(r == prefix(t, n, p, m), "prefix-test-is-exact");
        if (r) sa_reach("yes");
        delete[] t; delete[] p;
    }
    sa_clean("no-leak");
}
extern "C" void w_starts_0_0() { starts_case(0, 0); }
extern "C" void w_starts_2_0() { starts_case(2, 0); }
extern "C" void w_starts_1_1() { starts_case(1, 1); }
extern "C" void w_starts_2_1() { starts_case(2, 1); }
extern "C" void w_starts_3_2() { starts_case(3, 2); }
extern "C" void w_starts_2_2() { starts_case(2, 2); }
extern "C" void w_starts_shorter() {
    size_t n = sa_bool() ? 1 : 0;
    char* t = new char[n + 1]; char* p = new char[3];
    fill(t, n); fill(p, 2);
    sa_assert(!StartsWith(t, p), "prefix-test-is-exact");
    { sa_assert(!StartsWith(std::string(t), p), "prefix-test-is-exact"); }
    delete[] t; delete[] p;
    sa_clean("no-leak");
    sa_reach("end");
}
static std::string any(char* p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = (char)sa_u8();
    return std::string(p, n);
}
static void ends_case(size_t n, size_t m) {
    {
        char t[4], p[4];
        std::string a = any(t, n), b = any(p, m);
        bool r = EndsWith(a, b);
        sa_assert(r == (m <= n && prefix(t + (n - m), m, p, m)), "suffix-test-is-exact");
        if (r) sa_reach("yes");
    }
    sa_clean("no-leak");
}
extern "C" void w_ends_0_0() { ends_case(0, 0); }
extern "C" void w_ends_2_0() { ends_case(2, 0); }
extern "C" void w_ends_1_1() { ends_case(1, 1); }
extern "C" void w_ends_2_1() { ends_case(2, 1); }
extern "C" void w_ends_3_2() { ends_case(3, 2); }
extern "C" void w_ends_2_2() { ends_case(2, 2); }
extern "C" void w_ends_shorter() {
    {
        char t[4], p[4];
        std::string a = any(t, sa_bool() ? 1 : 0), b = any(p, 2);
        sa_assert(!EndsWith(a, b), "suffix-test-is-exact");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
// ignoring case
static void cmp_case(size_t n) {
    char* t = new char[n + 1]; char* p = new char[n + 1];
    fill(t, n); fill(p, n);
    bool same = true;
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)t[i], d = (unsigned char)p[i];
        if (c >= 'A' && c <= 'Z') c += 32;
        if (d >= 'A' && d <= 'Z') d += 32;
        if (c != d) same = false;
    }
    sa_assert((StrCaseCmp(t, p) == 0) == same, "equal-ignoring-case");
    sa_assert((StrCaseCmp(p, t) == 0) == same, "equal-ignoring-case");
    if (same) sa_reach("same");
    delete[] t; delete[] p;
}
extern "C" void w_cmp_0() { cmp_case(0); }
extern "C" void w_cmp_1() { cmp_case(1); }
extern "C" void w_cmp_2() { cmp_case(2); }
