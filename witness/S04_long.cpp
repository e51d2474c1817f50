// Case conversion, prefix and suffix tests on long texts.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
// every byte but zero, over and over
static inline unsigned char byte_of(size_t i) { return (unsigned char)(1 + i * 7 % 255); }
static inline void fill(char* p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (char)byte_of(i); p[n] = 0; }
template <size_t N> static inline void text() {
    {
        char t[N + 1]; fill(t, N);
        std::string u = Uppercase(t), l = Lowercase(t);
        sa_assert(u.size() == N && l.size() == N, "keeps-length");
        for (size_t i = 0; i < N; i++) {
            unsigned char c = byte_of(i), x = (unsigned char)u[i], y = (unsigned char)l[i];
            sa_assert(x == (c >= 'a' && c <= 'z' ? c - 32 : c), "converts-letters-only");
            sa_assert(y == (c >= 'A' && c <= 'Z' ? c + 32 : c), "converts-letters-only");
        }
        char a[N + 1], b[N + 1];
        for (size_t i = 0; i < N; i++) { a[i] = (char)('a' + i % 26); b[i] = (char)('A' + i % 26); }
        a[N] = b[N] = 0;
        std::string au = Uppercase(a), bl = Lowercase(b);
        sa_assert(au.size() == N && bl.size() == N, "keeps-length");
        for (size_t i = 0; i < N; i++) sa_assert(au[i] == b[i] && bl[i] == a[i], "converts-letters-only");
        std::string s(t, N);
        char c = (char)sa_u8(); sa_assume(c != 0);
        char p[N + 2];
        // whole, cut at the front, cut at the end, longer, and different in one character
        fill(p, N);
        sa_assert(StartsWith(t, p) && StartsWith(s, p) && EndsWith(s, std::string(p, N)), "whole-text-is-both");
        p[N - 1] = 0;
        sa_assert(StartsWith(t, p) && StartsWith(s, p), "prefix-test-is-exact");
        sa_assert(!StartsWith(p, t) && !EndsWith(std::string(p, N - 1), s), "prefix-test-is-exact");
        sa_assert(EndsWith(s, std::string(t + 1, N - 1)), "suffix-test-is-exact");
        fill(p, N); p[N] = 'x'; p[N + 1] = 0;
        sa_assert(!StartsWith(t, p) && !StartsWith(s, p) && !EndsWith(s, std::string(p, N + 1)), "prefix-test-is-exact");
        fill(p, N); p[N - 1] = c;
        bool same = (unsigned char)c == byte_of(N - 1);
        sa_assert(StartsWith(t, p) == same && StartsWith(s, p) == same, "prefix-test-is-exact");
        sa_assert(EndsWith(s, std::string(p, N)) == same, "suffix-test-is-exact");
        fill(p, N); p[N / 2] = c;
        same = (unsigned char)c == byte_of(N / 2);
        sa_assert(StartsWith(t, p) == same && StartsWith(s, p) == same, "prefix-test-is-exact");
        sa_assert(EndsWith(s, std::string(p, N)) == same, "suffix-test-is-exact");
        fill(p, N); p[0] = c;
        same = (unsigned char)c == byte_of(0);
        sa_assert(EndsWith(s, std::string(p, N)) == same, "suffix-test-is-exact");
    }
    sa_clean("no-leak"); sa_reach("end");
}
#define T(n) extern "C" void w_text_##n() { text<n>(); }
T(4) T(7) T(8) T(9) T(15) T(16) T(17) T(31) T(32) T(33) T(63) T(64) T(65) T(128) T(256)
