// Split and Join: every text of up to four arbitrary characters, every separator of one or two.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;

static void fill(char* p, size_t len) {
    for (size_t i = 0; i < len; i++) { uint8_t c = sa_u8(); sa_assume(c != 0); p[i] = (char)c; }
    p[len] = 0;
}
static bool contains(const char* s, size_t n, const char* sep, size_t m) {
    for (size_t i = 0; i + m <= n; i++) {
        size_t j = 0;
        while (j < m && s[i + j] == sep[j]) j++;
        if (j == m) return true;
    }
    return false;
}
static void split_case(size_t n, size_t m, const char* fixed = nullptr) {
    {
        char t[6], sep[3];
        fill(t, n);
        if (fixed) { sep[0] = fixed[0]; sep[1] = fixed[1]; sep[2] = 0; }
        else fill(sep, m);
        std::vector<std::string> v = sa_bool() ? Split(t, sep) : Split(std::string(t, n), sep);
        size_t total = 0;
        for (size_t i = 0; i < v.size(); i++) {
            total += v[i].size();
            sa_assert(!contains(v[i].data(), v[i].size(), sep, m), "split-at-every-separator");
        }
        if (n == 0) sa_assert(v.empty(), "empty-text-has-no-pieces");
        else sa_assert(total + m * (v.size() - 1) == n, "split-loses-nothing");
        std::string j = Join(v, sep);
        sa_assert(j.size() == n, "join-inverts-split");
        for (size_t i = 0; i < n; i++) sa_assert(j[i] == t[i], "join-inverts-split");
        sa_assert(j.c_str()[n] == 0, "join-inverts-split");
        if (v.size() > 1) sa_reach("several"); else sa_reach("one");
    }
    sa_clean("no-leak");
}
extern "C" void w_split_0() {
    char t[1] = {0}, sep[3];
    fill(sep, sa_bool() ? 1 : 2);
    { sa_assert(Split(t, sep).empty(), "empty-text-has-no-pieces"); sa_assert(Split(std::string(), sep).empty(), "empty-text-has-no-pieces"); }
    sa_clean("no-leak");
    sa_reach("end");
}
extern "C" void w_split_1_1() { split_case(1, 1); }
extern "C" void w_split_2_1() { split_case(2, 1); }
extern "C" void w_split_3_1() { split_case(3, 1); }
extern "C" void w_split_2_2() { split_case(2, 2); }
extern "C" void w_split_3_2() { split_case(3, 2); }
extern "C" void w_split_4_2() { split_case(4, 2); }
extern "C" void w_dash_4() { split_case(4, 2, "--"); }
extern "C" void w_comma_4() { split_case(4, 2, ", "); }
extern "C" void w_split_shorter() {
    char t[2], sep[3];
    fill(t, 1); fill(sep, 2);
    {
        auto v = Split(t, sep);
        sa_assert(v.size() == 1 && v[0].size() == 1 && v[0][0] == t[0], "split-loses-nothing");
        sa_reach("end");
    }
    sa_clean("no-leak");
}

// pieces may hold any character
static std::string any(size_t len) {
    char p[4];
    for (size_t i = 0; i < len; i++) p[i] = (char)sa_u8();
    return std::string(p, len);
}
static size_t len2() { return sa_bool() ? 0 : sa_bool() ? 1 : 2; }
static void join_case(size_t pieces) {
    {
        std::vector<std::string> v;
        for (size_t i = 0; i < pieces; i++) v.push_back(any(len2()));
        char sep[3];
        size_t m = len2();
        fill(sep, m);
        std::string j = Join(v, sep);
        size_t at = 0;
        for (size_t i = 0; i < pieces; i++) {
            for (size_t k = 0; k < v[i].size(); k++, at++) { sa_assert(at < j.size(), "join-combined-length"); sa_assert(j[at] == v[i][k], "join-in-order"); }
            if (i + 1 < pieces)
                for (size_t k = 0; k < m; k++, at++) { sa_assert(at < j.size(), "join-combined-length"); sa_assert(j[at] == sep[k], "join-in-order"); }
        }
        sa_assert(at == j.size(), "join-combined-length");
        sa_reach("end");
    }
    sa_clean("no-leak");
}
extern "C" void w_join_0() { join_case(0); }
extern "C" void w_join_1() { join_case(1); }
extern "C" void w_join_2() { join_case(2); }
extern "C" void w_join_3() { join_case(3); }
