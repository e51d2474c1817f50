// Split and Join of long texts: pieces of many lengths, many pieces, separators of many lengths, near-separators inside the pieces.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
static inline size_t len_of(int kind, size_t i) { return kind == 0 ? i % 7 : kind == 1 ? i * 13 % 50 : kind == 2 ? 16 : i == 5 ? 300 : 2; }
// a character that no separator begins with
static inline char char_of(size_t i, size_t j) { return (char)('a' + (i * 5 + j * 3) % 20); }
static inline size_t fill(char* p, const char* sep, size_t m, size_t pieces, int kind, char any) {
    size_t n = 0;
    for (size_t i = 0; i < pieces; i++) {
        if (i) for (size_t k = 0; k < m; k++) p[n++] = sep[k];
        size_t l = len_of(kind, i);
        for (size_t j = 0; j < l; j++) p[n++] = i == pieces / 2 && j + 1 == l ? any : char_of(i, j);
    }
    p[n] = 0;
    return n;
}
static inline bool piece_is(const std::string& s, size_t i, size_t pieces, int kind, char any) {
    size_t l = len_of(kind, i);
    if (s.size() != l) return false;
    for (size_t j = 0; j < l; j++) if (s[j] != (i == pieces / 2 && j + 1 == l ? any : char_of(i, j))) return false;
    return true;
}
static inline void both(const char* sep, size_t m, size_t pieces, int kind) {
    {
        static char text[4000];
        char any = (char)sa_u8(); sa_assume(any >= 'a' && any <= 'z');
        size_t n = fill(text, sep, m, pieces, kind, any);
        bool last_empty = len_of(kind, pieces - 1) == 0;
        std::vector<std::string> v = sa_bool() ? Split(text, sep) : Split(std::string(text, n), sep);
        sa_assert(v.size() == pieces, "split-at-every-separator");
        for (size_t i = 0; i < pieces && i < v.size(); i++) sa_assert(piece_is(v[i], i, pieces, kind, any), "split-loses-nothing");
        std::string j = Join(v, sep);
        sa_assert(j.size() == n, "join-inverts-split");
        bool same = true;
        for (size_t i = 0; i < n && i < j.size(); i++) if (j[i] != text[i]) same = false;
        sa_assert(same, "join-inverts-split");
        (void)last_empty;
    }
    sa_clean("no-leak"); sa_reach("end");
}
#define B(name, sep, pieces, kind) extern "C" void w_##name() { both(sep, sizeof(sep) - 1, pieces, kind); }
B(many_short, ",", 90, 0)
B(many_long, ", ", 40, 1)
B(just_inline, "::", 40, 2)
B(one_long, "|", 9, 3)
B(wide_separator, "<-- the next piece -->", 20, 1)
B(like_pieces, "-/-", 33, 2)
