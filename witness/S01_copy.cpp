// Bounded copies: every text of up to three characters in a block of exactly its size, every destination size, every limit.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
static const size_t MAXS = 3;

// a block of exactly |len| + 1 bytes: |len| arbitrary characters and the terminator
static char* text(size_t len) {
    char* p = new char[len + 1];
    for (size_t i = 0; i < len; i++) { uint8_t c = sa_u8(); sa_assume(c != 0); p[i] = (char)c; }
    p[len] = 0;
    return p;
}
// exactly |len| characters, no terminator
static char* piece(size_t len) {
    char* p = new char[len ? len : 1];
    for (size_t i = 0; i < len; i++) { uint8_t c = sa_u8(); sa_assume(c != 0); p[i] = (char)c; }
    return p;
}
static size_t min2(size_t a, size_t b) { return a < b ? a : b; }
static void copied(const char* d, const char* s, size_t n, size_t r) {
    sa_assert(r == n, "returns-length");
    sa_assert(d[n] == 0, "terminated");
    for (size_t i = 0; i < n; i++) sa_assert(d[i] == s[i], "longest-prefix");
}

static void strcpy_case(size_t len, size_t max) {
    char* s = text(len);
    char* d = new char[max];
    size_t r = SafeStrcpy(d, max, s);
    copied(d, s, min2(len, max - 1), r);
    delete[] d; delete[] s;
    sa_reach("end");
}
#define LENS(F, M) F(0, M); F(1, M); F(2, M); F(3, M);
#define CHOOSE(F, M) do { if (sa_bool()) { if (sa_bool()) F(0, M); else F(1, M); } else { if (sa_bool()) F(2, M); else F(3, M); } } while (0)
extern "C" void w_copy_1() { CHOOSE(strcpy_case, 1); }
extern "C" void w_copy_2() { CHOOSE(strcpy_case, 2); }
extern "C" void w_copy_3() { CHOOSE(strcpy_case, 3); }
extern "C" void w_copy_4() { CHOOSE(strcpy_case, 4); }
extern "C" void w_copy_5() { CHOOSE(strcpy_case, 5); }
extern "C" void w_copy_none() {
    char* s = text(2);
    char d[1] = {'x'};
    sa_assert(SafeStrcpy(d, 0, s) == 0, "returns-length");
    sa_assert(d[0] == 'x', "nothing-written");
    sa_assert(SafeStrcpy(nullptr, 0, s) == 0, "returns-length");
    sa_assert(SafeStrcpy(nullptr, 5, s) == 0, "returns-length");
    delete[] s;
    sa_reach("end");
}

static void strcpyn_case(size_t len, size_t max, size_t n) {
    char* s = text(len);
    char* d = new char[max];
    size_t r = SafeStrcpyN(d, max, s, n);
    copied(d, s, min2(min2(len, n), max - 1), r);
    delete[] d; delete[] s;
    sa_reach("end");
}
static void piece_case(size_t n, size_t max) {
    char* s = piece(n);
    char* d = new char[max];
    size_t r = SafeStrcpyN(d, max, s, n);
    copied(d, s, min2(n, max - 1), r);
    delete[] d; delete[] s;
    sa_reach("unterminated");
}
static void strcpyn_lim(size_t len, size_t max) {
    size_t n = sa_u64();
    strcpyn_case(len, max, n);
}
extern "C" void w_limit_1() { CHOOSE(strcpyn_lim, 1); }
extern "C" void w_limit_2() { CHOOSE(strcpyn_lim, 2); }
extern "C" void w_limit_3() { CHOOSE(strcpyn_lim, 3); }
extern "C" void w_limit_4() { CHOOSE(strcpyn_lim, 4); }
extern "C" void w_limit_5() { CHOOSE(strcpyn_lim, 5); }
extern "C" void w_piece_1() { CHOOSE(piece_case, 1); }
extern "C" void w_piece_2() { CHOOSE(piece_case, 2); }
extern "C" void w_piece_3() { CHOOSE(piece_case, 3); }
extern "C" void w_piece_4() { CHOOSE(piece_case, 4); }
extern "C" void w_piece_5() { CHOOSE(piece_case, 5); }
extern "C" void w_limit_none() {
    char* s = text(2);
    char d[1] = {'x'};
    size_t n = sa_u64();
    sa_assert(SafeStrcpyN(d, 0, s, n) == 0, "returns-length");
    sa_assert(d[0] == 'x', "nothing-written");
    sa_assert(SafeStrcpyN(nullptr, 3, s, n) == 0, "returns-length");
    delete[] s;
    sa_reach("end");
}

// appending to every text of up to two characters
static void strcat_case(size_t len, size_t have, size_t max) {
    char* s = text(len);
    char* d = new char[max];
    char* was = text(have);
    for (size_t i = 0; i <= have; i++) d[i] = was[i];
    size_t r = SafeStrcat(d, max, s);
    size_t n = min2(len, max - 1 - have);
    sa_assert(r == have + n, "returns-length");
    for (size_t i = 0; i < have; i++) sa_assert(d[i] == was[i], "keeps-text");
    for (size_t i = 0; i < n; i++) sa_assert(d[have + i] == s[i], "longest-prefix");
    sa_assert(d[have + n] == 0, "terminated");
    delete[] d; delete[] s; delete[] was;
    sa_reach("end");
}
static void cat_0(size_t len, size_t max) { strcat_case(len, 0, max); }
static void cat_1(size_t len, size_t max) { strcat_case(len, 1, max); }
static void cat_2(size_t len, size_t max) { strcat_case(len, 2, max); }
extern "C" void w_cat_empty_1() { CHOOSE(cat_0, 1); }
extern "C" void w_cat_empty_2() { CHOOSE(cat_0, 2); }
extern "C" void w_cat_empty_3() { CHOOSE(cat_0, 3); }
extern "C" void w_cat_empty_5() { CHOOSE(cat_0, 5); }
extern "C" void w_cat_one_2() { CHOOSE(cat_1, 2); }
extern "C" void w_cat_one_3() { CHOOSE(cat_1, 3); }
extern "C" void w_cat_one_4() { CHOOSE(cat_1, 4); }
extern "C" void w_cat_one_6() { CHOOSE(cat_1, 6); }
extern "C" void w_cat_two_3() { CHOOSE(cat_2, 3); }
extern "C" void w_cat_two_4() { CHOOSE(cat_2, 4); }
extern "C" void w_cat_two_6() { CHOOSE(cat_2, 6); }
// the text already reaches past the stated size: nothing is appended
extern "C" void w_cat_full() {
    char* s = text(2);
    char* d = text(3);
    char a = d[0], b = d[1], c = d[2];
    size_t max = sa_u64();
    sa_assume(max <= 3);
    sa_assert(SafeStrcat(d, max, s) == 3, "returns-length");
    sa_assert(d[0] == a && d[1] == b && d[2] == c && d[3] == 0, "keeps-text");
    delete[] d; delete[] s;
    sa_reach("end");
}
