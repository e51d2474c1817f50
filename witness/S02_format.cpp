// Formatted output: every text of up to four arbitrary characters, every buffer size, and formatting failing at either attempt.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_format(size_t max, const char* fmt); void sa_va_clean(); size_t sa_text_len(); uint8_t sa_text_char(size_t i); }
static const char kFmt[] = "%s";
#define FAILED sa_event("format_failed")
static inline void same(const char* p, size_t n) { for (size_t i = 0; i < n; i++) sa_assert((uint8_t)p[i] == sa_text_char(i), "text-as-formatted"); }

static inline void bounded(size_t max, char* buf, size_t r) {
    sa_assert(r < max, "bounded");
    sa_assert(buf[r] == 0, "terminated");
    if (FAILED) { sa_assert(r == 0, "failure-gives-empty-text"); sa_reach("failed"); return; }
    size_t len = sa_text_len();
    sa_assert(r == (len < max ? len : max - 1), "returns-stored-length");
    same(buf, r);
    if (len >= max) sa_reach("cut"); else sa_reach("whole");
}
static inline size_t viaVa(char* buf, size_t max, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    size_t r = SafeVsprintf(buf, max, fmt, ap);
    va_end(ap);
    return r;
}
static void safe_case(size_t max) {
    sa_format(4, kFmt);
    char* buf = new char[max];
    size_t r = sa_bool() ? SafeSprintf(buf, max, kFmt, "x") : viaVa(buf, max, kFmt, 1);
    bounded(max, buf, r);
    sa_assert(sa_event("format") == 1, "formats-once");
    delete[] buf;
    sa_va_clean();
}
extern "C" void w_safe_1() { safe_case(1); }
extern "C" void w_safe_2() { safe_case(2); }
extern "C" void w_safe_3() { safe_case(3); }
extern "C" void w_safe_4() { safe_case(4); }
extern "C" void w_safe_none() {
    sa_format(4, kFmt);
    char d[1] = {'x'};
    sa_assert(SafeSprintf(d, 0, kFmt, "x") == 0 && viaVa(d, 0, kFmt, 1) == 0, "returns-stored-length");
    sa_assert(d[0] == 'x', "nothing-written");
    sa_assert(SafeSprintf(nullptr, 0, kFmt, "x") == 0, "returns-stored-length");
    sa_va_clean();
    sa_reach("end");
}
extern "C" void w_safe_any() {
    sa_format(0, kFmt);
    size_t max = sa_size(); sa_assume(max > 0);
    char* buf = (char*)sa_block(max, 0, 1);
    size_t r = SafeSprintf(buf, max, kFmt, "x");
    sa_assert(r < max, "bounded");
    if (FAILED) { sa_assert(r == 0, "failure-gives-empty-text"); sa_reach("failed"); }
    else if (sa_text_len() >= max) { sa_assert(r == max - 1, "returns-stored-length"); sa_reach("cut"); }
    else { sa_assert(r == sa_text_len(), "returns-stored-length"); sa_reach("whole"); }
    sa_va_clean();
}

static inline std::unique_ptr<char[]> argsVa(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    auto r = SprintfArgs(fmt, ap);
    va_end(ap);
    return r;
}
static inline std::string stringVa(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    auto r = StringPrintfVa(fmt, ap);
    va_end(ap);
    return r;
}
extern "C" void w_alloc() {
    sa_format(4, kFmt);
    {
        std::unique_ptr<char[]> r = sa_bool() ? Sprintf(kFmt, "x") : argsVa(kFmt, 1);
        if (FAILED) { sa_assert(!r, "failure-gives-nothing"); sa_reach("failed"); }
        else {
            sa_assert(!!r, "text-as-formatted");
            size_t len = sa_text_len();
            same(r.get(), len);
            sa_assert(r[len] == 0, "terminated");
            if (len == 0) sa_reach("empty"); else sa_reach("text");
        }
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_alloc_any() {
    sa_format(0, kFmt);
    {
        std::unique_ptr<char[]> r = Sprintf(kFmt, "x");
        if (FAILED) { sa_assert(!r, "failure-gives-nothing"); sa_reach("failed"); }
        else { sa_assert(!!r, "text-as-formatted"); sa_reach("text"); }
    }
    sa_va_clean();
    sa_clean("no-leak");
}
extern "C" void w_string() {
    sa_format(4, kFmt);
    {
        std::string r = sa_bool() ? StringPrintf(kFmt, "x") : stringVa(kFmt, 1);
        if (FAILED) { sa_assert(r.empty(), "failure-gives-empty-text"); sa_reach("failed"); }
        else {
            size_t len = sa_text_len();
            sa_assert(r.size() == len, "returns-stored-length");
            same(r.data(), len);
            sa_assert(r.c_str()[len] == 0, "terminated");
            if (len == 0) sa_reach("empty"); else sa_reach("text");
        }
    }
    sa_va_clean();
    sa_clean("no-leak");
}
