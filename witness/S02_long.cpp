// Formatted output of long texts: whole when there is room, cut exactly at the end of the buffer, never failing.
#include <amtl/am-string.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_format_long(size_t len, const char* fmt); void sa_va_clean(); uint8_t sa_text_char(size_t i); }
static const char kFmt[] = "%s";
static inline void same(const char* p, size_t n) { for (size_t i = 0; i < n; i++) sa_assert((uint8_t)p[i] == sa_text_char(i), "text-as-formatted"); }
static inline void safe(size_t len, size_t max) {
    sa_format_long(len, kFmt);
    char* buf = new char[max];
    size_t r = SafeSprintf(buf, max, kFmt, "x");
    sa_assert(r == (len < max ? len : max - 1), "returns-stored-length");
    sa_assert(buf[r] == 0, "terminated");
    same(buf, r);
    delete[] buf;
    sa_va_clean(); sa_clean("no-leak"); sa_reach("end");
}
static inline void whole(size_t len) {
    sa_format_long(len, kFmt);
    { std::unique_ptr<char[]> p = Sprintf(kFmt, "x");
      sa_assert(!!p, "a-text-is-returned");
      if (p) { same(p.get(), len); sa_assert(p[len] == 0, "terminated"); } }
    sa_va_clean(); sa_clean("no-leak"); sa_reach("end");
}
static inline void str(size_t len) {
    sa_format_long(len, kFmt);
    { std::string s = StringPrintf(kFmt, "x");
      sa_assert(s.size() == len, "exactly-the-text");
      same(s.data(), len < s.size() ? len : s.size()); }
    sa_va_clean(); sa_clean("no-leak"); sa_reach("end");
}
#define L(n) extern "C" void w_whole_##n() { whole(n); } extern "C" void w_str_##n() { str(n); } \
    extern "C" void w_fits_##n() { safe(n, n + 1); } extern "C" void w_cut_##n() { safe(n, n); } extern "C" void w_roomy_##n() { safe(n, n + 700); } extern "C" void w_short_##n() { safe(n, n / 2 + 1); }
L(15) L(16) L(31) L(63) L(64) L(127) L(128) L(255) L(256) L(511) L(1023) L(1500)
