// Path formatting of long texts: every foreign separator replaced, wherever it stands; the text cut at the end of the buffer.
#include <amtl/os/am-path.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_format_long(size_t len, const char* fmt); void sa_va_clean(); uint8_t sa_text_char(size_t i); }
static const char kFmt[] = "%s/%s";
static inline void path_of(size_t len, size_t max) {
    sa_format_long(len, kFmt);
    char* buf = new char[max + 1];
    buf[max] = '\\';
    size_t r = path::Format(buf, max, kFmt, "a", "b");
    sa_assert(r == (len < max ? len : max - 1), "returns-stored-length");
    sa_assert(buf[r] == 0 && buf[max] == '\\', "terminated");
    size_t found = 0;
    for (size_t i = 0; i < r; i++) {
        uint8_t c = sa_text_char(i);
        if (c == '\\') { found++; sa_assert(buf[i] == '/', "foreign-separators-replaced"); }
        else sa_assert((uint8_t)buf[i] == c, "nothing-else-replaced");
    }
    if (found > 1) sa_reach("replaced");
    delete[] buf;
    sa_va_clean(); sa_clean("no-leak");
}
#define L(n) extern "C" void w_fits_##n() { path_of(n, n + 1); } extern "C" void w_cut_##n() { path_of(n, n); } extern "C" void w_roomy_##n() { path_of(n, n + 900); }
L(200) L(255) L(256) L(260) L(511) L(1024) L(1500)
