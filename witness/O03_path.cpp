// Path formatting: every text of up to three characters, every buffer size up to four, formatter failure.
#include <amtl/os/am-path.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_format(size_t max, const char* fmt); void sa_va_clean(); size_t sa_text_len(); uint8_t sa_text_char(size_t i); }
static const char kFmt[] = "%s/%s";
#define FAILED sa_event("format_failed")
static inline size_t viaVa(char* buf, size_t max, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    size_t r = path::FormatVa(buf, max, fmt, ap);
    va_end(ap);
    return r;
}
static void path_case(size_t max) {
    sa_format(3, kFmt);
    char* buf = new char[max + 1];
    buf[max] = '\\';
    size_t r = sa_bool() ? path::Format(buf, max, kFmt, "a", "b") : viaVa(buf, max, kFmt, 1, 2);
    sa_assert(r < max, "bounded");
    sa_assert(buf[max] == '\\', "nothing-beyond-the-text");
    sa_assert(buf[r] == 0, "terminated");
    sa_assert(sa_event("format") == 1, "formats-once");
    if (FAILED) { sa_assert(r == 0, "returns-stored-length"); sa_reach("failed"); }
    else {
        size_t len = sa_text_len();
        sa_assert(r == (len < max ? len : max - 1), "returns-stored-length");
        for (size_t i = 0; i < r; i++) {
            uint8_t c = sa_text_char(i);
            if (c == '\\') { sa_assert(buf[i] == '/', "foreign-separators-replaced"); sa_reach("replaced"); }
            else sa_assert((uint8_t)buf[i] == c, "nothing-else-replaced");
        }
    }
    delete[] buf;
    sa_va_clean();
    sa_reach("end");
}
extern "C" void w_path_2() { path_case(2); }
extern "C" void w_path_3() { path_case(3); }
extern "C" void w_path_4() { path_case(4); }
extern "C" void w_path_1() {
    sa_format(3, kFmt);
    char buf[2] = {'x', '\\'};
    sa_assert(path::Format(buf, 1, kFmt, "a", "b") == 0 && buf[0] == 0 && buf[1] == '\\', "bounded");
    sa_va_clean();
    sa_reach("end");
}
extern "C" void w_path_none() {
    sa_format(3, kFmt);
    char buf[1] = {'\\'};
    sa_assert(path::Format(buf, 0, kFmt, "a", "b") == 0 && buf[0] == '\\', "nothing-beyond-the-text");
    sa_assert(path::Format(nullptr, 0, kFmt, "a", "b") == 0, "returns-stored-length");
    sa_va_clean();
    sa_reach("end");
}
