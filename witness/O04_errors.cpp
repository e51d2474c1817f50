// System error text: written to the buffer by the C library or not, every message of up to three characters.
#include <amtl/os/am-system-errors.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_sys_long(size_t len); size_t sa_sys_len(); uint8_t sa_sys_char(size_t); int sa_code(); void sa_format_real(int never_fails); void sa_va_clean(); }
static void text(char* buf, size_t max) {
    size_t n = sa_sys_len();
    if (sa_event("format_failed")) { sa_assert(buf[0] == 0, "text-in-buffer"); return; }
    if (n > max - 1) n = max - 1;
    for (size_t i = 0; i < n; i++) sa_assert((uint8_t)buf[i] == sa_sys_char(i), "text-in-buffer");
    sa_assert(buf[n] == 0, "terminated");
    if (sa_event("written")) sa_reach("written"); else sa_reach("copied");
}
static void error_case(size_t max) {
    sa_format_real(0);
    char* buf = new char[max + 1];
    buf[max] = 'z';
    int e = sa_int();
    if (sa_bool()) {
        FormatSystemErrorCode(e, buf, max);
        sa_assert(sa_code() == e, "text-of-the-given-error");
    } else {
        errno = e;
        FormatSystemError(buf, max);
        sa_assert(sa_code() == e, "text-of-the-current-error");
    }
    sa_assert(sa_event("strerror") == 1, "one-system-call");
    sa_assert(buf[max] == 'z', "bounded");
    if (max) text(buf, max);
    delete[] buf;
    sa_va_clean();
    sa_reach("end");
}
extern "C" void w_error_0() { error_case(0); }
extern "C" void w_error_1() { error_case(1); }
extern "C" void w_error_2() { error_case(2); }
extern "C" void w_error_4() { error_case(4); }
// long texts, into buffers that hold them or cut them
#define LONG(n) extern "C" void w_longfits_##n() { sa_sys_long(n); error_case(n + 1); } extern "C" void w_longcut_##n() { sa_sys_long(n); error_case(n); } \
    extern "C" void w_longroom_##n() { sa_sys_long(n); error_case(n + 600); } extern "C" void w_longshort_##n() { sa_sys_long(n); error_case(n / 2); }
LONG(63) LONG(255) LONG(600)
