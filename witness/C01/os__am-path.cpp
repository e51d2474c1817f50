#include <amtl/os/am-path.h>   // first, and alone

static size_t va(char* b, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t n = ke::path::FormatVa(b, 8, fmt, ap);
    va_end(ap);
    return n;
}
size_t use(char* b) { return ke::path::Format(b, 8, "%s", "x") + va(b, "%d", 1); }
