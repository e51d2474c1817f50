// SharedLib: every outcome of opening and looking up, every texts of up to three characters as error.
#include <amtl/os/am-shared-library.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_sys_long(size_t len); void sa_expect_path(const char*); size_t sa_sys_len(); uint8_t sa_sys_char(size_t); void* sa_found(); void sa_format_real(int never_fails); void sa_va_clean(); }
#define OPENS sa_event("open")
#define FAILS sa_event("open_failed")
#define CLOSES sa_event("close")
static const char kPath[] = "some/lib.so";
static const char kSym[] = "symbol";
static void balanced() {
    sa_assert(CLOSES == OPENS - FAILS, "closed-exactly-once");
    sa_va_clean();
    sa_clean("no-leak");
    sa_reach("end");
}
static void* any_handle(bool& ok) { return dlopen(kPath, RTLD_NOW); }

extern "C" void w_none() {
    { SharedLib l; sa_assert(!l.valid() && !l, "validity"); }
    sa_assert(OPENS == 0, "opened-once");
    balanced();
}
extern "C" void w_path() {
    sa_expect_path(kPath);
    {
        SharedLib l(kPath);
        sa_assert(OPENS == 1, "opened-once");
        sa_assert(l.valid() == (FAILS == 0) && (bool)l == l.valid(), "validity");
        sa_assert(CLOSES == 0, "closed-exactly-once");
        if (l.valid()) sa_reach("open"); else sa_reach("missing");
    }
    balanced();
}
extern "C" void w_handle() {
    {
        void* h = dlopen(kPath, RTLD_NOW);
        SharedLib l(h);
        sa_assert(OPENS == 1, "opened-once");
        sa_assert(l.valid() == (h != nullptr), "validity");
        sa_assert(CLOSES == 0, "closed-exactly-once");
    }
    balanced();
}
extern "C" void w_counted() {
    sa_expect_path(kPath);
    {
        RefPtr<SharedLib> a = new SharedLib(kPath);
        RefPtr<SharedLib> b = a;
        a = nullptr;
        sa_assert(CLOSES == 0, "closed-exactly-once");
    }
    balanced();
}
static void open_case(char* buf, size_t max, bool given) {
    sa_expect_path(kPath);
    {
        RefPtr<SharedLib> l = given ? SharedLib::Open(kPath, buf, max) : SharedLib::Open(kPath);
        sa_assert(OPENS == 1, "opened-once");
        sa_assert(!l == (FAILS == 1), "open-returns-valid-or-null");
        if (l) {
            sa_assert(l->valid() && CLOSES == 0, "open-returns-valid-or-null");
            if (given && max && buf) sa_assert(buf[0] == 'u' && (max < 2 || buf[1] == 'v'), "text-only-on-failure");
            RefPtr<SharedLib> other = l;
            l = nullptr;
            sa_assert(CLOSES == 0, "closed-exactly-once");
            sa_reach("open");
        } else {
            sa_assert(CLOSES == 0, "closed-exactly-once");
            if (given && max && buf) {
                size_t n = sa_event("format_failed") ? 0 : sa_sys_len();
                if (n > max - 1) n = max - 1;
                for (size_t i = 0; i < n; i++) sa_assert((uint8_t)buf[i] == sa_sys_char(i), "failure-text-stored");
                sa_assert(buf[n] == 0, "failure-text-stored");
            }
            sa_reach("missing");
        }
    }
}
static void buffer_case(size_t max) {
    sa_format_real(0);
    char* buf = new char[max];
    buf[0] = 'u';
    if (max > 1) buf[1] = 'v';
    open_case(buf, max, true);
    delete[] buf;
    balanced();
}
extern "C" void w_open() { open_case(nullptr, 0, false); balanced(); }
extern "C" void w_open_nobuffer() { open_case(nullptr, 4, true); balanced(); }
extern "C" void w_open_nosize() { char b[1] = {'x'}; open_case(b, 0, true); sa_assert(b[0] == 'x', "text-only-on-failure"); balanced(); }
extern "C" void w_open_1() { buffer_case(1); }
extern "C" void w_open_2() { buffer_case(2); }
extern "C" void w_open_3() { buffer_case(3); }
extern "C" void w_open_4() { buffer_case(4); }
extern "C" void w_lookup() {
    {
        RefPtr<SharedLib> l = SharedLib::Open(kPath);
        if (l) {
            sa_expect_path(kSym);
            void* p = l->lookup(kSym);
            if (sa_found()) { sa_assert(p == sa_found(), "returns-what-was-found"); sa_reach("found"); }
            else { sa_assert(p == nullptr, "returns-what-was-found"); sa_reach("not-found"); }
            sa_assert(sa_event("lookup") == 1, "looked-up-once");
        }
    }
    balanced();
}
extern "C" void w_get() {
    {
        RefPtr<SharedLib> l = SharedLib::Open(kPath);
        if (l) {
            sa_expect_path(kSym);
            int* p = l->get<int*>(kSym);
            if (sa_found()) sa_assert((void*)p == sa_found(), "returns-what-was-found"); else sa_assert(p == nullptr, "returns-what-was-found");
            sa_assert(sa_event("lookup") == 1, "looked-up-once");
        }
    }
    balanced();
}
// long texts, into buffers that hold them or cut them
#define LONG(n) extern "C" void w_longfits_##n() { sa_sys_long(n); buffer_case(n + 1); } extern "C" void w_longcut_##n() { sa_sys_long(n); buffer_case(n); } \
    extern "C" void w_longroom_##n() { sa_sys_long(n); buffer_case(n + 600); } extern "C" void w_longshort_##n() { sa_sys_long(n); buffer_case(n / 2); }
LONG(63) LONG(255) LONG(600)
