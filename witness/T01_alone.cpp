// ThreadLocal: threads taking turns, lifetime of the key, every kind of value.
#include <amtl/am-threadlocal.h>
#include "sa.h"
using namespace ke;
extern "C" { void sa_thread(int n); }
#ifdef KE_SINGLE_THREADED
# define THREAD(n)
# define OTHER_DEFAULT(v, d)
#else
# define THREAD(n) sa_thread(n)
# define OTHER_DEFAULT(v, d) do { THREAD(2); sa_assert((v).get() == d, "untouched-is-default"); THREAD(1); } while (0)
#endif
#define CREATED sa_event("created")
#define DELETED sa_event("delete")
#define BALANCED() sa_assert(CREATED == DELETED, "deleted-exactly-when-created")

template <typename T> static inline void values(T d, T x, T y) {
    {
        ThreadLocal<T> v;
        sa_assert(v.get() == d, "untouched-is-default");
        sa_assert(CREATED == 0, "reading-creates-nothing");
        v = x;
        sa_assert(v.get() == x, "reads-own-value");
        sa_assert(*v == x, "reads-own-value");
        sa_assert(v == x, "reads-own-value");
        sa_assert(!(v != x), "reads-own-value");
        sa_assert(!v == !x, "reads-own-value");
        OTHER_DEFAULT(v, d);
        v.set(y);
        sa_assert(v.get() == y, "reads-own-value");
        OTHER_DEFAULT(v, d);
        sa_assert(DELETED == 0, "deleted-exactly-when-created");
    }
    BALANCED();
    sa_reach("end");
}
extern "C" void w_int() { values<int>(0, sa_int(), sa_int()); }
extern "C" void w_uint() { values<unsigned>(0, sa_u32(), sa_u32()); }
extern "C" void w_short() { values<short>(0, (short)sa_u16(), (short)sa_u16()); }
extern "C" void w_uchar() { values<unsigned char>(0, sa_u8(), sa_u8()); }
extern "C" void w_bool() { values<bool>(false, sa_bool(), sa_bool()); }
extern "C" void w_long() { values<long>(0, (long)sa_u64(), (long)sa_u64()); }
extern "C" void w_u64() { values<uint64_t>(0, sa_u64(), sa_u64()); }
extern "C" void w_ptr() { int a, b; values<int*>(nullptr, &a, &b); }
extern "C" void w_voidptr() { int a; values<void*>(nullptr, &a, nullptr); }
extern "C" void w_cptr() { const char* s = "x"; values<const char*>(nullptr, s, nullptr); }
struct S { int m; };
extern "C" void w_arrow() { S s; ThreadLocal<S*> v; s.m = 5; v = &s; sa_assert(v->m == 5, "reads-own-value"); sa_reach("end"); }

extern "C" void w_untouched() { { ThreadLocal<int> v; } sa_assert(CREATED == 0 && DELETED == 0, "deleted-exactly-when-created"); sa_reach("end"); }
extern "C" void w_only_read() { { ThreadLocal<int> v; (void)v.get(); (void)!v; (void)(v == 3); } sa_assert(CREATED == 0 && DELETED == 0, "deleted-exactly-when-created"); sa_reach("end"); }
extern "C" void w_allocate() {
    {
        ThreadLocal<int> v;
        bool a = v.allocate();
#ifndef KE_SINGLE_THREADED
        sa_assert(a == (CREATED == 1), "reports-creation");
        if (!a) sa_reach("fails");
#endif
        if (a) { sa_assert(v.get() == 0, "untouched-is-default"); sa_reach("ok"); }
        sa_assert(DELETED == 0, "deleted-exactly-when-created");
    }
    BALANCED();
}
extern "C" void w_retry() {
    {
        ThreadLocal<int> v;
        bool a = v.allocate();
        THREAD(2);
        sa_assert(v.get() == 0, "untouched-is-default");
        bool b = v.allocate();
#ifndef KE_SINGLE_THREADED
        sa_assert((a || b) == (CREATED == 1), "reports-creation");
        sa_assert(!a || b, "stays-created");
        if (!a && b) sa_reach("second");
        if (!a && !b) sa_reach("neither");
#endif
        if (b) {
            int x = sa_int();
            v = x;
            sa_assert(v.get() == x, "reads-own-value");
#ifndef KE_SINGLE_THREADED
            THREAD(3);
            sa_assert(v.get() == 0, "untouched-is-default");
#endif
        }
    }
    BALANCED();
    sa_reach("end");
}
// one value each
extern "C" void w_threads() {
    {
        ThreadLocal<int> v;
        int x = sa_int(), y = sa_int();
        v = x;
#ifndef KE_SINGLE_THREADED
        THREAD(2);
        sa_assert(v.get() == 0, "untouched-is-default");
        v = y;
        sa_assert(v.get() == y, "reads-own-value");
        THREAD(1);
#endif
        sa_assert(v.get() == x, "reads-own-value");
    }
    BALANCED();
    sa_reach("end");
}
