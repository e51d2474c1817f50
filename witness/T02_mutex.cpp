// Mutex: every way of locking records the owner, every release clears it first.
#include <mutex>
#include <utility>
#include <amtl/am-mutex.h>
#include "sa.h"
using namespace ke;
extern "C" { void sa_thread(int n); void sa_expect_assertion(); void sa_share_mutex(void*); bool sa_held(void*); }
#define LOCKS sa_event("lock")
#define TRIES sa_event("trylock")
#define UNLOCKS sa_event("unlock")

static void owned(Mutex& m) {
    sa_assert(sa_held(&m), "holds-the-mutex");
    m.AssertCurrentThreadOwns();
}
#ifdef NDEBUG
#define NOT_OWNED(m) sa_assert(!sa_held(&m), "holds-the-mutex"); if (sa_bool()) { m.AssertCurrentThreadOwns(); } sa_reach("assertion-fires")
#define NOT_OWNED_BY_OTHER(m) if (sa_bool()) { m.AssertCurrentThreadOwns(); } sa_reach("assertion-fires")
#else
#define NOT_OWNED_BY_OTHER(m) \
    if (sa_bool()) { sa_expect_assertion(); m.AssertCurrentThreadOwns(); sa_assert(false, "assertion-fires-for-non-owner"); sa_reach("assertion-fires"); return; }
#define NOT_OWNED(m) sa_assert(!sa_held(&m), "holds-the-mutex"); NOT_OWNED_BY_OTHER(m)
#endif

extern "C" void w_fresh() { Mutex m; sa_share_mutex(&m); NOT_OWNED(m); sa_reach("end"); }
extern "C" void w_lock_unlock() {
    Mutex m; sa_share_mutex(&m);
    m.lock();
    owned(m);
    sa_assert(LOCKS == 1 && UNLOCKS == 0, "locks-exactly-once");
    m.unlock();
    sa_assert(LOCKS == 1 && UNLOCKS == 1, "unlocks-exactly-once");
    NOT_OWNED(m);
    sa_reach("end");
}
extern "C" void w_try() {
    Mutex m; sa_share_mutex(&m);
    bool got = m.try_lock();
    sa_assert(got == sa_held(&m), "reports-acquisition");
    sa_assert(TRIES == 1 && LOCKS == 0, "locks-exactly-once");
    if (!got) {
        NOT_OWNED(m);
        sa_reach("busy");
        return;
    }
    owned(m);
    m.unlock();
    sa_assert(UNLOCKS == 1, "unlocks-exactly-once");
    NOT_OWNED(m);
    sa_reach("taken");
}
extern "C" void w_again() {
    Mutex m; sa_share_mutex(&m);
    m.lock(); m.unlock();
    if (sa_bool()) { m.lock(); owned(m); m.unlock(); }
    if (m.try_lock()) { owned(m); m.unlock(); }
    m.lock();
    owned(m);
    m.unlock();
    sa_assert(UNLOCKS >= 2, "unlocks-exactly-once");
    NOT_OWNED(m);
    sa_reach("end");
}
// standard lock holders
extern "C" void w_lock_guard() {
    Mutex m; sa_share_mutex(&m);
    {
        std::lock_guard<Mutex> l(m);
        owned(m);
        sa_assert(LOCKS == 1, "locks-exactly-once");
    }
    sa_assert(UNLOCKS == 1, "unlocks-exactly-once");
    NOT_OWNED(m);
    sa_reach("end");
}
extern "C" void w_unique_lock() {
    Mutex m; sa_share_mutex(&m);
    {
        std::unique_lock<Mutex> l(m, std::defer_lock);
        bool t = sa_bool();
        if (t) { if (!l.try_lock()) { sa_assert(!sa_held(&m), "reports-acquisition"); return; } }
        else l.lock();
        owned(m);
        l.unlock();
        sa_assert(!sa_held(&m), "holds-the-mutex");
        l.lock();
        owned(m);
    }
    sa_assert(UNLOCKS == 2, "unlocks-exactly-once");
    NOT_OWNED(m);
    sa_reach("end");
}
extern "C" void w_unique_try() {
    Mutex m; sa_share_mutex(&m);
    std::unique_lock<Mutex> l(m, std::try_to_lock);
    sa_assert(l.owns_lock() == sa_held(&m), "reports-acquisition");
    if (l) { owned(m); sa_reach("taken"); }
    else { sa_reach("busy"); }
}
extern "C" void w_two_mutexes() {
    Mutex a, b;
    a.lock();
    owned(a);
    b.lock();
    owned(b); owned(a);
    a.unlock();
    owned(b);
    NOT_OWNED(a);
    b.unlock();
    NOT_OWNED(b);
    sa_reach("end");
}
// other threads
extern "C" void w_other_thread() {
    Mutex m; sa_share_mutex(&m);
    sa_thread(1);
    if (sa_bool()) m.lock(); else if (!m.try_lock()) return;
    sa_thread(2);
    NOT_OWNED_BY_OTHER(m);
    bool got = m.try_lock();
    sa_assert(!got && !sa_held(&m), "reports-acquisition");
    NOT_OWNED_BY_OTHER(m);
    sa_thread(1);
    owned(m);
    m.unlock();
    NOT_OWNED(m);
    sa_thread(2);
    m.lock();
    owned(m);
    sa_thread(1);
    NOT_OWNED_BY_OTHER(m);
    sa_thread(2);
    m.unlock();
    NOT_OWNED(m);
    sa_reach("end");
}
