#include <amtl/am-mutex.h>   // first, and alone

void use() {
    ke::Mutex m;
    m.lock(); m.AssertCurrentThreadOwns(); m.unlock();
    if (m.try_lock()) m.unlock();
    std::lock_guard<ke::Mutex> g(m);
    std::unique_lock<ke::Mutex> u(m);
    m.native_handle();
}
