prop='''T02'''
edits=[('amtl/am-mutex.h', '''       owner_ = {};
       std::mutex::unlock();''', '''       std::mutex::unlock();
       if (owner_ == std::this_thread::get_id())
           owner_ = {};''')]
needs='''another thread takes the mutex between the release and the clearing of the owner'''
breaks='''The owner is read and cleared after the mutex is released, so the next owner's record can be erased and its ownership assertion fails.'''
demo='''
#include <amtl/am-mutex.h>
#include <atomic>
// The owner is a private member next to the native mutex: look at its bytes when the lock has just been released.
static ke::Mutex* watched;
static bool bad;
#include <pthread.h>
#include <dlfcn.h>
#include <string.h>
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (watched && (void*)m == (void*)watched->native_handle()) {
        std::thread::id none, now;
        static_assert(sizeof(ke::Mutex) == sizeof(std::mutex) + sizeof(std::thread::id), "layout");
        memcpy((void*)&now, (char*)watched + sizeof(std::mutex), sizeof(now));
        if (now != none) bad = true;
    }
    return real(m);
}
int main() {
    ke::Mutex m;
    m.lock();
    watched = &m;
    m.unlock();
    watched = nullptr;
    return bad;
}
'''
