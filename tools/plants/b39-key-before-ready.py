prop='''T01'''
edits=[('amtl/am-threadlocal.h', '''    // Only one thread creates the key; the others wait until it either exists,
    // or could not be created, in which case they try for themselves.
''', '''    // Only one thread creates the key; the others wait until it either exists,
    // or could not be created, in which case they try for themselves.
    bool untouched() const {
        return allocated_.load(std::memory_order_acquire) == kUnallocated;
    }

'''), ('amtl/am-threadlocal.h', '''        if (allocated_.load(std::memory_order_acquire) != kAllocated)
            return T();
        return internalGet();''', '''        if (untouched())
            return T();
        return internalGet();''')]
needs='''a thread reads the variable while another thread is creating its key'''
breaks='''Reading only asks whether anybody has touched the variable, so it uses the key while it is still being created.'''
demo='''
#include <amtl/am-threadlocal.h>
#include <stdio.h>
#include <pthread.h>
#include <dlfcn.h>
// While the key is being created, read the variable the way another thread would.
static ke::ThreadLocal<int>* watched;
static bool created, early;
extern "C" int pthread_key_create(pthread_key_t* key, void (*fn)(void*)) noexcept {
    static auto real = (int (*)(pthread_key_t*, void (*)(void*)))dlsym(RTLD_NEXT, "pthread_key_create");
    if (watched) {
        ke::ThreadLocal<int>* tl = watched;
        if (tl->get() != 0) early = true;
        int rc = real(key, fn);
        created = true;
        return rc;
    }
    return real(key, fn);
}
extern "C" void* pthread_getspecific(pthread_key_t key) noexcept {
    static auto real = (void* (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_getspecific");
    if (watched && !created) early = true;
    return real(key);
}
int main() {
    ke::ThreadLocal<int> tl;
    watched = &tl;
    tl.set(5);
    watched = nullptr;
    return early || tl.get() != 5;
}
'''
cflags='-ldl'
