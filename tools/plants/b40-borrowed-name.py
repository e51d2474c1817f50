prop='''T03'''
edits=[('amtl/am-thread.h', '''    auto fn = [](const std::string& name, decltype(callback)&& callback) -> void {
        SetThreadName(name.c_str());''', '''    auto fn = [](const char* name, decltype(callback)&& callback) -> void {
        SetThreadName(name);'''), ('amtl/am-thread.h', 'std::move(fn), std::string(name), std::move(callback)', 'std::move(fn), name, std::move(callback)')]
needs='''the caller's name buffer is reused before the new thread gets to run'''
breaks='''The new thread reads its name from the caller's storage.'''
demo='''
#include <amtl/am-thread.h>
#include <atomic>
#include <string.h>
#include <pthread.h>
static std::atomic<bool> reused{false};
static char seen[64];
extern "C" int pthread_setname_np(pthread_t, const char* name) noexcept {
    while (!reused) std::this_thread::yield();
    strncpy(seen, name, sizeof(seen) - 1);
    return 0;
}
int main() {
    char buffer[16] = "worker";
    int ran = 0;
    auto t = ke::NewThread(buffer, [&](int n) { ran += n; }, 1);
    strcpy(buffer, "other");
    reused = true;
    t->join();
    return ran != 1 || strcmp(seen, "worker") != 0;
}
'''
cflags='-lpthread'
