prop='R03'
edits=[('amtl/am-refcounting-threadsafe.h','refcount_ += 1;','        refcount_.store(refcount_.load() + 1);')]
needs='two threads adding a reference to one object at the same time'
breaks='Adding a reference is a load followed by a store: a concurrent add or release in between is lost, and the object is destroyed early or never.'
demo='''
#include <stdlib.h>
#include <amtl/am-refcounting-threadsafe.h>
#include <atomic>
#include <thread>
#include <vector>
static std::atomic<int> alive(0);
struct N : public ke::RefcountedThreadsafe<N> { N() { alive++; } ~N() { alive--; } };
int main() {
    N* n = new N();
    n->AddRef();
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++)
        ts.emplace_back([n] { for (int i = 0; i < 2000000; i++) n->AddRef(); });
    for (auto& t : ts) t.join();
    for (int i = 0; i < 16000000; i++) {
        if (alive != 1) _Exit(1);
        n->Release();
    }
    if (alive != 1) _Exit(2);
    n->Release();
    return alive == 0 ? 0 : 3;
}
'''
cflags='-O1'
