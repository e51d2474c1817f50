prop='''A03'''
edits=[('amtl/am-hashtable.h', '     : AllocPolicy(std::move(other)),\n       capacity_(other.capacity_),', '     : AllocPolicy(),\n       capacity_(other.capacity_),')]
needs='''moving a table that was given a policy with state'''
breaks='''A moved table does not take its policy along and frees its memory through another one.'''
demo='''
#include <amtl/am-hashtable.h>
struct Pool { int live = 0; };
struct Policy {
    Pool* p = nullptr;
    Policy() {}
    explicit Policy(Pool* q) : p(q) {}
    void* am_malloc(size_t n) { if (p) p->live++; return malloc(n); }
    void am_free(void* m) { if (p && m) p->live--; free(m); }
    void reportOutOfMemory() {}
    void reportAllocationOverflow() {}
};
struct P {
    typedef uint32_t Payload;
    static uint32_t hash(uint32_t k) { return k; }
    static bool matches(uint32_t k, uint32_t p) { return k == p; }
};
int main() {
    Pool pool;
    {
        ke::HashTable<P, Policy> t{Policy(&pool)};
        if (!t.init() || pool.live != 1) return 2;
        ke::HashTable<P, Policy> u(std::move(t));
    }
    return pool.live != 0;
}
'''
