#include <amtl/am-hashtable.h>   // first, and alone

struct Key { Key(); explicit Key(int); Key(Key&&); ~Key(); int v; };
struct P { typedef Key Payload; static uint32_t hash(int k) { return uint32_t(k); } static bool matches(int a, const Key& b) { return a == b.v; } };
typedef ke::HashTable<P> T;
size_t use(void* v) {
    T t, u(ke::SystemAllocatorPolicy{});
    t.init(); u.init(32);
    const T& c = t;
    T::Result r = c.find(1);
    T::Insert i = t.findForAdd(1);
    t.add(i, Key(1)); t.add(i);
    if (r.found()) { (void)r->v; (void)(*r).v; t.remove(r); }
    t.removeIfExists(2);
    t.checkDensity();
    for (T::iterator it(&t); !it.empty(); it.next()) { it->v = 1; (*it).v = 2; it.erase(); }
    t.clear();
    T w(std::move(t));
    (void)c.allocPolicy(); (void)t.allocPolicy();
    ke::CharacterStreamHasher h;
    h.add('a'); h.add("abc", 3);
    return c.elements() + c.estimateMemoryUse() + h.result() + ke::HashCharSequence("a", 1) + ke::FastHashCharSequence("a", 1)
         + ke::HashInt32(1) + ke::HashInt64(2) + ke::HashInteger<4>(3) + ke::HashInteger<8>(4) + ke::HashPointer(v);
}
