#include <amtl/am-hashmap.h>   // first, and alone

struct IntPolicy { typedef int Lookup_; static uint32_t hash(int k) { return ke::HashInt32(k); } static bool matches(int a, int b) { return a == b; } };
struct Key { Key(); explicit Key(int); Key(Key&&); Key(const Key&); Key& operator =(const Key&); ~Key(); int v; };
struct KeyPolicy { static uint32_t hash(const Key& k) { return uint32_t(k.v); } static bool matches(const Key& a, const Key& b) { return a.v == b.v; }
                   static uint32_t hash(int k) { return uint32_t(k); } static bool matches(int a, const Key& b) { return a == b.v; } };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly(const MoveOnly&) = delete; };

template class ke::HashMap<int, Key, IntPolicy>;
size_t use(int* p, const Key& k) {
    typedef ke::HashMap<Key, int, KeyPolicy> M;
    M m, m2(ke::SystemAllocatorPolicy{});
    if (!m.init() || !m2.init(64)) return 0;
    M::Result r = m.find(k);
    const M& cm = m;
    r = cm.find(7);
    M::Insert i = m.findForAdd(k);
    if (!i.found()) {
        m.add(i, k, 1); m.add(i, Key(), 2); m.add(i, k); m.add(i);
        i->key = k; i->value = 3;
    }
    if (r.found()) { r->value = 4; m.remove(r); }
    m.removeIfExists(k); m.removeIfExists(7);
    for (M::iterator it = m.iter(); !it.empty(); it.next()) { it->value = 1; it.erase(); }
    m.clear();
    M moved(std::move(m));
    (void)cm.allocPolicy(); (void)m.allocPolicy();
    ke::HashMap<int*, MoveOnly, ke::PointerPolicy<int>> q;
    q.init();
    auto qi = q.findForAdd(p);
    q.add(qi, p, MoveOnly());
    q.add(qi, p);
    return cm.elements() + cm.estimateMemoryUse();
}
