#include <amtl/am-hashset.h>   // first, and alone

struct IntPolicy { typedef int Lookup_; static uint32_t hash(int k) { return ke::HashInt32(k); } static bool matches(int a, int b) { return a == b; } };
struct Key { Key(); explicit Key(int); Key(Key&&); Key(const Key&); Key& operator =(const Key&); ~Key(); int v; };
struct KeyPolicy { static uint32_t hash(const Key& k) { return uint32_t(k.v); } static bool matches(const Key& a, const Key& b) { return a.v == b.v; }
                   static uint32_t hash(int k) { return uint32_t(k); } static bool matches(int a, const Key& b) { return a == b.v; } };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly(const MoveOnly&) = delete; };

template class ke::HashSet<int, IntPolicy>;
size_t use(const Key& k) {
    typedef ke::HashSet<Key, KeyPolicy> S;
    S m, m2(ke::SystemAllocatorPolicy{});
    if (!m.init() || !m2.init(64)) return 0;
    S::Result r = m.find(k);
    r = m.find(7);
    S::Insert i = m.findForAdd(k);
    if (!i.found()) { m.add(i, k); m.add(i, Key()); m.add(i); }
    m.add(k); m.add(Key());
    if (r.found()) m.remove(r);
    m.removeIfExists(k); m.removeIfExists(7);
    for (S::iterator it = m.iter(); !it.empty(); it.next()) { (void)*it; it.erase(); }
    m.clear();
    S moved(std::move(m));
    const S& cm = m;
    (void)cm.allocPolicy(); (void)m.allocPolicy();
    return cm.elements() + cm.estimateMemoryUse() + m.has(k) + m.has(7);
}
