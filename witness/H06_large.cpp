// Large maps and sets: filled, thinned, refilled and cleared, with well and badly spread hashes.
#include <assert.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include "pol.h"
#include "libc.h"
#include "sa.h"
using namespace ke;
enum { K = 110 };
struct Spread { static uint32_t hash(uint32_t k) { return HashInt32(k); } static bool matches(uint32_t a, uint32_t b) { return a == b; } };
struct Crowded { static uint32_t hash(uint32_t k) { return k & ~7u; } static bool matches(uint32_t a, uint32_t b) { return a == b; } };
template <class M> static inline bool put(M& m, uint32_t k, uint32_t v) {
    typename M::Insert p = m.findForAdd(k);
    if (p.found()) { p->value = v; return false; }
    return m.add(p, k, v);
}
// exactly the keys below K with keep(k), each with value(k)
template <class M, class F> static inline void are(M& m, F keep, uint32_t plus) {
    size_t n = 0;
    for (uint32_t k = 0; k < K; k++) {
        typename M::Result r = m.find(k);
        sa_assert(r.found() == keep(k), "present-iff-added");
        if (keep(k)) { n++; if (r.found()) sa_assert(r->key == k && r->value == k + plus, "finds-the-value-stored"); }
    }
    sa_assert(!m.find(K).found() && !m.find(0x80000000u).found(), "present-iff-added");
    sa_assert(m.elements() == n, "counts-its-entries");
    size_t seen = 0; uint64_t sum = 0, want = 0;
    for (typename M::iterator it = m.iter(); !it.empty(); it.next()) { seen++; sum += it->key; sa_assert(it->key < K && keep(it->key), "iterates-over-its-entries"); }
    for (uint32_t k = 0; k < K; k++) if (keep(k)) want += k;
    sa_assert(seen == n && sum == want, "iterates-over-its-entries");
}
template <class P> static inline void map_of() {
    typedef HashMap<uint32_t, uint32_t, P> M;
    {
        sa_malloc_ok();
        uint32_t d = sa_u8();
        M m; sa_assert(m.init(), "usable");
        for (uint32_t k = 0; k < K; k++) sa_assert(put(m, k, k + d), "adds");
        are(m, [](uint32_t) { return true; }, d);
        for (uint32_t k = 0; k < K; k += 2) m.removeIfExists(k);
        are(m, [](uint32_t k) { return k % 2 == 1; }, d);
        for (uint32_t k = 0; k < K; k += 4) sa_assert(put(m, k, k + d), "adds");
        are(m, [](uint32_t k) { return k % 2 == 1 || k % 4 == 0; }, d);
        for (typename M::iterator it = m.iter(); !it.empty(); it.next()) if (it->key >= 20) it.erase();
        are(m, [](uint32_t k) { return k < 20 && (k % 2 == 1 || k % 4 == 0); }, d);
        m.clear();
        are(m, [](uint32_t) { return false; }, d);
        for (uint32_t k = 0; k < K; k += 3) sa_assert(put(m, k, k + d), "adds");
        are(m, [](uint32_t k) { return k % 3 == 0; }, d);
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_large_spread() { map_of<Spread>(); }
extern "C" void w_large_crowded() { map_of<Crowded>(); }
extern "C" void w_large_set() {
    typedef HashSet<uint32_t, Spread> S;
    {
        sa_malloc_ok();
        S s; sa_assert(s.init(), "usable");
        for (uint32_t i = 0; i < 2 * K; i++) {
            uint32_t k = i % K * 3 % K;
            S::Insert p = s.findForAdd(k);
            sa_assert(p.found() == (i >= K), "present-iff-added");
            if (!p.found()) sa_assert(s.add(p, k), "adds");
        }
        sa_assert(!s.find(K + 2u).found() && s.elements() == K, "counts-its-entries");
        for (uint32_t k = 0; k < K; k += 3) s.removeIfExists(k);
        for (uint32_t k = 0; k < K; k++) sa_assert(s.find(k).found() == (k % 3 != 0), "present-iff-added");
    }
    sa_clean("no-leak"); sa_reach("end");
}
