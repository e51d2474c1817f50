// Maps and sets over keys and values of many shapes, through growth, removal, re-use and clearing.
#include <assert.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include "pol.h"
#include "shapes.h"
#include "libc.h"
using namespace ke;
template <typename T> struct HP {
    struct Look { unsigned char t; };
    static uint32_t hash(const Look& k) { return k.t & 0x7f; }
    static bool matches(const Look& k, const T& o) { return Shape<T>::is(o, k.t); }
};
template <typename K> static inline void key(K& k, int i) { Shape<K>::put(k, (unsigned char)i); }
enum { N = 14 };
template <typename K, typename V> static inline void any_map() {
    typedef HashMap<K, V, HP<K>> M;
    typedef typename HP<K>::Look Look;
    {
        sa_malloc_ok();
        unsigned char t = sa_u8(); sa_assume(t < 200);
        M m; sa_assert(m.init(), "usable");
        for (int i = 0; i < N; i++) {
            typename M::Insert p = m.findForAdd(Look{(unsigned char)i});
            sa_assert(!p.found(), "present-iff-added");
            K k{}; key(k, i); V v{}; Shape<V>::put(v, t + i);
            if (i & 1) sa_assert(m.add(p, std::move(k), std::move(v)), "adds");
            else { sa_assert(m.add(p), "adds"); p->key = std::move(k); p->value = std::move(v); }
        }
        sa_assert(m.elements() == N, "counts-its-entries");
        for (int i = 0; i < N; i++) {
            typename M::Result r = m.find(Look{(unsigned char)i});
            sa_assert(r.found(), "present-iff-added");
            if (r.found()) sa_assert(Shape<K>::is(r->key, i) && Shape<V>::is(r->value, t + i), "finds-the-value-stored");
        }
        sa_assert(!m.find(Look{(unsigned char)(N + 32)}).found(), "present-iff-added");
        m.removeIfExists(Look{3}); m.removeIfExists(Look{3});
        sa_assert(m.elements() == N - 1 && !m.find(Look{3}).found() && m.find(Look{4}).found(), "present-iff-added");
        { typename M::Insert p = m.findForAdd(Look{3});
          K k{}; key(k, 3); sa_assert(!p.found() && m.add(p, std::move(k)), "adds");
          Shape<V>::put(p->value, t + 30);
          typename M::Result r = m.find(Look{3});
          sa_assert(r.found() && Shape<V>::is(r->value, t + 30), "finds-the-value-stored"); }
        M moved(std::move(m));
        int n = 0;
        for (typename M::iterator it = moved.iter(); !it.empty(); it.next()) { n++; if (Shape<K>::is(it->key, 5)) sa_assert(Shape<V>::is(it->value, t + 5), "finds-the-value-stored"); }
        sa_assert(n == N && moved.elements() == N, "counts-its-entries");
        moved.clear();
        sa_assert(moved.elements() == 0 && moved.iter().empty() && !moved.find(Look{5}).found(), "clears");
    }
    SHAPES_END(); sa_reach("end");
}
template <typename T> struct SP {
    static uint32_t hash(const T& k) { for (int i = 0; i < N + 2; i++) if (Shape<T>::is(k, i)) return i; return 99; }
    static bool matches(const T& k, const T& o) { return k == o; }
};
template <typename K> static inline void any_set() {
    typedef HashSet<K, SP<K>> S;
    {
        sa_malloc_ok();
        S s; sa_assert(s.init(), "usable");
        for (int round = 0; round < 2; round++)
            for (int i = 0; i < N; i++) {
                K k{}; key(k, i);
                if (i % 3) s.add(k); else s.add(std::move(k));
                if (i % 3) sa_assert(Shape<K>::is(k, i), "copies-a-named-key");
            }
        sa_assert(s.elements() == N, "counts-its-entries");
        K k{};
        key(k, N + 1); sa_assert(!s.has(k), "present-iff-added");
        for (int i = 0; i < N; i++) { key(k, i); sa_assert(s.has(k), "present-iff-added"); }
        key(k, 6); s.removeIfExists(k); sa_assert(!s.has(k) && s.elements() == N - 1, "present-iff-added");
        S moved(std::move(s));
        key(k, 7); sa_assert(moved.has(k) && moved.elements() == N - 1, "present-iff-added");
        moved.clear(); sa_assert(!moved.has(k) && moved.elements() == 0, "clears");
    }
    SHAPES_END(); sa_reach("end");
}
#define MAP(a, A, b, B) extern "C" void w_map_##a##_##b() { any_map<A, B>(); }
typedef Plain<12> P12; typedef Plain<40> P40; typedef Held<8> H8; typedef Held<32> H32; typedef OnlyMoves<8> M8; typedef OnlyMoves<24> M24;
MAP(u8, unsigned char, u8, unsigned char) MAP(u8, unsigned char, h32, H32) MAP(i32, int, flag, bool) MAP(u64, uint64_t, p40, P40) MAP(ptr, char*, tiny, Tiny)
MAP(p12, P12, ptr, char*) MAP(built, Built, built, Built) MAP(obj, Obj, u16, uint16_t) MAP(h8, H8, m8, M8) MAP(tiny, Tiny, m24, M24) MAP(m8, M8, oc, OnlyCopies) MAP(oc, OnlyCopies, u64, uint64_t)
#define SET(a, A) extern "C" void w_set_##a() { any_set<A>(); }
SET(u8, unsigned char) SET(u16, uint16_t) SET(i32, int) SET(u64, uint64_t) SET(ptr, char*) SET(p12, P12) SET(built, Built) SET(obj, Obj) SET(h32, H32) SET(tiny, Tiny) SET(oc, OnlyCopies)
