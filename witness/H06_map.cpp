// Maps and sets against a plain model: every history of a few operations over three keys whose hashes collide, neighbour or are reserved.
#include <assert.h>
#include <utility>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include "pol.h"
using namespace ke;
static const uint32_t GINV = 0x144cbc89u;              // inverse of the multiplier 0x9E3779B9 modulo 2^32
struct Key { uint64_t id; };
static uint32_t H[24];
struct HP {
    static uint32_t hash(const Key& k) { return H[k.id]; }
    static bool matches(const Key& k, const Obj& o) { return sa_tok(&o) == k.id; }
    static uint32_t hash(const Obj& k) { return H[sa_tok(&k)]; }
    static bool matches(const Obj& k, const Obj& o) { return sa_tok(&o) == sa_tok(&k); }
};
typedef HashMap<Obj, MObj, HP, Pol> M;
typedef HashSet<Obj, HP, Pol> S;
static inline int pick(int max) { int n = 0; while (n < max && sa_bool()) n++; return n; }
enum { K = 3 };
static inline void hashes(int which) {
    switch (which) {
        case 0: H[0] = H[1] = H[2] = 7 * GINV; break;                       // the same
        case 1: H[0] = 0; H[1] = GINV; H[2] = 2 * GINV; break;              // the two reserved values
        case 2: H[0] = 15 * GINV; H[1] = 31 * GINV; H[2] = 14 * GINV; break; // around the end
        default: H[0] = 3 * GINV; H[1] = 4 * GINV; H[2] = 3 * GINV; break;
    }
}
struct Model { bool in[24]; uint64_t v[24]; size_t n; Model() : n(0) { for (auto& b : in) b = false; for (auto& x : v) x = 0; } void put(int k, uint64_t x) { if (!in[k]) n++; in[k] = true; v[k] = x; } void drop(int k) { if (in[k]) n--; in[k] = false; } };
static inline void agrees(M& m, Model& d, int keys = K) {
    sa_assert(m.elements() == d.n, "counts-its-entries");
    const M& c = m;
    for (int k = 0; k < keys; k++) {
        M::Result r = c.find(Key{uint64_t(k)});
        sa_assert(r.found() == d.in[k], "present-iff-added");
        if (r.found()) { sa_assert(sa_tok(&r->key) == uint64_t(k), "finds-the-key-asked-for"); if (d.in[k]) sa_assert(sa_mtok(&r->value) == d.v[k], "finds-the-value-stored"); }
    }
}
static inline void agrees(S& s, Model& d, int keys = K) {
    sa_assert(s.elements() == d.n, "counts-its-entries");
    for (int k = 0; k < keys; k++) {
        sa_assert(s.has(Key{uint64_t(k)}) == d.in[k], "present-iff-added");
        S::Result r = s.find(Key{uint64_t(k)});
        sa_assert(r.found() == d.in[k], "present-iff-added");
        if (r.found()) sa_assert(sa_tok(&*r) == uint64_t(k), "finds-the-key-asked-for");
    }
}
static inline void put(M& m, Model& d, int k, uint64_t v, int how) {
    Key key{uint64_t(k)};
    M::Insert i = m.findForAdd(key);
    sa_assert(i.found() == d.in[k], "present-iff-added");
    if (i.found()) { i->value = MObj(v); d.put(k, v); return; }
    if (how == 0) { sa_assert(m.add(i, Obj(k), MObj(v)), "adds"); }
    else if (how == 1) { Obj o(k); sa_assert(m.add(i, o), "adds"); sa_assert(sa_tok(&o) == uint64_t(k), "copies-a-named-key"); i->value = MObj(v); }
    else { sa_assert(m.add(i), "adds"); i->key = Obj(k); i->value = MObj(v); }
    d.put(k, v);
    sa_assert(sa_tok(&i->key) == uint64_t(k) && sa_mtok(&i->value) == v, "insert-names-the-new-entry");
}
static inline void put(S& s, Model& d, int k, int how) {
    if (how == 0) { s.add(Obj(k)); d.put(k, 0); return; }
    if (how == 1) { Obj o(k); s.add(o); sa_assert(sa_tok(&o) == uint64_t(k), "copies-a-named-key"); d.put(k, 0); return; }
    S::Insert i = s.findForAdd(Key{uint64_t(k)});
    sa_assert(i.found() == d.in[k], "present-iff-added");
    if (i.found()) return;
    if (how == 2) { Obj o(k); sa_assert(s.add(i, o), "adds"); sa_assert(sa_tok(&o) == uint64_t(k), "copies-a-named-key"); }
    else { sa_assert(s.add(i), "adds"); *i = Obj(k); }
    d.put(k, 0);
    sa_assert(sa_tok(&*i) == uint64_t(k), "insert-names-the-new-entry");
}
template <class C> static inline void drop(C& c, Model& d, int k, bool if_exists) {
    if (if_exists) c.removeIfExists(Key{uint64_t(k)});
    else { typename C::Result r = c.find(Key{uint64_t(k)}); if (r.found()) c.remove(r); }
    d.drop(k);
}
template <class C> static inline void clear(C& c, Model& d) { c.clear(); for (int k = 0; k < 24; k++) d.drop(k); }
static inline void erase_some(M& m, Model& d) {
    bool seen[24] = {}; size_t n = 0;
    for (M::iterator i = m.iter(); !i.empty(); i.next()) {
        uint64_t k = sa_tok(&i->key);
        sa_assert(k < 24 && d.in[k] && !seen[k] && sa_mtok(&i->value) == d.v[k], "visits-each-entry-once");
        seen[k] = true; n++;
        if (sa_bool()) { i.erase(); d.drop(int(k)); seen[k] = false; }
    }
    for (int k = 0; k < K; k++) sa_assert(seen[k] == d.in[k], "visits-each-entry-once");
}
static inline void erase_some(S& s, Model& d) {
    bool seen[24] = {};
    for (S::iterator i = s.iter(); !i.empty(); i.next()) {
        uint64_t k = sa_tok(&*i);
        sa_assert(k < 24 && d.in[k] && !seen[k], "visits-each-entry-once");
        seen[k] = true;
        if (sa_bool()) { i.erase(); d.drop(int(k)); seen[k] = false; }
    }
    for (int k = 0; k < K; k++) sa_assert(seen[k] == d.in[k], "visits-each-entry-once");
}
template <int W> static inline void map() {
    { sa_malloc_ok(); hashes(W); M m{Pol(1)}; sa_assert(m.init(), "init"); Model d;
      put(m, d, pick(K - 1), 100, 0);
      for (int step = 1; step < 3; step++) { int k = pick(K - 1); if (sa_bool()) put(m, d, k, 100 + step, 0); else drop(m, d, k, step == 1); }
      agrees(m, d); }
    sa_clean("no-leak"); sa_reach("end");
}
template <int W> static inline void map_ways() {
    { sa_malloc_ok(); hashes(W); M m{Pol(1)}; sa_assert(m.init(16), "init"); Model d;
      int how = pick(2); put(m, d, 0, 100, how); put(m, d, 1, 101, 2 - how); drop(m, d, pick(1), how == 0); put(m, d, 2, 102, how); put(m, d, pick(K - 1), 103, 1);
      agrees(m, d); }
    sa_clean("no-leak"); sa_reach("end");
}
template <int W> static inline void map_walk() {
    { sa_malloc_ok(); hashes(W); M m{Pol(1)}; sa_assert(m.init(16), "init"); Model d;
      for (int k = 0; k < K; k++) if (sa_bool()) put(m, d, k, 100 + k, 0);
      if (sa_bool()) erase_some(m, d);
      agrees(m, d);
      if (sa_bool()) { clear(m, d); agrees(m, d); put(m, d, 1, 9, 0); agrees(m, d); }
      M o(std::move(m)); agrees(o, d); put(o, d, 2, 11, 0); agrees(o, d); }
    sa_clean("no-leak"); sa_reach("end");
}
template <int W> static inline void set() {
    { sa_malloc_ok(); hashes(W); S s{Pol(1)}; sa_assert(s.init(), "init"); Model d;
      put(s, d, pick(K - 1), 0);
      for (int step = 1; step < 3; step++) { int k = pick(K - 1); if (sa_bool()) put(s, d, k, 0); else drop(s, d, k, step == 1); }
      agrees(s, d); }
    sa_clean("no-leak"); sa_reach("end");
}
template <int W> static inline void set_ways() {
    { sa_malloc_ok(); hashes(W); S s{Pol(1)}; sa_assert(s.init(16), "init"); Model d;
      int how = pick(3); put(s, d, 0, how); put(s, d, 1, 3 - how); drop(s, d, pick(1), how == 0); put(s, d, 2, how); put(s, d, pick(K - 1), how);
      agrees(s, d); }
    sa_clean("no-leak"); sa_reach("end");
}
template <int W> static inline void set_walk() {
    { sa_malloc_ok(); hashes(W); S s{Pol(1)}; sa_assert(s.init(16), "init"); Model d;
      for (int k = 0; k < K; k++) if (sa_bool()) put(s, d, k, 0);
      if (sa_bool()) erase_some(s, d);
      agrees(s, d);
      if (sa_bool()) { clear(s, d); agrees(s, d); put(s, d, 1, 0); agrees(s, d); }
      S o(std::move(s)); agrees(o, d); put(o, d, 2, 2); agrees(o, d); }
    sa_clean("no-leak"); sa_reach("end");
}
#define ALL(W) extern "C" { void w_map_##W() { map<W>(); } void w_map_ways_##W() { map_ways<W>(); } void w_map_walk_##W() { map_walk<W>(); } void w_set_##W() { set<W>(); } void w_set_ways_##W() { set_ways<W>(); } void w_set_walk_##W() { set_walk<W>(); } }
ALL(0) ALL(1) ALL(2) ALL(3)
// enough entries for the table to grow, and removals
static inline void many() { for (int k = 0; k < 24; k++) H[k] = uint32_t(k % 3 == 0 ? 5 : k + 9) * GINV; }
extern "C" void w_map_growing() {
    { sa_malloc_ok(); many(); M m{Pol(1)}; sa_assert(m.init(16), "init"); Model d;
      for (int k = 0; k < 12; k++) put(m, d, k, 100 + k, 0);
      int a = pick(3), how = pick(2);
      for (int k = 0; k < a; k++) drop(m, d, 3 * k, how == 0);
      for (int k = 12; k < 15; k++) put(m, d, k, 100 + k, how);
      agrees(m, d, 15); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_set_growing() {
    { sa_malloc_ok(); many(); S s{Pol(1)}; sa_assert(s.init(16), "init"); Model d;
      for (int k = 0; k < 12; k++) put(s, d, k, 0);
      int a = pick(3), how = pick(3);
      for (int k = 0; k < a; k++) drop(s, d, 3 * k, how == 0);
      for (int k = 12; k < 15; k++) put(s, d, k, how);
      agrees(s, d, 15); }
    sa_clean("no-leak"); sa_reach("end");
}
