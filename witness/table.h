// An arbitrary hash table satisfying the representation invariant, with one arbitrary slot k tracked exactly.
#pragma once
#include <assert.h>
#include <utility>
#include <amtl/am-hashtable.h>
#include "pol.h"
using namespace ke;
struct Key { uint32_t h; uint64_t id; };
struct HP {
    typedef Obj Payload;
    static uint32_t hash(const Key& k) { return k.h; }
    static bool matches(const Key& k, const Obj& o) { return sa_tok(&o) == k.id; }
};
typedef HashTable<HP, Pol> T;
typedef T::Entry E;
enum { FREE = 0, REMOVED = 1, LIVE = 2 };
struct Snap { size_t cap, k; int st; uint32_t hash; uint64_t tok; uint32_t n, d; };
static inline int cls(uint32_t h) { return h == 0 ? FREE : h == 1 ? REMOVED : LIVE; }
// capacity 4q for a power of two; at least one free slot
static inline void any_table(T& t, Snap& s, size_t k, size_t maxq = 0x1000000) {
    size_t q = sa_u32();
    sa_assume(q >= 4 && q <= maxq);
    s.cap = 4 * q; s.k = k;
    sa_pow2(4 * q); sa_pow2(8 * q); sa_pow2(2 * q); sa_pow2(q);
    sa_assume(k < s.cap);
    t.capacity_ = s.cap;
    size_t m = sa_bool() ? s.cap : 16;
    t.minCapacity_ = m;
    t.table_ = (E*)pol_malloc(t.allocPolicy().id, s.cap * sizeof(E));
    sa_assume(t.table_ != nullptr);
    sa_selfhash(t.table_);
    s.st = sa_int(); sa_assume(s.st >= 0 && s.st <= 2);
    s.hash = 0; s.tok = 0;
    E& e = t.table_[k];
    if (s.st == FREE) { e.hash_ = 0; }
    else if (s.st == REMOVED) { e.hash_ = 1; s.hash = 1; }
    else { s.hash = sa_u32(); sa_assume(s.hash >= 2); s.tok = s.hash; e.hash_ = s.hash; new (&e.t_) Obj(s.tok); }
    s.n = sa_u32(); s.d = sa_u32();
    sa_assume(s.n <= s.cap && s.d <= s.cap && s.n + s.d <= s.cap - 1);
    sa_assume((s.st != LIVE || s.n >= 1) && (s.st != REMOVED || s.d >= 1) && (s.st != FREE || true));
    t.nelements_ = s.n; t.ndeleted_ = s.d;
}
static inline int slot(T& t, size_t k) { return cls(t.table_[k].hash_); }
