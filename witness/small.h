// Hash tables of a fixed small capacity whose whole content is arbitrary.
#pragma once
#include <assert.h>
#include <utility>
#include <amtl/am-hashtable.h>
#include "pol.h"
using namespace ke;
static const uint32_t GINV = 0x144cbc89u;              // inverse of the multiplier 0x9E3779B9 modulo 2^32
struct Key { uint32_t h; uint64_t id; };
struct HP {
    typedef Obj Payload;
    static uint32_t hash(const Key& k) { return k.h; }
    static bool matches(const Key& k, const Obj& o) { return sa_tok(&o) == k.id; }
};
typedef HashTable<HP, Pol> T;
typedef T::Entry E;
enum { FREE = 0, REMOVED = 1, LIVE = 2 };
static inline int cls(uint32_t h) { return h == 0 ? FREE : h == 1 ? REMOVED : LIVE; }
static inline int slot(T& t, uint32_t i) { return cls(t.table_[i].hash_); }
template <uint32_t N, uint32_t I = 0> static inline void freeall(T& t) { if constexpr (I < N) { t.table_[I].hash_ = 0; freeall<N, I + 1>(t); } }
template <uint32_t N> static inline void bare(T& t, uint32_t min) {
    t.capacity_ = N; t.minCapacity_ = min; t.nelements_ = t.ndeleted_ = 0;
    t.table_ = (E*)pol_malloc(t.allocPolicy().id, N * sizeof(E));
    sa_assume(t.table_ != nullptr);
    freeall<N>(t);
}
static inline void put(T& t, uint32_t i, uint32_t hash, uint64_t tok) { t.table_[i].hash_ = hash; new (&t.table_[i].t_) Obj(tok); t.nelements_++; }
static inline void tomb(T& t, uint32_t i) { t.table_[i].hash_ = 1; t.ndeleted_++; }
