// Searching, inserting and removing in a table of 4 slots with arbitrary content, for every home slot.
#include "small.h"
struct S { T t; Key key; uint32_t kh; int x; int c[4]; uint32_t h[4]; uint64_t tok[4]; uint32_t n, d; S() : t(Pol(7)) {} };
// x is the slot holding the key searched for (4: not stored); slots are filled in probe order from the home slot
template <uint32_t J> static inline void fill_from(S& s, bool before) {
    if constexpr (J < 4) {
        uint32_t i = (s.kh + J) & 3;
        s.h[i] = 0; s.tok[i] = 0;
        if (s.x == (int)i) {
            put(s.t, i, s.kh, s.key.id); s.h[i] = s.kh; s.tok[i] = s.key.id; s.c[i] = LIVE; before = false;
        } else {
            s.c[i] = sa_bool() ? REMOVED : !before && sa_bool() ? FREE : LIVE;
            if (s.c[i] == REMOVED) tomb(s.t, i);
            if (s.c[i] == LIVE) {
                uint64_t tok = sa_u64();
                sa_assume(tok < MOVED);
                uint32_t h = s.kh;
                if (sa_bool()) { h = sa_u32(); sa_assume(h >= 2 && h != s.kh); }
                else { sa_assume(tok != s.key.id); }
                put(s.t, i, h, tok); s.h[i] = h; s.tok[i] = tok;
            }
        }
        fill_from<J + 1>(s, before);
    }
}
static inline void fill(S& s, uint32_t raw, uint32_t kh) {
    s.key.h = raw; s.key.id = sa_u64(); s.kh = kh;
    sa_assume(s.key.id < MOVED);
    sa_malloc_ok();
    bare<4>(s.t, 16);
    s.x = sa_bool() ? 4 : sa_bool() ? 0 : sa_bool() ? 1 : sa_bool() ? 2 : 3;
    fill_from<0>(s, s.x < 4);
    s.n = s.t.nelements_; s.d = s.t.ndeleted_;
    sa_assume(s.n + s.d <= 3);
}
template <uint32_t I = 0> static inline void same(S& s, uint32_t but) {
    if constexpr (I < 4) {
        if (I != but) {
            sa_assert(s.t.table_[I].hash_ == (s.c[I] == FREE ? 0 : s.c[I] == REMOVED ? 1 : s.h[I]), "other-slots-unchanged");
            if (s.c[I] == LIVE) sa_assert(sa_tok(&s.t.table_[I].t_) == s.tok[I], "other-payloads-unchanged");
        }
        same<I + 1>(s, but);
    }
}
template <uint32_t J = 0> static inline uint32_t target(S& s, uint32_t at = 9) {
    if constexpr (J < 4) {
        uint32_t i = (s.kh + J) & 3;
        if (s.c[i] == REMOVED && at == 9) at = i;
        if (s.c[i] == FREE) return at == 9 ? i : at;
        return target<J + 1>(s, at);
    }
    return at;
}
static inline void find(uint32_t raw, uint32_t kh) {
    { S s; fill(s, raw, kh);
      T::Result r = s.t.find(s.key);
      sa_assert(r.found() == (s.x < 4), "found-iff-stored");
      if (s.x < 4) sa_assert(&*r == &s.t.table_[s.x].t_, "finds-the-matching-entry");
      same(s, 9); sa_assert(s.t.elements() == s.n && s.t.ndeleted_ == s.d, "search-changes-nothing"); }
    sa_clean("no-leak"); sa_reach("end");
}
static inline void add(uint32_t raw, uint32_t kh) {
    { S s; fill(s, raw, kh);
      T::Insert r = s.t.findForAdd(s.key);
      sa_assert(r.found() == (s.x < 4), "found-iff-stored");
      if (s.x < 4) sa_assert(&*r == &s.t.table_[s.x].t_, "finds-the-matching-entry");
      else {
          // the first removed slot on the path, else the free slot that ends it
          uint32_t at = target(s);
          uint64_t v = sa_u64();
          sa_assume(v < MOVED);
          bool tomb = s.c[at] == REMOVED;
          // a fresh slot is only taken while the table is at most three quarters used
          sa_assume(tomb || s.n + s.d <= 2);
          bool ok = s.t.add(r, Obj(v));
          sa_assert(ok && s.t.capacity_ == 4, "add-succeeds");
          E& e = s.t.table_[at];
          sa_assert(e.hash_ == kh, "stored-hash-is-the-key-hash");
          sa_assert(slot(s.t, at) == LIVE && sa_tok(&e.t_) == v && &*r == &e.t_, "inserted-at-the-insertion-point");
          sa_assert(s.t.elements() == s.n + 1 && s.t.ndeleted_ == s.d - (tomb ? 1 : 0), "counts");
          same(s, at);
      } }
    sa_clean("no-leak"); sa_reach("end");
}
static inline void removal(uint32_t raw, uint32_t kh) {
    { S s; fill(s, raw, kh);
      if (sa_bool()) s.t.removeIfExists(s.key);
      else { sa_assume(s.x < 4); T::Result r = s.t.find(s.key); s.t.remove(r); }
      if (s.x < 4) {
          sa_assert(slot(s.t, s.x) == REMOVED, "removed-slot-keeps-a-marker");
          sa_assert(s.t.elements() == s.n - 1 && s.t.ndeleted_ == s.d + 1, "counts");
          sa_assert(!s.t.find(s.key).found(), "removed-key-is-gone");
      } else sa_assert(s.t.elements() == s.n && s.t.ndeleted_ == s.d, "counts");
      same(s, s.x); }
    sa_clean("no-leak"); sa_reach("end");
}
#define W(NAME, RAW, KH) \
    extern "C" void w_find_##NAME() { find(RAW, KH); } \
    extern "C" void w_add_##NAME() { add(RAW, KH); } \
    extern "C" void w_remove_##NAME() { removal(RAW, KH); }
W(home0, 4u * GINV, 4) W(home1, 5u * GINV, 5) W(home2, 6u * GINV, 6) W(home3, 7u * GINV, 7)
W(wrap, 0xffffffffu * GINV, 0xffffffffu)
W(zero, 0u, 2) W(one, GINV, 3)
