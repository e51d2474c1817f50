// Hash tables whose allocator may fail at every request.
#include "small.h"
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
template <class F, size_t... I> static inline void each(F f, std::index_sequence<I...>) { (f((uint32_t)I), ...); }
template <uint32_t N, class F> static inline void upto(F f) { each(f, std::make_index_sequence<N>()); }
// any capacity asked for is either provided or refused
extern "C" void w_init() {
    {
        T t(Pol(7));
        size_t c = sa_bool() ? sa_u64() : 16;
        sa_pow2(c);
        bool big = c > (size_t)INT_MAX / sizeof(E);
        sa_assume(big || c == 0 || c == 16 || c == 32);
        bool ok = t.init(c);
        if (big) sa_assert(!ok && sa_event("overflow") == 1 && sa_event("alloc") == 0, "overflow-is-refused");
        else sa_assert(ok == (sa_event("alloc") == 1) && sa_event("overflow") == 0, "failure-is-reported");
        sa_assert(t.elements() == 0, "counts");
        if (!ok) {
            sa_assert(sa_event("alloc") == 0, "failure-is-reported");
            T::iterator it(&t);
            sa_assert(it.empty(), "failed-table-is-empty");
            if (sa_bool()) t.clear();
            if (sa_bool()) {
                sa_malloc_ok();
                sa_assert(t.init(), "recovers");
                Key k; k.h = 5; k.id = 1;
                T::Insert i = t.findForAdd(k);
                sa_assert(!i.found() && t.add(i, Obj(1)) && t.elements() == 1, "recovers");
            }
        } else {
            sa_assert(t.estimateMemoryUse() >= c * sizeof(E), "capacity");
        }
    }
    sa_clean("no-leak"); sa_reach("end");
}
struct S { T t; uint32_t h[32]; uint64_t tok[32]; uint32_t n, d; S() : t(Pol(7)) { upto<32>([&](uint32_t i) { h[i] = 0; }); } };
static inline void live(S& s, uint32_t i, uint32_t h) { uint64_t v = sa_u64(); sa_assume(v < MOVED); put(s.t, i, h, v); s.h[i] = h; s.tok[i] = v; }
template <uint32_t N> static inline void untouched(S& s, E* tab) {
    sa_assert(s.t.table_ == tab && s.t.capacity_ == N && s.t.elements() == s.n && s.t.ndeleted_ == s.d, "failed-growth-changes-nothing");
    upto<N>([&](uint32_t i) {
        if (s.h[i]) sa_assert(s.t.table_[i].hash_ == s.h[i] && sa_tok(&s.t.table_[i].t_) == s.tok[i], "failed-growth-changes-nothing");
    });
}
template <uint32_t N> static inline void grow_fails(S& s, uint32_t kh) {
    s.n = s.t.nelements_; s.d = s.t.ndeleted_;
    E* tab = s.t.table_;
    uint64_t fails = sa_event("alloc-failed");
    Key k; k.h = kh * GINV; k.id = sa_u64(); sa_assume(k.id < MOVED);
    T::Insert i = s.t.findForAdd(k);
    sa_assert(!i.found(), "found-iff-stored");
    bool ok = s.t.add(i, Obj(k.id));
    sa_assert(ok == (sa_event("alloc-failed") == fails), "failure-is-reported");
    if (!ok) {
        sa_reach("failed");
        untouched<N>(s, tab);
        sa_assert(!s.t.find(k).found(), "failed-growth-changes-nothing");
        if (sa_bool()) { sa_malloc_ok(); sa_assert(s.t.add(i, Obj(k.id)) && s.t.find(k).found(), "recovers"); }
    } else sa_assert(s.t.find(k).found(), "found-iff-stored");
}
extern "C" void w_grow_fails() {
    { S s; bare<16>(s.t, 16);
      upto<11>([&](uint32_t i) { live(s, i, 32 + i); });
      tomb(s.t, 12); tomb(s.t, 14);
      grow_fails<16>(s, 64 + 15); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_shrink_fails() {
    { S s; bare<32>(s.t, 16);
      live(s, 5, 37); live(s, 21, 53); tomb(s.t, 8);
      grow_fails<32>(s, 64 + 15); }
    sa_clean("no-leak"); sa_reach("end");
}
// wrappers: a refused addition loses nothing
struct MP { static uint32_t hash(const Key& k) { return k.h; } static bool matches(const Key& k, const Obj& o) { return sa_tok(&o) == k.id; } };
extern "C" void w_map() {
    { HashMap<Obj, MObj, MP, Pol> m(Pol(7));
      Key k; k.h = 5; k.id = 1;
      if (m.init()) {
          auto i = m.findForAdd(k);
          sa_assert(!i.found() && m.add(i, Obj(1), MObj(2)) && m.elements() == 1, "failure-is-reported");
          sa_assert(sa_tok(&i->key) == 1 && sa_mtok(&i->value) == 2, "stored");
          sa_reach("stored");
      } else { sa_assert(m.elements() == 0, "failure-is-reported"); sa_reach("refused"); } }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_set() {
    { HashSet<Obj, MP, Pol> m(Pol(7));
      Key k; k.h = 5; k.id = 1;
      if (m.init()) {
          auto i = m.findForAdd(k);
          sa_assert(!i.found() && m.add(i, Obj(1)) && m.elements() == 1 && m.has(k), "failure-is-reported");
          sa_reach("stored");
      } else { sa_assert(m.elements() == 0, "failure-is-reported"); sa_reach("refused"); } }
    sa_clean("no-leak"); sa_reach("end");
}
