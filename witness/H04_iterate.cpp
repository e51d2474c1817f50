// Iteration over a table of 4 slots with arbitrary content, with and without erasing.
#include "small.h"
template <class F, size_t... I> static inline void each(F f, std::index_sequence<I...>) { (f((uint32_t)I), ...); }
template <uint32_t N, class F> static inline void upto(F f) { each(f, std::make_index_sequence<N>()); }
template <uint32_t N> static inline void walk(bool erasing) {
    { sa_malloc_ok(); T t(Pol(7)); bare<N>(t, 16);
      int c[N]; uint64_t tok[N]; uint32_t seen[N]; bool gone[N];
      upto<N>([&](uint32_t i) {
          seen[i] = 0; gone[i] = false; tok[i] = 0;
          c[i] = sa_bool() ? FREE : sa_bool() ? REMOVED : LIVE;
          if (c[i] == REMOVED) tomb(t, i);
          if (c[i] == LIVE) { tok[i] = sa_u64(); sa_assume(tok[i] < MOVED); uint32_t h = sa_u32(); sa_assume(h >= 2); put(t, i, h, tok[i]); }
      });
      uint32_t n = t.nelements_, d = t.ndeleted_, left = n;
      T::iterator it(&t);
      // as many steps as there are entries
      upto<N>([&](uint32_t j) {
          if (left) {
              sa_assert(!it.empty(), "no-entry-skipped");
              size_t at = (E*)((char*)&*it - offsetof(E, t_)) - t.table_;
              sa_assert(at < N && c[at] == LIVE && &*it == it.operator->(), "yields-stored-entries");
              seen[at]++;
              if (erasing && sa_bool()) { it.erase(); gone[at] = true; n--; d++; }
              it.next();
              left--;
          }
      });
      sa_assert(it.empty(), "ends-after-the-last-entry");
      upto<N>([&](uint32_t i) {
          sa_assert(seen[i] == (c[i] == LIVE ? 1 : 0), "each-entry-exactly-once");
          sa_assert(slot(t, i) == (gone[i] ? REMOVED : c[i]), "erase-removes-only-the-current-entry");
          if (slot(t, i) == LIVE) sa_assert(sa_tok(&t.table_[i].t_) == tok[i], "erase-removes-only-the-current-entry");
      });
      sa_assert(t.elements() == n && t.ndeleted_ == d, "counts"); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_iterate4() { walk<4>(false); }
extern "C" void w_erase4() { walk<4>(true); }
extern "C" void w_iterate5() { walk<5>(false); }
