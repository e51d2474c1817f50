// Adding to, removing from and checking a table of any capacity and any counts, when no other table can be had: what is asked
// for, what is counted, and that a slot stays free.
#include "pol.h"
static uint64_t asked, times;
struct NoMem : Pol { NoMem() {} explicit NoMem(uint64_t i) : Pol(i) {} void* am_malloc(size_t n) { asked = n; times++; return nullptr; } };
#define Pol NoMem
#include "table.h"
#undef Pol
#define SETUP() size_t k = sa_size(); sa_witness(k, sizeof(E)); sa_malloc_ok(); T t(NoMem(7)); Snap s; any_table(t, s, k); asked = times = 0
static inline void only_doubles_or_halves(T& t, Snap& s) {
    sa_assert(times <= 1, "grows-or-shrinks-once");
    if (times) {
        bool twice = asked == 2 * s.cap * sizeof(E), half = 2 * asked == s.cap * sizeof(E);
        sa_assert(twice || half, "doubles-or-halves");
        if (half) sa_assert(s.cap / 2 >= t.minCapacity_, "never-below-the-initial-capacity");
    }
}
extern "C" void w_add_free() {
    { SETUP();
      sa_assume(s.st == FREE);
      uint32_t h = sa_u32(); sa_assume(h >= 2);
      T::Insert i(&t.table_[k], h);
      bool ok = t.add(i, Obj((uint64_t)h));
      only_doubles_or_halves(t, s);
      sa_assert(t.capacity_ == s.cap && t.ndeleted_ == s.d, "counts");
      if (ok) {
          sa_assert(times == 0 && t.nelements_ == s.n + 1, "counts");
          sa_assert((uint64_t)s.n + 1 + s.d <= s.cap - 1, "free-slot-left");
          sa_assert(slot(t, k) == LIVE, "counts");
          sa_reach("added");
      } else {
          sa_assert(t.nelements_ == s.n && slot(t, k) == FREE, "counts");
          sa_reach("refused");
      }
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_add_removed() {
    { SETUP();
      sa_assume(s.st == REMOVED);
      uint32_t h = sa_u32(); sa_assume(h >= 2);
      T::Insert i(&t.table_[k], h);
      bool ok = t.add(i, Obj((uint64_t)h));
      only_doubles_or_halves(t, s);
      sa_assert(t.capacity_ == s.cap, "counts");
      if (ok) sa_assert(t.nelements_ == s.n + 1 && t.ndeleted_ == s.d - 1 && slot(t, k) == LIVE, "counts");
      else sa_assert(t.nelements_ == s.n && t.ndeleted_ == s.d && slot(t, k) == REMOVED, "counts");
      sa_reach("end"); }
    sa_clean("no-leak");
}
extern "C" void w_remove() {
    { SETUP();
      sa_assume(s.st == LIVE);
      T::Result r(&t.table_[k]);
      t.remove(r);
      sa_assert(t.nelements_ == s.n - 1 && t.ndeleted_ == s.d + 1 && t.capacity_ == s.cap && slot(t, k) == REMOVED, "counts");
      sa_reach("end"); }
    sa_clean("no-leak");
}
extern "C" void w_check() {
    { SETUP();
      bool ok = t.checkDensity();
      only_doubles_or_halves(t, s);
      sa_assert(t.capacity_ == s.cap && t.nelements_ == s.n && t.ndeleted_ == s.d && slot(t, k) == s.st, "counts");
      if (ok) { sa_assert((uint64_t)s.n + s.d + 1 <= s.cap - 1, "free-slot-left"); sa_reach("kept"); } else sa_reach("refused"); }
    sa_clean("no-leak"); sa_reach("end");
}
