// Whole-table operations, for every capacity, seen from one arbitrary slot.
#include "table.h"
#define SETUP() size_t k = sa_size(); sa_witness(k, sizeof(E)); sa_malloc_ok(); T t(Pol(7)); Snap s; any_table(t, s, k)
extern "C" void w_destroy() {
    { SETUP(); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_clear() {
    { SETUP(); t.clear();
      sa_assert(slot(t, k) == FREE, "cleared-slots-are-free");
      sa_assert(t.elements() == 0 && t.ndeleted_ == 0 && t.capacity_ == s.cap, "counts"); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_move() {
    { SETUP();
      T u(std::move(t));
      sa_assert(slot(u, k) == s.st && u.elements() == s.n && u.ndeleted_ == s.d && u.capacity_ == s.cap, "move-keeps-contents");
      if (s.st == LIVE) sa_assert(sa_tok(&u.table_[k].t_) == s.tok, "move-keeps-contents");
      sa_assert(t.elements() == 0, "moved-from-is-empty"); }
    sa_clean("no-leak"); sa_reach("end");
}
