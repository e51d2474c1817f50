// A table of the largest capacity is not grown any further.
#include "table.h"
extern "C" void w_limit() {
    {
        size_t k = sa_size(); sa_witness(k, sizeof(E));
        T t(Pol(7)); Snap s; any_table(t, s, k);
        sa_assume(t.table_ != nullptr);
        sa_assume(s.cap == 0x4000000 && s.n + s.d > 0x3000000);
        uint64_t al = sa_event("alloc");
        bool ok = t.checkDensity();
        sa_assert(!ok && sa_event("overflow") == 1 && sa_event("alloc") == al, "overflow-is-refused");
        sa_assert(slot(t, k) == s.st && t.elements() == s.n && t.ndeleted_ == s.d && t.capacity_ == s.cap, "failed-growth-changes-nothing");
    }
    sa_clean("no-leak"); sa_reach("end");
}
