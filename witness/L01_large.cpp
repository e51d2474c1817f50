// Large lists: filled, thinned from both ends and the middle, cleared and filled again.
#include <amtl/am-inlinelist.h>
#include "sa.h"
using namespace ke;
struct N : public InlineListNode<N> { unsigned v; };
typedef InlineList<N> L;
enum { K = 130 };
// the members are exactly the nodes with keep(v), in rising order
template <class F> static inline void are(L& l, N* n, F keep) {
    size_t count = 0;
    L::iterator it = l.begin();
    for (unsigned i = 0; i < K; i++) {
        sa_assert(n[i].isInList() == keep(i), "membership-is-reported");
        if (!keep(i)) continue;
        sa_assert(it != l.end() && *it == &n[i], "forward-order");
        ++it; count++;
    }
    sa_assert(it == l.end(), "forward-order");
    sa_assert(l.length() == count && l.empty() == (count == 0), "length-counts-members");
    L::reverse_iterator rt = l.rbegin();
    for (unsigned i = K; i-- > 0;) {
        if (!keep(i)) continue;
        sa_assert(rt != l.rend() && *rt == &n[i], "backward-order");
        ++rt;
    }
    sa_assert(rt == l.rend(), "backward-order");
}
extern "C" void w_large() {
    static N n[K];
    {
        for (unsigned i = 0; i < K; i++) { new (&n[i]) N(); n[i].v = i; }
        L l;
        for (unsigned i = 0; i < K; i++) l.append(&n[i]);
        are(l, n, [](unsigned) { return true; });
        for (unsigned i = 0; i < K; i += 3) l.remove(&n[i]);
        are(l, n, [](unsigned i) { return i % 3 != 0; });
        for (L::iterator it = l.begin(); it != l.end();) { if (it->v % 3 == 1) it = l.erase(it); else ++it; }
        are(l, n, [](unsigned i) { return i % 3 == 2; });
        for (L::reverse_iterator it = l.rbegin(); it != l.rend();) { if (it->v % 2) it = l.erase(it); else ++it; }
        are(l, n, [](unsigned i) { return i % 6 == 2; });
        for (unsigned i = 0; i < K; i++) if (n[i].isInList()) l.remove(&n[i]);
        are(l, n, [](unsigned) { return false; });
        for (unsigned i = 0; i < K; i++) l.append(&n[i]);
        are(l, n, [](unsigned) { return true; });
        for (unsigned i = 0; i < K; i++) l.remove(&n[K - 1 - i]);
        are(l, n, [](unsigned) { return false; });
    }
    sa_reach("end");
}
