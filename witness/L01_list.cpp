// Intrusive lists: every history of appends, removals and erasures over a few nodes, checked against the sequence it should produce.
#include <amtl/am-inlinelist.h>
#include "sa.h"
using namespace ke;
struct N : public InlineListNode<N> { int v; };
typedef InlineList<N> L;
enum { K = 4 };
struct S { N* n[K]; int len; };                      // the expected members in order
template <int I = 0> static inline bool has(S& s, N* x) { if constexpr (I < K) { if (I < s.len && s.n[I] == x) return true; return has<I + 1>(s, x); } return false; }
template <int I = 0> static inline void forward(S& s, L& l, L::iterator it) {
    if constexpr (I < K) if (I < s.len) {
        sa_assert(it != l.end() && !(it == l.end()) && *it == s.n[I] && it.operator->() == s.n[I], "forward-order");
        if (I & 1) ++it; else { L::iterator old = it++; sa_assert(*old == s.n[I], "forward-order"); }
        return forward<I + 1>(s, l, it);
    }
    sa_assert(it == l.end() && !(it != l.end()), "forward-order");
}
template <int I = 0> static inline void backward(S& s, L& l, L::reverse_iterator it) {
    if constexpr (I < K) if (I < s.len) {
        N* x = s.n[s.len - 1 - I];
        sa_assert(it != l.rend() && *it == x && it.operator->() == x, "backward-order");
        if (I & 1) ++it; else { L::reverse_iterator old = it++; sa_assert(*old == x, "backward-order"); }
        return backward<I + 1>(s, l, it);
    }
    sa_assert(it == l.rend(), "backward-order");
}
static inline void check(S& s, L& l) {
    sa_assert(l.length() == (size_t)s.len, "length-counts-members");
    sa_assert(l.empty() == (s.len == 0), "empty");
    forward(s, l, l.begin()); backward(s, l, l.rbegin());
}
static inline void member(S& s, N* x) { sa_assert(x->isInList() == has(s, x), "membership-is-reported"); }
template <int I> static inline void drop(S& s, int at) { if constexpr (I + 1 < K) { if (I >= at) s.n[I] = s.n[I + 1]; drop<I + 1>(s, at); } }
static inline int find(S& s, N* x) { return s.n[0] == x ? 0 : s.n[1] == x ? 1 : s.n[2] == x ? 2 : 3; }
template <class It> static inline It at(It it, int i) { if (i > 0) ++it; if (i > 1) ++it; if (i > 2) ++it; return it; }
static inline void toggle(S& s, L& l, N* x) {
    if (!has(s, x)) { l.append(x); s.n[s.len++] = x; return; }
    int i = find(s, x);
    if (sa_bool()) { l.remove(x); s.len--; drop<0>(s, i); }
    else if (sa_bool()) {
        L::iterator it = at(l.begin(), i), nx = l.erase(it);
        s.len--; drop<0>(s, i);
        if (i == s.len) sa_assert(nx == l.end(), "erase-returns-the-following-position"); else sa_assert(*nx == s.n[i], "erase-returns-the-following-position");
    } else {
        L::reverse_iterator it = at(l.rbegin(), s.len - 1 - i), nx = l.erase(it);
        s.len--; drop<0>(s, i);
        if (i == 0) sa_assert(nx == l.rend(), "erase-returns-the-following-position"); else sa_assert(*nx == s.n[i - 1], "erase-returns-the-following-position");
    }
}
static inline void step(S& s, L& l, N* a, N* b, N* c) {
    toggle(s, l, sa_bool() ? a : sa_bool() ? b : c);
    check(s, l); member(s, a); member(s, b); member(s, c);
}
extern "C" void w_history() {
    N a, b, c; S s; s.len = 0;
    sa_assert(!a.isInList(), "membership-is-reported");
    { L l; check(s, l);
      step(s, l, &a, &b, &c); step(s, l, &a, &b, &c); step(s, l, &a, &b, &c); step(s, l, &a, &b, &c); }
    sa_reach("end");
}
// one operation on every list of up to four members, whatever the position
static inline void start(S& s, L& l, N* n0, N* n1, N* n2, N* n3) {
    s.len = 0;
    if (sa_bool()) { l.append(n0); s.n[s.len++] = n0; if (sa_bool()) { l.append(n1); s.n[s.len++] = n1; if (sa_bool()) { l.append(n2); s.n[s.len++] = n2; if (sa_bool()) { l.append(n3); s.n[s.len++] = n3; } } } }
}
extern "C" void w_one() {
    N a, b, c, d; S s;
    { L l; start(s, l, &a, &b, &c, &d);
      check(s, l);
      toggle(s, l, sa_bool() ? &a : sa_bool() ? &b : sa_bool() ? &c : &d);
      check(s, l); member(s, &a); member(s, &b); member(s, &c); member(s, &d); }
    sa_reach("end");
}
// a node leaves one list and joins another
extern "C" void w_two_lists() {
    N a, b, c, d; S s, t; t.len = 0;
    { L l, m; start(s, l, &a, &b, &c, &d);
      sa_assume(s.len > 0);
      N* x = s.n[0];
      if (s.len > 1 && sa_bool()) x = s.n[s.len - 1];
      toggle(s, l, x);
      m.append(x); t.n[t.len++] = x;
      check(s, l); check(t, m);
      if (sa_bool()) { m.remove(x); t.len = 0; l.append(x); s.n[s.len++] = x; check(s, l); check(t, m); } }
    sa_reach("end");
}
// a node can unlink itself
extern "C" void w_self_removal() {
    N a, b, c, d; S s;
    { L l; start(s, l, &a, &b, &c, &d);
      sa_assume(s.len > 0);
      int i = sa_bool() ? 0 : s.len - 1;
      if (s.len > 2 && sa_bool()) i = 1;
      N* x = s.n[i];
      x->removeFromParentList(); s.len--; drop<0>(s, i);
      forward(s, l, l.begin()); backward(s, l, l.rbegin());
      sa_assert(l.empty() == (s.len == 0), "empty");
      member(s, x);
      bool right = l.length() == (size_t)s.len;
      sa_assert(right, "length-after-self-removal"); }
    sa_reach("end");
}
