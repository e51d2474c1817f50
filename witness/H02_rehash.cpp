// Growing and shrinking: concrete collision patterns with arbitrary members, through the public operations that trigger a rehash.
#include "small.h"
template <class F, size_t... I> static inline void each(F f, std::index_sequence<I...>) { (f((uint32_t)I), ...); }
template <uint32_t N, class F> static inline void upto(F f) { each(f, std::make_index_sequence<N>()); }
struct S { T t; uint32_t h[32]; uint64_t tok[32]; uint32_t n, d; S() : t(Pol(7)) { upto<32>([&](uint32_t i) { h[i] = 0; }); } };
static inline void live(S& s, uint32_t i, uint32_t h) { uint64_t v = sa_u64(); sa_assume(v < MOVED); put(s.t, i, h, v); s.h[i] = h; s.tok[i] = v; }
// every stored key is still found, with its own payload, in exactly one slot
static inline void intact(S& s) {
    upto<32>([&](uint32_t i) {
        if (s.h[i]) {
            Key k; k.h = s.h[i] * GINV; k.id = s.tok[i];
            T::Result r = s.t.find(k);
            sa_assert(r.found() && sa_tok(&*r) == s.tok[i], "rehash-keeps-every-key");
        }
    });
}
template <uint32_t N> static inline void classes(S& s, uint32_t n, uint32_t d) {
    sa_assert(s.t.capacity_ == N, "capacity");
    uint32_t l = 0, r = 0, f = 0;
    upto<N>([&](uint32_t i) { int c = slot(s.t, i); l += c == LIVE; r += c == REMOVED; f += c == FREE; });
    sa_assert(l == n && r == d, "slots-match-counts");
    sa_assert(s.t.elements() == n && s.t.ndeleted_ == d, "counts");
    sa_assert(f >= 1, "free-slot-left");
}
// 13 of 16 slots used: the next insertion into a free slot grows
static inline void full(S& s) {
    bare<16>(s.t, 16);
    upto<9>([&](uint32_t i) { live(s, i, 32 * (i + 1) + i + (i & 1) * 16); });
    if (sa_bool()) tomb(s.t, 9); else live(s, 9, sa_bool() ? 41 : 57);
    if (sa_bool()) tomb(s.t, 12); else live(s, 12, 0xffffffecu);
    live(s, 15, sa_bool() ? 0xffffffffu : 32 + 15);
    live(s, 10, 64 + 31 - 16);                                   // home 15, wrapped round the end over a full run
    s.n = s.t.nelements_; s.d = s.t.ndeleted_;
}
static inline void insert(S& s, uint32_t kh, uint32_t cap) {
    Key k; k.h = kh * GINV; k.id = sa_u64(); sa_assume(k.id < MOVED);
    T::Insert i = s.t.findForAdd(k);
    sa_assume(!i.found());
    bool ok = s.t.add(i, Obj(k.id));
    sa_assert(ok, "add-succeeds");
    sa_assert(i.found() && sa_tok(&*i) == k.id, "inserted-at-the-insertion-point");
    T::Result r = s.t.find(k);
    sa_assert(r.found() && &*r == &*i, "found-iff-stored");
}
extern "C" void w_grow() {
    { sa_malloc_ok(); S s; full(s);
      bool ok = s.t.checkDensity();
      sa_assert(ok, "rehash-succeeds");
      sa_assert(sa_event("destroy-live") == 0, "rehash-moves-each-payload-once");
      classes<32>(s, s.n, 0); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_add_grow() {
    { sa_malloc_ok(); S s; full(s); insert(s, 13 + 16, 32);
      classes<32>(s, s.n + 1, 0); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
// below the threshold nothing moves
extern "C" void w_no_grow() {
    { sa_malloc_ok(); S s; bare<16>(s.t, 16);
      upto<11>([&](uint32_t i) { live(s, i, 32 + i); });
      if (sa_bool()) { tomb(s.t, 11); }
      s.n = s.t.nelements_; s.d = s.t.ndeleted_;
      E* e = s.t.table_;
      insert(s, 64 + 13, 16);
      sa_assert(s.t.table_ == e, "no-needless-rehash");
      classes<16>(s, s.n + 1, s.d); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
// 5 of 32 used: the next insertion into a free slot shrinks, unless the initial capacity forbids it
static inline void sparse(S& s, uint32_t min) {
    bare<32>(s.t, min);
    live(s, 5, 32 + 5); live(s, 21, 64 + 21);                    // both start at 5 in the smaller table
    live(s, 31, 31);
    if (sa_bool()) live(s, 15, 96 + 15); else tomb(s.t, 20);
    if (sa_bool()) live(s, 0, 63);                               // home 31, wrapped
    s.n = s.t.nelements_; s.d = s.t.ndeleted_;
}
extern "C" void w_shrink() {
    { sa_malloc_ok(); S s; sparse(s, 16);
      bool ok = s.t.checkDensity();
      sa_assert(ok, "rehash-succeeds");
      sa_assert(sa_event("destroy-live") == 0, "rehash-moves-each-payload-once");
      classes<16>(s, s.n, 0); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_add_shrink() {
    { sa_malloc_ok(); S s; sparse(s, 16); insert(s, 128 + 5, 16);
      classes<16>(s, s.n + 1, 0); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_add_keeps_initial_capacity() {
    { sa_malloc_ok(); S s; sparse(s, 32); insert(s, 128 + 6, 32);
      classes<32>(s, s.n + 1, s.d); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
// removing and inserting again re-uses the slot
extern "C" void w_remove_add() {
    { sa_malloc_ok(); S s; bare<16>(s.t, 16);
      live(s, 3, 19); live(s, 4, 35); tomb(s.t, 5);
      s.n = s.t.nelements_; s.d = s.t.ndeleted_;
      Key k; k.h = 19 * GINV; k.id = s.tok[3];
      sa_assume(s.tok[4] != s.tok[3]);
      s.t.removeIfExists(k); s.h[3] = 0;
      classes<16>(s, s.n - 1, s.d + 1); intact(s);
      insert(s, 51, 16);
      classes<16>(s, s.n, s.d); intact(s); }
    sa_clean("no-leak"); sa_reach("end");
}
// a table built and filled through the public interface alone
extern "C" void w_public() {
    { sa_malloc_ok(); T t(Pol(7));
      sa_assert(t.init(), "init");
      sa_assert(t.elements() == 0, "counts");
      Key a, b; a.h = 3 * GINV; b.h = sa_bool() ? 3 * GINV : 5 * GINV; a.id = sa_u64(); b.id = sa_u64();
      sa_assume(a.id < MOVED && b.id < MOVED && a.id != b.id);
      T::Insert i = t.findForAdd(a); sa_assert(!i.found(), "found-iff-stored"); sa_assert(t.add(i, Obj(a.id)), "add-succeeds");
      T::Insert j = t.findForAdd(b); sa_assert(!j.found(), "found-iff-stored"); sa_assert(t.add(j, Obj(b.id)), "add-succeeds");
      sa_assert(t.elements() == 2, "counts");
      t.removeIfExists(a);
      sa_assert(t.elements() == 1 && !t.find(a).found() && t.find(b).found(), "found-iff-stored");
      T::Insert k = t.findForAdd(b); sa_assert(k.found(), "found-iff-stored");
      if (sa_bool()) { t.clear(); sa_assert(t.elements() == 0 && !t.find(b).found(), "found-iff-stored"); } }
    sa_clean("no-leak"); sa_reach("end");
}
// a default-constructed payload
extern "C" void w_add_default() {
    { sa_malloc_ok(); S s; bare<16>(s.t, 16);
      tomb(s.t, 3);
      Key k; k.h = 19 * GINV; k.id = sa_u64();
      T::Insert i = s.t.findForAdd(k);
      sa_assert(!i.found() && s.t.add(i) && i.found(), "add-succeeds");
      classes<16>(s, 1, 0); }
    sa_clean("no-leak"); sa_reach("end");
}
// a table whose storage was taken is empty and can be used again
extern "C" void w_reinit() {
    { sa_malloc_ok(); S s; bare<16>(s.t, 16); live(s, 3, 19); tomb(s.t, 5);
      T u(std::move(s.t));
      sa_assert(u.elements() == 1 && u.ndeleted_ == 1 && s.t.elements() == 0, "counts");
      sa_assert(s.t.init(), "add-succeeds");
      Key k; k.h = 19 * GINV; k.id = s.tok[3];
      sa_assert(!s.t.find(k).found() && u.find(k).found(), "found-iff-stored");
      T::Insert i = s.t.findForAdd(k);
      sa_assert(!i.found() && s.t.add(i, Obj(k.id)), "add-succeeds");
      classes<16>(s, 1, 0); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_clear_small() {
    { sa_malloc_ok(); S s; bare<16>(s.t, 16); live(s, 3, 19); if (sa_bool()) live(s, 4, 35); tomb(s.t, 5); tomb(s.t, 0);
      s.t.clear(); upto<32>([&](uint32_t i) { s.h[i] = 0; });
      classes<16>(s, 0, 0);
      insert(s, 51, 16);
      classes<16>(s, 1, 0); }
    sa_clean("no-leak"); sa_reach("end");
}
