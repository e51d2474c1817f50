// Vector and deque helpers on the real containers: which elements are where afterwards, each alive once.
#include <assert.h>
#include "sa.h"
#include <amtl/am-deque.h>
#include <amtl/am-vector.h>
#include <utility>
#include <string>
using namespace ke;
static inline uint64_t tok(const Obj& o) { return sa_tok(&o); }
static inline uint64_t tok(const MObj& o) { return sa_mtok(&o); }
template <class C> static inline void fill(C& c, int n, uint64_t first) { for (int i = 0; i < n; i++) c.emplace_back(first + i); }
// the elements of c are exactly these, in order
struct Seq { uint64_t t[12]; size_t n = 0; void add(uint64_t v) { t[n++] = v; } void add(uint64_t first, int k) { for (int i = 0; i < k; i++) add(first + i); } };
template <class C> static inline void same(const C& c, const Seq& s) {
    sa_assert(c.size() == s.n, "exactly-the-elements-named");
    size_t i = 0;
    for (const auto& o : c) { if (i < s.n) sa_assert(tok(o) == s.t[i], "exactly-the-elements-named"); i++; }
}
static inline int pick(int max) { int n = 0; while (n < max && sa_bool()) n++; return n; }

template <class T> static inline void extend() {
    { std::vector<T> d, s; int n = pick(3), m = pick(3); bool room = sa_bool();
      if (room) d.reserve(8);
      if (sa_bool()) s.reserve(6);
      fill(d, n, 10); fill(s, m, 20);
      MoveExtend(&d, &s);
      Seq e; e.add(10, n); e.add(20, m); same(d, e);
      sa_assert(s.empty(), "source-is-emptied");
      s.emplace_back(30); d.emplace_back(31); e.add(31); same(d, e);       // both stay usable
      Seq f; f.add(30); same(s, f); }
    sa_clean("no-leak"); sa_reach("end");
}
template <class C> static inline void back() {
    { C c; int n = 1 + pick(3); fill(c, n, 10);
      auto o(PopBack(&c));
      sa_assert(tok(o) == uint64_t(10 + n - 1), "returns-the-removed-element");
      Seq e; e.add(10, n - 1); same(c, e); }
    sa_clean("no-leak"); sa_reach("end");
}
template <class C> static inline void front() {
    { C c; int n = 1 + pick(3); fill(c, n, 10);
      auto o(PopFront(&c));
      sa_assert(tok(o) == 10, "returns-the-removed-element");
      Seq e; e.add(11, n - 1); same(c, e); }
    sa_clean("no-leak"); sa_reach("end");
}
template <class T> static inline void remove() {
    { std::vector<T> c; int n = 1 + pick(3); fill(c, n, 10);
      int at = pick(n - 1);
      RemoveAt(&c, at);
      Seq e; e.add(10, at); e.add(10 + at + 1, n - at - 1); same(c, e); }
    sa_clean("no-leak"); sa_reach("end");
}
// every way of inserting, at every position, growing or not
template <class T, class F> static inline void insert(F f) {
    { std::vector<T> c; int n = pick(3); if (sa_bool()) c.reserve(5); fill(c, n, 10);
      int at = pick(n);
      f(c, at);
      Seq e; e.add(10, at); e.add(30); e.add(10 + at, n - at); same(c, e); }
    sa_clean("no-leak"); sa_reach("end");
}
template <class T> static inline void erase_if() {
    { std::vector<T> c; int n = pick(4); fill(c, n, 10);
      bool go[4]; Seq e;
      for (int i = 0; i < n; i++) { go[i] = sa_bool(); if (!go[i]) e.add(10 + i); }
      EraseIf(&c, [&](const T& o) { uint64_t t = tok(o); sa_assert(t >= 10 && t < uint64_t(10 + n), "asks-about-members-only"); return go[t - 10]; });
      same(c, e); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" {
void w_extend() { extend<Obj>(); }
void w_extend_moveonly() { extend<MObj>(); }
void w_back() { back<std::vector<Obj>>(); }
void w_back_moveonly() { back<std::vector<MObj>>(); }
void w_deque_back() { back<std::deque<Obj>>(); }
void w_deque_back_moveonly() { back<std::deque<MObj>>(); }
void w_front() { front<std::deque<Obj>>(); }
void w_front_moveonly() { front<std::deque<MObj>>(); }
void w_remove() { remove<Obj>(); }
void w_remove_moveonly() { remove<MObj>(); }
void w_insert_copy() { insert<Obj>([](std::vector<Obj>& c, int at) { Obj o(30); const Obj& r = o; InsertAt(&c, at, r); sa_assert(tok(o) == 30, "copies-a-const-item"); }); }
void w_insert_move() { insert<Obj>([](std::vector<Obj>& c, int at) { Obj o(30); InsertAt(&c, at, std::move(o)); }); }
void w_insert_moveonly() { insert<MObj>([](std::vector<MObj>& c, int at) { MObj o(30); InsertAt(&c, at, std::move(o)); }); }
void w_emplace() { insert<Obj>([](std::vector<Obj>& c, int at) { EmplaceAt(&c, at, uint64_t(30)); }); }
void w_emplace_moveonly() { insert<MObj>([](std::vector<MObj>& c, int at) { EmplaceAt(&c, at, uint64_t(30)); }); }
void w_emplace_object() { insert<Obj>([](std::vector<Obj>& c, int at) { EmplaceAt(&c, at, Obj(30)); }); }
// an element of the vector itself
void w_insert_own() {
    { std::vector<Obj> c; int n = 1 + pick(2); if (sa_bool()) c.reserve(5); fill(c, n, 10);
      int at = pick(n), from = pick(n - 1);
      InsertAt(&c, at, static_cast<const Obj&>(c[from]));
      Seq e; e.add(10, at); e.add(10 + from); e.add(10 + at, n - at); same(c, e); }
    sa_clean("no-leak"); sa_reach("end");
}
void w_erase_if() { erase_if<Obj>(); }
void w_erase_if_moveonly() { erase_if<MObj>(); }
}
