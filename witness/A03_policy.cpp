// A policy with identity in every container: where memory comes from, where it goes back to, which object the accessor names.
#include <assert.h>
#include <utility>
#include <amtl/am-fixedarray.h>
#include <amtl/am-hashtable.h>
#include <amtl/am-hashmap.h>
#include <amtl/am-hashset.h>
#include "pol.h"
using namespace ke;
static const uint32_t GINV = 0x144cbc89u;
struct Key { uint32_t h; uint64_t id; };
struct HP {
    typedef Obj Payload;
    static uint32_t hash(const Key& k) { return k.h; }
    static bool matches(const Key& k, const Obj& o) { return sa_tok(&o) == k.id; }
};
typedef FixedArray<Obj, Pol> A;
typedef HashTable<HP, Pol> T;
typedef HashMap<Obj, MObj, HP, Pol> M;
typedef HashSet<Obj, HP, Pol> U;
extern "C" void w_array_policy() {
    { uint64_t p = sa_u64(), q = sa_u64(); sa_malloc_ok();
      A a(2, Pol(p)); sa_assert(sa_lastowner() == p, "uses-the-given-policy");
      A b(3, Pol(q)); sa_assert(sa_lastowner() == q, "uses-the-given-policy");
      A c(a); sa_assert(sa_lastowner() == p, "copy-takes-the-policy-along");
      A d(std::move(a));
      a = b;                                      // the emptied array keeps working
      b = std::move(d);
      c = c; }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_array_copy_assign() {
    { uint64_t p = sa_u64(), q = sa_u64(); sa_malloc_ok();
      A a(2, Pol(p)), b(3, Pol(q));
      if (sa_bool()) a = b; else b = std::move(a);
      if (sa_bool()) { a = std::move(b); } else { A c(b); c = a; } }
    sa_clean("no-leak"); sa_reach("end");
}
template <class C> static inline void carries() {
    { uint64_t p = sa_u64(), q = sa_u64(); sa_malloc_ok();
      C c{Pol(p)};
      const C& cc = c;
      sa_assert(c.allocPolicy().id == p && cc.allocPolicy().id == p, "accessor-returns-the-given-policy");
      sa_assert(&c.allocPolicy() == &cc.allocPolicy(), "accessor-returns-the-given-policy");
      if (sa_bool()) { c.allocPolicy().id = q; p = q; }
      sa_assert(c.init() && sa_lastowner() == p, "uses-the-given-policy");
      if (sa_bool()) { C d(std::move(c)); sa_assert(d.allocPolicy().id == p, "policy-moves-with-the-memory"); sa_reach("moved"); } }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_table_policy() { carries<T>(); }
extern "C" void w_map_policy() { carries<M>(); }
extern "C" void w_set_policy() { carries<U>(); }
// memory passes through growth and shrinkage and comes back
extern "C" void w_table_grow() {
    { uint64_t p = sa_u64(); sa_malloc_ok();
      T c{Pol(p)};
      sa_assert(c.init(), "init");
      c.nelements_ = 0; c.ndeleted_ = 13;
      sa_assert(c.checkDensity() && sa_lastowner() == p && c.capacity_ == 32, "uses-the-given-policy");
      if (sa_bool()) { sa_assert(c.checkDensity() && sa_lastowner() == p && c.capacity_ == 16, "uses-the-given-policy"); }
      if (sa_bool()) c.clear(); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_map_use() {
    { uint64_t p = sa_u64(); sa_malloc_ok();
      M m{Pol(p)};
      sa_assert(m.init(32), "init");
      Key k; k.h = 5; k.id = 1;
      auto i = m.findForAdd(k); sa_assert(m.add(i, Obj(1), MObj(2)), "add");
      M n(std::move(m));
      sa_assert(n.find(k).found() && n.elements() == 1 && m.elements() == 0, "moves");
      if (sa_bool()) { n.removeIfExists(k); sa_assert(n.elements() == 0, "moves"); }
      if (sa_bool()) { auto r = n.find(k); if (r.found()) { n.remove(r); sa_assert(n.elements() == 0, "moves"); } } }
    sa_clean("no-leak"); sa_reach("end");
}
