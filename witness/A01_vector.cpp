// Fixed arrays built from a std::vector. The vector is replaced by a specialisation that says exactly what the standard
// promises about size() and operator[]: n live elements.
#include <assert.h>
#include <utility>
#include <vector>
#include "sa.h"
struct W {};
namespace std {
template <> class vector<Obj, W> {
  public:
    Obj* p_; size_t n_;
    size_t size() const { return n_; }
    Obj& operator[](size_t i) { return p_[i]; }
    const Obj& operator[](size_t i) const { return p_[i]; }
    Obj& at(size_t i) { sa_assume(i < n_); return p_[i]; }
    const Obj& at(size_t i) const { sa_assume(i < n_); return p_[i]; }
    Obj* begin() { return p_; }
    Obj* end() { return p_ + n_; }
    const Obj* begin() const { return p_; }
    const Obj* end() const { return p_ + n_; }
    Obj* data() { return p_; }
    const Obj* data() const { return p_; }
    bool empty() const { return n_ == 0; }
};
}
#include <amtl/am-fixedarray.h>
#include "pol.h"
using namespace ke;
typedef FixedArray<Obj> A;
static Obj* make(size_t n) { Obj* p = (Obj*)pol_malloc(9, n * sizeof(Obj)); for (size_t i = 0; i < n; i++) new (&p[i]) Obj(); return p; }
static void done(Obj* p, size_t n) { for (size_t i = 0; i < n; i++) p[i].~Obj(); pol_free(9, p); }
#define SETUP() size_t n = sa_size(), k = sa_size(); sa_assume(n <= 0x1000000000 && k < n); sa_witness(k, sizeof(Obj)); sa_malloc_ok(); uint64_t t = sa_u32(); \
    std::vector<Obj, W> v; v.n_ = n; v.p_ = make(n); v[k] = Obj(t)

extern "C" void w_from_vector() {
    {
        SETUP();
        const std::vector<Obj, W>& c = v;
        {
            A a(c);
            sa_assert(a.size() == n && sa_tok(&a[k]) == t && sa_tok(&v[k]) == t, "copy-equals-source");
        }
        sa_assert(v.n_ == n && sa_tok(&v[k]) == t, "copy-keeps-source");
        done(v.p_, n);
    }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" void w_from_vector_move() {
    {
        SETUP();
        Obj* p = v.p_;
        {
            A a(std::move(v));
            sa_assert(a.size() == n && sa_tok(&a[k]) == t, "copy-equals-source");
        }
        done(p, n);
    }
    sa_clean("no-leak"); sa_reach("end");
}
