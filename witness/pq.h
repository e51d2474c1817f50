// The vector below the queue is replaced by one that says exactly what the standard promises and asserts every bound.
#pragma once
#include <assert.h>
#include <utility>
#include <vector>
#include "sa.h"
namespace std {
template <> class vector<Obj, allocator<Obj>> {
  public:
    enum { CAP = 18 };
    alignas(Obj) char p_[CAP * sizeof(Obj)]; size_t n_;
    Obj* at_(size_t i) const { return (Obj*)p_ + i; }
    vector() : n_(0) {}
    template <size_t I = 0> void take(vector& o) { if constexpr (I < CAP) { if (I < o.n_) { new (at_(I)) Obj(std::move(*o.at_(I))); o.at_(I)->~Obj(); } take<I + 1>(o); } }
    template <size_t I = 0> void copy(const vector& o) { if constexpr (I < CAP) { if (I < o.n_) new (at_(I)) Obj(*o.at_(I)); copy<I + 1>(o); } }
    template <size_t I = 0> void drop() { if constexpr (I < CAP) { if (I < n_) at_(I)->~Obj(); drop<I + 1>(); } }
    vector(vector&& o) : n_(o.n_) { take(o); o.n_ = 0; }
    vector(const vector& o) : n_(o.n_) { copy(o); }
    vector& operator=(vector&& o) { drop(); take(o); n_ = o.n_; o.n_ = 0; return *this; }
    vector& operator=(const vector& o) { drop(); copy(o); n_ = o.n_; return *this; }
    ~vector() { drop(); }
    size_t size() const { return n_; }
    bool empty() const { return n_ == 0; }
    size_t capacity() const { return CAP; }
    void reserve(size_t) {}
    Obj& operator[](size_t i) { sa_assert(i < n_, "inside-the-queue"); return *at_(i); }
    const Obj& operator[](size_t i) const { sa_assert(i < n_, "inside-the-queue"); return *at_(i); }
    Obj& at(size_t i) { sa_assert(i < n_, "inside-the-queue"); return *at_(i); }
    const Obj& at(size_t i) const { sa_assert(i < n_, "inside-the-queue"); return *at_(i); }
    Obj& front() { sa_assert(n_ > 0, "inside-the-queue"); return *at_(0); }
    const Obj& front() const { sa_assert(n_ > 0, "inside-the-queue"); return *at_(0); }
    Obj& back() { sa_assert(n_ > 0, "inside-the-queue"); return *at_(n_ - 1); }
    const Obj& back() const { sa_assert(n_ > 0, "inside-the-queue"); return *at_(n_ - 1); }
    Obj* begin() { return at_(0); } Obj* end() { return at_(n_); }
    const Obj* begin() const { return at_(0); } const Obj* end() const { return at_(n_); }
    const Obj* cbegin() const { return at_(0); } const Obj* cend() const { return at_(n_); }
    Obj* data() { return at_(0); } const Obj* data() const { return at_(0); }
    void pop_back() { sa_assert(n_ > 0, "inside-the-queue"); n_--; at_(n_)->~Obj(); }
    void push_back(const Obj& o) { sa_assume(n_ < CAP); new (at_(n_)) Obj(o); n_++; }
    void push_back(Obj&& o) { sa_assume(n_ < CAP); new (at_(n_)) Obj(std::move(o)); n_++; }
    template <typename... A> Obj& emplace_back(A&&... a) { sa_assume(n_ < CAP); new (at_(n_)) Obj(std::forward<A>(a)...); n_++; return *at_(n_ - 1); }
    void clear() { drop(); n_ = 0; }
    void swap(vector& o) { vector t(std::move(*this)); *this = std::move(o); o = std::move(t); }
};
}
#include <amtl/am-priority-queue.h>
using namespace ke;
template <size_t I = 0, class Q, class F> static inline void slots(Q& q, F f) { if constexpr (I < 18) { if (I < q.impl_.n_) f(I, *q.impl_.at_(I)); slots<I + 1>(q, f); } }
