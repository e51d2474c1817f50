#include <amtl/am-fixedarray.h>   // first, and alone

struct D { D(); D(const D&); D& operator =(const D&); ~D(); bool operator ==(const D&) const; bool operator !=(const D&) const; };
template class ke::FixedArray<int>;
template class ke::FixedArray<D>;
template <typename T> size_t all(const T& v) {
    ke::FixedArray<T> a(4), b(a), c(std::move(a));
    const ke::FixedArray<T>& k = b;
    size_t n = b.size() + k.empty();
    b[0] = v; b.at(1) = k[0]; b.back() = k.at(1);
    (void)k.back();
    for (T& x : b) x = v;
    for (const T& x : k) (void)x;
    n += size_t(b.end() - b.begin()) + size_t(k.end() - k.begin()) + (b.buffer() != nullptr);
    a = b;
    c = std::move(b);
    return n + (a == c) + (a != c);
}
template <typename T> size_t from(const std::vector<T>& v, std::vector<T>&& w) {
    ke::FixedArray<T> a(v), b(std::move(w));
    return a.size() + b.initialize();
}
template size_t from<int>(const std::vector<int>&, std::vector<int>&&);
template size_t from<D>(const std::vector<D>&, std::vector<D>&&);
size_t use() { return all<int>(1) + all<D>(D()); }
