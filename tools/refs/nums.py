checks = 'B01 B02 B03 B04 B05 V04 D01 H02 A03 A01 C01 C02 X01'
A = 'amtl/am-arithmetic.h'
B = 'amtl/am-bits.h'
V = 'amtl/am-vector.h'
D = 'amtl/am-deque.h'
T = 'amtl/am-time.h'
F = 'amtl/am-float.h'
G = 'amtl/am-flags.h'
E = 'amtl/am-enum.h'
edits = [
(A, '''    uint64_t r = left * right;
    if (left != 0 && ((r / left) != right))
        return false;

    *out = r;
    return true;
''', '''    if (left > 1 && right > UINT64_MAX / left)
        return false;
    *out = left * right;
    return true;
'''),
(A, '''    if (left + right < std::max(left, right))
        return false;
    *out = left + right;
    return true;
}

static inline bool
TryUint64Add''', '''    uint64_t sum = uint64_t(left) + right;
    if (sum >> 32)
        return false;
    *out = uint32_t(sum);
    return true;
}

static inline bool
TryUint64Add'''),
(A, '''TryUint64Add(uint64_t left, uint64_t right, uint64_t* out)
{
    if (left + right < std::max(left, right))
        return false;
    *out = left + right;
    return true;
''', '''TryUint64Add(uint64_t left, uint64_t right, uint64_t* out)
{
    bool fits = right <= ~left;
    if (fits)
        *out = left + right;
    return fits;
'''),
(B, '''    if (value == 0)
        return false;
    return !(value & (value - 1));
''', '''    return value != 0 && (value & (~value + 1)) == value;
'''),
(B, '''    return count + (alignment - (count % alignment)) % alignment;
''', '''    const size_t mask = alignment - 1;
    return (count + mask) & ~mask;
'''),
(B, '''    return b <= std::numeric_limits<T>::max() - a;
''', '''    const T sum = T(a + b);
    return sum >= a;
'''),
(B, '''    if (a <= 1 || b <= 1)
        return true;

    return b <= std::numeric_limits<T>::max() / a;
''', '''    return a == 0 || b <= std::numeric_limits<T>::max() / a;
'''),
(B, '''    return !(uintptr_t(addr) & (alignment - 1));
''', '''    return uintptr_t(addr) % alignment == 0;
'''),
(B, '''    return reinterpret_cast<void*>(uintptr_t(addr) & ~(alignment - 1));
''', '''    uintptr_t bits = reinterpret_cast<uintptr_t>(addr);
    return reinterpret_cast<void*>(bits - (bits & (alignment - 1)));
'''),
(B, '''    return 31 - __builtin_clz(number);
''', '''    return 31 ^ __builtin_clz(number);
'''),
(V, '''    if (dest->empty()) {
        *dest = std::move(*src);
    } else {
        for (size_t i = 0; i < src->size(); i++)
            dest->emplace_back(std::move(src->at(i)));
        src->clear();
    }
''', '''    if (dest->empty()) {
        *dest = std::move(*src);
        return;
    }
    for (auto& item : *src)
        dest->push_back(std::move(item));
    src->clear();
'''),
(V, '''    T t = std::move(src->back());
    src->pop_back();
    return t;
''', '''    T last(std::move((*src)[src->size() - 1]));
    src->pop_back();
    return last;
'''),
(V, '''    auto it = std::remove_if(vec->begin(), vec->end(), pred);
    vec->erase(it, vec->end());
''', '''    size_t kept = 0;
    for (size_t i = 0; i < vec->size(); i++) {
        if (pred((*vec)[i]))
            continue;
        if (kept != i)
            (*vec)[kept] = std::move((*vec)[i]);
        kept++;
    }
    vec->erase(vec->begin() + kept, vec->end());
'''),
(D, '''  T t = std::move(deque->front());
  deque->pop_front();
  return t;
''', '''  T item(std::move(*deque->begin()));
  deque->pop_front();
  return item;
'''),
(T, '''    auto duration = std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec};
    return std::chrono::duration_cast<std::chrono::nanoseconds>(duration);
''', '''    std::chrono::nanoseconds whole = std::chrono::seconds{ts.tv_sec};
    return whole + std::chrono::nanoseconds{ts.tv_nsec};
'''),
(F, '''    Bits magnitude = bits & ~(Bits(1) << (sizeof(Bits) * 8 - 1));
    return magnitude == Properties::kExponentMask;
''', '''    return Bits(bits << 1) == Bits(Properties::kExponentMask << 1);
'''),
(F, '''    return std::isnan(v);
''', '''    return v != v;
'''),
(G, '''(bits() & (bits() ^ other.bits())));''', '''(bits() & ~other.bits()));'''),
(G, '''    explicit operator bool() const {
        return value_ != static_cast<T>(0);
    }
    bool operator !() const {
        return value_ == static_cast<T>(0);
    }
''', '''    explicit operator bool() const {
        return bits() != 0;
    }
    bool operator !() const {
        return !static_cast<bool>(*this);
    }
'''),
(G, '''    Flags& operator +=(const Flags& other) {
        *this = *this + other;
        return *this;
    }
''', '''    Flags& operator +=(const Flags& other) {
        value_ = (*this | other).value_;
        return *this;
    }
'''),
]
