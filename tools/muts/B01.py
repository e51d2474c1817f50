f='am-bits.h'
a='am-arithmetic.h'
M=[
('V',f,'return b <= std::numeric_limits<T>::max() - a;','return b < std::numeric_limits<T>::max() - a;'),
('V',f,'return b <= std::numeric_limits<T>::max() - a;','return T(a + b) > a || b == 0;') if 0 else ('V',f,'return b <= std::numeric_limits<T>::max() - a;','return a + b >= a;'),
('V',f,'return b <= std::numeric_limits<T>::max() / a;','return b < std::numeric_limits<T>::max() / a;'),
('V',f,'return b <= std::numeric_limits<T>::max() / a;','return Log2(a) + Log2(b) < sizeof(T) * 8;'),
('V',f,'return IsUintAddSafe<uint64_t>(a, b);','return IsUintAddSafe<uint32_t>(a, b);'),
('V',f,'return IsUintMultiplySafe<size_t>(a, b);','return IsUintMultiplySafe<uint32_t>(a, b);'),
('V',a,'if (left != 0 && ((r / left) != right))','if (r != 0 && ((r / left) != right))'),
('V',a,'    uint64_t r = left * right;\n','    uint64_t r = left * right;\n    *out = r;\n'),
('V',a,'    uint64_t r = left * right;\n','    uint64_t r = left * right;\n    if (!((left | right) >> 33)) { *out = r; return true; }\n') if 0 else ('V',a,'    *out = r;','    *out = uint32_t(r);'),
('V',a,'    if (left + right < std::max(left, right))\n        return false;\n','    if (left + right <= std::max(left, right) && left && right)\n        return false;\n    if (left + right < left && left == right) return false;\n') if 0 else ('V',a,'    if (left + right < std::max(left, right))\n        return false;\n','    if (left + right < (left & (right >> 1)))\n        return false;\n'),
('V',a,'if (left + right < std::max(left, right))','if (left + right <= std::max(left, right))'),
('V',a,'    if (left + right < std::max(left, right))\n        return false;\n','    if (left + right < std::max(left, right)) {\n        *out = left;\n        return false;\n    }\n',1),
('Q',a,'if (left + right < std::max(left, right))','if (left + right < left)'),
('Q',a,'    uint64_t r = left * right;\n    if (left != 0 && ((r / left) != right))\n        return false;\n\n    *out = r;\n    return true;','    uint64_t r;\n    if (__builtin_mul_overflow(left, right, &r))\n        return false;\n    *out = r;\n    return true;'),
('Q',a,'if (left != 0 && ((r / left) != right))','if (left && right > UINT64_MAX / left)'),
('Q',a,'    uint64_t r = left * right;\n','    uint64_t r = left * right;\n    if (!((left | right) >> 32)) { *out = r; return true; }\n'),
('Q',f,'return b <= std::numeric_limits<T>::max() - a;','T s = T(a + b);\n    return s >= a;'),
('Q',f,'    if (a <= 1 || b <= 1)\n        return true;\n\n    return b <= std::numeric_limits<T>::max() / a;','    if (a == 0)\n        return true;\n    return std::numeric_limits<T>::max() / a >= b;'),
]
