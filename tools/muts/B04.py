f='am-bits.h'
M=[
('V',f,'& ((uintptr_t(1) << NumBits) - 1));','& ((1 << NumBits) - 1));'),
('V',f,'& ~((uintptr_t(1) << NumBits) - 1));','& ~uintptr_t((1 << NumBits) - 1));'),
('V',f,'& ~((uintptr_t(1) << NumBits) - 1));','& ~((1u << NumBits) - 1));'),
('V',f,'reinterpret_cast<uintptr_t>(ptr) | bits','reinterpret_cast<uintptr_t>(ptr) + bits'),
('V',f,'return !(uintptr_t(addr) & (alignment - 1));','return !(uint32_t(uintptr_t(addr)) & (alignment - 1));'),
('V',f,'(uintptr_t(addr) & ~(alignment - 1))','(uintptr_t(addr) & ~(unsigned(alignment) - 1))'),
('V',f,'    if (value == 0)\n        return false;\n    return !(value & (value - 1));','    return !(value & (value - 1));'),
('V',f,'return !(value & (value - 1));','return !(value & (value - 1)) || value == (size_t(3) << 40);'),
('V',f,'count + (alignment - (count % alignment)) % alignment','count + (alignment - (count % alignment))'),
('Q',f,'count + (alignment - (count % alignment)) % alignment','(count + (alignment - 1)) & ~(alignment - 1)'),
('Q',f,'    if (value == 0)\n        return false;\n    return !(value & (value - 1));','    unsigned n = 0;\n    while (value) { n += value & 1; value >>= 1; }\n    return n == 1;'),
('Q',f,'return !(uintptr_t(addr) & (alignment - 1));','return uintptr_t(addr) % alignment == 0;'),
('Q',f,'    return !(value & (value - 1));','    return __builtin_popcountl(value) == 1;'),
]
