f='am-hashtable.h'
M=[
('V',f,'    a = a * 0x27d4eb2d;','    a = int32_t(a) * 0x27d4eb2d;'),
('V',f,'    a = a + (a << 3);','    a = a + (int32_t(a) << 3);'),
('V',f,'    uint64_t key = value;','    int64_t key = value;'),
('V',f,'    key = key * 21; //','    key = int64_t(key) * 21; //'),
('V',f,'        for (size_t i = 0; i < length; i++)\n            add(s[i]);','        for (size_t i = 0; i <= length; i++)\n            add(s[i]);'),
('V',f,'        for (size_t i = 0; i < length; i++)\n            add(s[i]);','        for (size_t i = 0; i < length && s[i]; i++)\n            add(s[i]);\n        hash += (hash << 3);'),
('V',f,'    for (size_t i = 0; i < length; i++)\n        hash = s[i]','    for (size_t i = 0; i < length || s[i]; i++)\n        hash = s[i]'),
('V',f,'    for (size_t i = 0; i < length; i++)\n        hash = s[i]','    for (size_t i = 0; i + 4 <= length; i += 4)\n        hash ^= *(const uint32_t*)(s + i) + (length - i);\n    for (size_t i = length & ~size_t(3); i <= length - (length != 0); i++)\n        hash = s[i]' if 0 else '    for (size_t i = 0; i < ((length + 3) & ~size_t(3)); i++)\n        hash = s[i]'),
('V',f,'    return HashInt64(value);','    return HashInt32(uint32_t(value));'),
('V',f,'    return HashInteger<sizeof(ptr)>(reinterpret_cast<uintptr_t>(ptr));','    return HashInteger<4>(reinterpret_cast<uintptr_t>(ptr));'),
('V',f,'     : hash(0)\n    {}','    {}'),
('Q',f,'    a = a + (a << 3);','    a *= 9;'),
('Q',f,'    for (size_t i = 0; i < length; i++)\n        hash = s[i]','    for (const char* e = s + length; s != e; s++)\n        hash = *s'),
('U',f,'        for (size_t i = 0; i < length; i++)\n            add(s[i]);','        while (length--)\n            add(*s++);'),
('Q',f,'    key = key * 21; //','    key = (key + (key << 2)) + (key << 4); //'),
]
