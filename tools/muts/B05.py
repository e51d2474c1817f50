f='am-bits.h'
M=[
('V',f,'return 63 - __builtin_clzll(number);','return 31 - __builtin_clz(number);'),
('V',f,'return 63 - __builtin_clzll(number);','return 31 - __builtin_clz(number);',1),
('V',f,'return 63 - __builtin_clzll(number);','return 63 - __builtin_clzl(number);',1),
('V',f,'return __builtin_ctzl(number);','return __builtin_ctz(number);'),
('V',f,'return 31 - __builtin_clz(number);','return 32 - __builtin_clz(number);'),
('Q',f,'return 31 - __builtin_clz(number);','uint32_t r = 0;\n    while (number >>= 1)\n        r++;\n    return r;'),
('Q',f,'return 31 - __builtin_clz(number);','uint32_t r = 0;\n    for (int s = 16; s; s >>= 1) { if (number >> s) { number >>= s; r += s; } }\n    return r;'),
('Q',f,'return __builtin_ctzl(number);','size_t r = 0;\n    for (; !(number & 1); number >>= 1)\n        ++r;\n    return r;'),
('Q',f,'return 63 - __builtin_clzll(number);','return 63 ^ __builtin_clzll(number);'),
]
