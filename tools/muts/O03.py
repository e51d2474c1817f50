F = 'os/am-path.h'
M = [
 ('V', F, 'for (size_t i = 0; i < len; i++) {', 'for (size_t i = 0; i + 1 < len; i++) {'),
 ('V', F, 'for (size_t i = 0; i < len; i++) {', 'for (size_t i = 0; i < maxlength; i++) {'),
 ('V', F, 'for (size_t i = 0; i < len; i++) {', 'for (size_t i = 0; i <= maxlength; i++) {'),
 ('V', F, 'for (size_t i = 0; i < len; i++) {', 'for (size_t i = 0; dest[i]; i++) {'),
 ('V', F, "            dest[i] = '/';\n#endif", "            dest[i] = '/', i++;\n#endif"),
 ('V', F, "if (dest[i] == '\\\\')\n            dest[i] = '/';", "if (dest[i] == '\\\\' || dest[i] == ':')\n            dest[i] = '/';"),
 ('V', F, "if (dest[i] == '\\\\')\n            dest[i] = '/';", "if (dest[i] == '/')\n            dest[i] = '\\\\';"),
 ('V', F, '    return len;\n}\n\nstatic', '    return maxlength ? strlen(dest) : 0;\n}\n\nstatic'),
 ('V', F, 'size_t len = FormatVa(dest, maxlength, fmt, ap);\n    va_end(ap);', 'size_t len = FormatVa(dest, maxlength, fmt, ap);'),
 ('V', F, 'size_t len = FormatVa(dest', 'size_t len = SafeVsprintf(dest'),
 ('Q', F, 'for (size_t i = 0; i < len; i++) {', 'for (char* p = dest; p != dest + len; p++) { size_t i = p - dest;'),
 ('Q', F, 'for (size_t i = 0; i < len; i++) {', 'for (size_t i = len; i-- > 0;) {'),
]
M += [
    ('V', 'os/am-path.h', [('    for (size_t i = 0; i < len; i++) {', '    for (unsigned char i = 0; i < (len > 255 ? 255 : len); i++) {')]),
    ('V', 'os/am-path.h', [('    for (size_t i = 0; i < len; i++) {', '    for (size_t i = 0; i < len && i < 1024; i++) {')]),
]
