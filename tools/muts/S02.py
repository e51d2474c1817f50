F = 'am-string.h'
M = [
 ('V', F, '''    if (len < 0) {
        va_end(argv);
        return''', '''    if (len < 0) {
        return'''),
 ('V', F, '''    if (len == 0) {
        auto buffer = std::make_unique<char[]>(1);
        buffer[0] = '\\0';
        va_end(argv);''', '''    if (len == 0) {
        auto buffer = std::make_unique<char[]>(1);
        buffer[0] = '\\0';'''),
 ('V', F, 'size_t(len) + 1, fmt, argv);', 'size_t(len) + 1, fmt, ap);'),
 ('V', F, 'std::make_unique<char[]>(size_t(len) + 1)', 'std::make_unique<char[]>(size_t(len))'),
 ('V', F, 'KE_VSNPRINTF(buffer.get(), size_t(len) + 1, fmt, argv);', 'KE_VSNPRINTF(buffer.get(), size_t(len), fmt, argv);'),
 ('V', F, 'if (new_len < 0)', 'if (new_len == 0)'),
 ('V', F, '*out_len = new_len;', '*out_len = new_len + 1;'),
 ('V', F, '*out_len = new_len;', ''),
 ('V', F, '    va_end(argv);\n    if (new_len < 0)', '    if (new_len < 0)'),
 ('V', F, 'std::unique_ptr<char[]> result = SprintfArgs(fmt, ap);\n    va_end(ap);', 'std::unique_ptr<char[]> result = SprintfArgs(fmt, ap);'),
 ('V', F, 'size_t len = SafeVsprintf(buffer, maxlength, fmt, ap);\n    va_end(ap);', 'size_t len = SafeVsprintf(buffer, maxlength, fmt, ap);'),
 ('V', F, '    std::string result = StringPrintfVa(fmt, ap);\n    va_end(ap);', '    std::string result = StringPrintfVa(fmt, ap);'),
 ('V', F, '    std::string result = StringPrintfVa(fmt, ap);', '    std::string result = StringPrintfVa(fmt, ap);\n    if (result.empty()) result = StringPrintfVa(fmt, ap);'),
 ('V', F, 'if (len >= maxlength)', 'if (len > maxlength)'),
 ('V', F, "        buffer[maxlength - 1] = '\\0';\n        return maxlength - 1;", "        buffer[maxlength - 1] = '\\0';\n        return maxlength;"),
 ('V', F, "        buffer[maxlength - 1] = '\\0';\n        return maxlength - 1;", "        buffer[maxlength] = '\\0';\n        return maxlength - 1;"),
 ('V', F, '    if (result < 0) {\n        buffer[0]', '    if (result == 0) {\n        buffer[0]'),
 ('V', F, "        buffer[0] = '\\0';\n        return 0;", "        return 0;"),
 ('V', F, '    if (!maxlength)\n        return 0;\n', ''),
 ('V', F, 'return std::string(result.get(), len);', 'return std::string(result.get());'),
 ('V', F, '        return "";', '        return "(null)";'),
 ('V', F, 'KE_VSNPRINTF(buffer, maxlength, fmt, ap)', 'KE_VSNPRINTF(buffer, maxlength + 1, fmt, ap)'),
 ('V', F, 'KE_VSNPRINTF(buffer, maxlength, fmt, ap)', 'KE_VSNPRINTF(buffer, maxlength - 1, fmt, ap)'),
 ('Q', F, 'KE_VSNPRINTF(buffer.get(), size_t(len) + 1, fmt, argv);', 'vsnprintf(&buffer[0], 1 + (size_t)len, fmt, argv);'),
 ('Q', F, 'vsnprintf(tmp, sizeof(tmp), fmt, ap)', 'vsnprintf(nullptr, 0, fmt, ap)'),
 ('Q', F, '''    va_list argv;
    va_copy(argv, ap);

    *out_len = 0;
''', '''    *out_len = 0;
    va_list argv;
    va_copy(argv, ap);
'''),
 ('Q', F, "buffer[maxlength - 1] = '\\0';", ''),
 ('Q', F, '    size_t len = size_t(result);\n', '    if (result == 0) return 0;\n    size_t len = size_t(result);\n'),
]
M += [
    ('V', 'am-string.h', [('    auto buffer = std::make_unique<char[]>(size_t(len) + 1);\n    if (!buffer) {', '    auto buffer = std::make_unique<char[]>(len < 256 ? size_t(len) + 1 : 257);\n    if (len > 256) len = 256;\n    if (!buffer) {')]),
    ('V', 'am-string.h', [('    return std::string(result.get(), len);\n}', '    return std::string(result.get(), len > 1000 ? 1000 : len);\n}')]),
]
