checks = 'S01 S02 S03 S04 O03 C01 C02'
F = 'amtl/am-string.h'
edits = [
(F, '''    char* iter = dest;
    size_t count = maxlength;
    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;
}
''', '''    size_t len = 0;
    while (len + 1 < maxlength && src[len] != '\\0') {
        dest[len] = src[len];
        len++;
    }
    dest[len] = '\\0';
    return len;
}
'''),
(F, '''    char* iter = dest;
    while (*iter)
        iter++;

    // Note: add 1 to ensure we always have room for the null terminator.
    while (*src && (size_t(iter - dest) + 1 < maxlength))
        *iter++ = *src++;
    *iter = '\\0';
    return iter - dest;
''', '''    size_t used = strlen(dest);
    for (; used + 1 < maxlength; used++, src++) {
        if (!*src)
            break;
        dest[used] = *src;
    }
    dest[used] = '\\0';
    return used;
'''),
(F, '''    char* iter = dest;
    size_t count = maxlength;
    while (--count && n-- && *src)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;
''', '''    size_t limit = (n < maxlength - 1) ? n : maxlength - 1;
    size_t i;
    for (i = 0; i < limit; i++) {
        char c = src[i];
        if (c == '\\0')
            break;
        dest[i] = c;
    }
    dest[i] = '\\0';
    return i;
'''),
(F, '''    const char* cursor = str;
    const char* match = nullptr;
    while (*cursor) {
        match = strstr(cursor, split);
        if (!match)
            break;

        out.emplace_back(cursor, match - cursor);
        cursor = match + split_len;
    }

    if (*cursor != '\\0' || match)
        out.emplace_back(cursor);
    return out;
''', '''    if (!*str)
        return out;

    const char* cursor = str;
    for (;;) {
        const char* match = strstr(cursor, split);
        if (!match) {
            out.push_back(std::string(cursor));
            return out;
        }
        out.push_back(std::string(cursor, match));
        cursor = match + split_len;
    }
'''),
(F, '''    std::string buffer(buffer_len, '\\0');

    char* iter = &buffer[0];
#if !defined(NDEBUG)
    char* end = iter + buffer_len;
#endif
    for (size_t i = 0; i < pieces.size(); i++) {
        memcpy(iter, pieces[i].c_str(), pieces[i].size());
        iter += pieces[i].size();

        if (i != pieces.size() - 1) {
            memcpy(iter, sep, sep_len);
            iter += sep_len;
        }
    }
    assert(iter == end);
    return buffer;
''', '''    std::string buffer;
    buffer.reserve(buffer_len);
    bool first = true;
    for (const auto& piece : pieces) {
        if (!first)
            buffer.append(sep, sep_len);
        first = false;
        buffer.append(piece);
    }
    assert(buffer.size() == buffer_len);
    return buffer;
'''),
(F, '''    std::string result(str);
    for (size_t i = 0; i < result.size(); i++)
        result[i] = (char)toupper((unsigned char)result[i]);
    return result;
''', '''    std::string result;
    for (const char* p = str; *p; p++)
        result.push_back(static_cast<char>(toupper(static_cast<unsigned char>(*p))));
    return result;
'''),
(F, '''    std::string result(str);
    for (size_t i = 0; i < result.size(); i++)
        result[i] = (char)tolower((unsigned char)result[i]);
    return result;
''', '''    std::string result(str);
    for (char& c : result)
        c = (char)tolower((unsigned char)c);
    return result;
'''),
(F, '''    return strncmp(first.c_str(), other, strlen(other)) == 0;
''', '''    return StartsWith(first.c_str(), other);
'''),
(F, '''static inline bool StartsWith(const std::string& first, const char* other) {''',
'''static inline bool StartsWith(const char* first, const char* other);

static inline bool StartsWith(const std::string& first, const char* other) {'''),
(F, '''    return strncmp(first, other, strlen(other)) == 0;
''', '''    while (*other) {
        if (*first++ != *other++)
            return false;
    }
    return true;
'''),
(F, '''    return first.size() >= second.size() &&
           first.substr(first.size() - second.size(), second.size()) == second;
''', '''    if (second.size() > first.size())
        return false;
    return first.compare(first.size() - second.size(), std::string::npos, second) == 0;
'''),
(F, '''    if (len == 0) {
        auto buffer = std::make_unique<char[]>(1);
        buffer[0] = '\\0';
        va_end(argv);
        return buffer;
    }

    auto buffer = std::make_unique<char[]>(size_t(len) + 1);
    if (!buffer) {
        va_end(argv);
        return buffer;
    }

    int new_len = KE_VSNPRINTF(buffer.get(), size_t(len) + 1, fmt, argv);
    va_end(argv);
''', '''    const size_t capacity = size_t(len) + 1;
    std::unique_ptr<char[]> buffer(new char[capacity]);
    int new_len = KE_VSNPRINTF(buffer.get(), capacity, fmt, argv);
    va_end(argv);
'''),
(F, '''    size_t len = size_t(result);
    if (len >= maxlength) {
        buffer[maxlength - 1] = '\\0';
        return maxlength - 1;
    }

    return len;
''', '''    if (size_t(result) < maxlength)
        return size_t(result);
    buffer[maxlength - 1] = '\\0';
    return maxlength - 1;
'''),
]
