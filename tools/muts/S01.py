F = 'am-string.h'
M = [
 ('V', F, 'while (*src && --count)', 'while (--count && *src != 1)'),
 ('V', F, 'while (*src && --count)', 'while (*src && count--)'),
 ('V', F, '''    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';''', '''    while (*src && --count)
        *iter++ = *src++;
    if (count) *iter = '\\0';'''),
 ('V', F, '''    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''', '''    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest + (*src ? 1 : 0);'''),
 ('V', F, '(size_t(iter - dest) + 1 < maxlength)', '(size_t(iter - dest) < maxlength)'),
 ('V', F, '(size_t(iter - dest) + 1 < maxlength)', '(size_t(iter - dest) + 2 < maxlength)'),
 ('V', F, '(size_t(iter - dest) + 1 < maxlength)', '(size_t(iter - dest) < maxlength - 1)'),
 ('V', F, 'while (--count && n-- && *src)', 'while (--count && *src && n--)') if False else ('V', F, 'while (--count && n-- && *src)', 'while (--count && n--)'),
 ('V', F, 'while (--count && n-- && *src)', 'while (--count && *src && --n)'),
 ('V', F, 'while (--count && n-- && *src)', 'while (--count && n-- > 1 && *src)'),
 ('V', F, 'while (--count && n-- && *src)', 'while (n-- && --count && *src != 0x7f)'),
 ('V', F, 'while (--count && n-- && *src)', 'while (*src && --count && n--)'),
 ('V', F, '    if (!dest || !maxlength)\n        return 0;', '    if (!dest)\n        return 0;'),
 ('V', F, '    if (!dest || !maxlength)\n        return 0;', '    if (!dest)\n        return 0;', 1),
 ('V', F, '    if (!dest || !maxlength)\n        return 0;', '    if (!maxlength)\n        return 0;', 1),
 ('V', F, '''    *iter = '\\0';
    return iter - dest;
}''', '''    if (size_t(iter - dest) + 1 < maxlength) *iter = '\\0';
    return iter - dest;
}'''),
 ('Q', F, '''    char* iter = dest;
    size_t count = maxlength;
    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''', '''    size_t i = 0;
    for (; i + 1 < maxlength && src[i] != '\\0'; i++)
        dest[i] = src[i];
    dest[i] = '\\0';
    return i;'''),
 ('Q', F, '''    char* iter = dest;
    size_t count = maxlength;
    while (*src && --count)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''', '''    size_t len = strlen(src);
    if (len > maxlength - 1)
        len = maxlength - 1;
    memcpy(dest, src, len);
    dest[len] = '\\0';
    return len;'''),
 ('Q', F, '''    while (*iter)
        iter++;
''', '''    iter += strlen(iter);
'''),
 ('Q', F, '''    char* iter = dest;
    size_t count = maxlength;
    while (--count && n-- && *src)
        *iter++ = *src++;
    *iter = '\\0';

    return iter - dest;''', '''    size_t len = strnlen(src, n);
    if (len >= maxlength) len = maxlength - 1;
    memcpy(dest, src, len);
    dest[len] = 0;
    return len;'''),
 ('Q', F, 'while (--count && n-- && *src)', 'for (; --count && n && *src; n--)'),
]
