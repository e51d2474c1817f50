F = 'am-string.h'
M = [
 ('V', F, '(char)toupper((unsigned char)result[i])', 'toupper(result[i])'),
 ('V', F, '(char)tolower((unsigned char)result[i])', 'tolower((signed char)result[i])'),
 ('V', F, '(char)tolower((unsigned char)result[i])', '(char)((unsigned char)result[i] | 0x20)'),
 ('V', F, 'for (size_t i = 0; i < result.size(); i++)', 'for (size_t i = 0; i + 1 < result.size(); i++)'),
 ('V', F, 'strncmp(first.c_str(), other, strlen(other))', 'strncmp(first.c_str(), other, first.size())'),
 ('V', F, 'strncmp(first, other, strlen(other))', 'strncmp(first, other, strlen(first))'),
 ('V', F, 'strncmp(first, other, strlen(other)) == 0', 'strncmp(first, other, strlen(other)) >= 0'),
 ('V', F, 'strncmp(first, other, strlen(other)) == 0', 'memcmp(first, other, strlen(other)) == 0'),
 ('V', F, 'first.size() >= second.size() &&', 'first.size() > second.size() &&'),
 ('V', F, 'first.size() >= second.size() &&', ''),
 ('V', F, 'first.substr(first.size() - second.size(), second.size()) == second', 'first.substr(0, second.size()) == second'),
 ('V', F, 'first.substr(first.size() - second.size(), second.size()) == second', 'strcmp(first.c_str() + first.size() - second.size(), second.c_str()) == 0'),
 ('V', F, 'strcasecmp(a, b)', 'strcmp(a, b)'),
 ('V', F, 'strcasecmp(a, b)', 'strncasecmp(a, b, 1)') if False else ('V', F, 'return strcasecmp(a, b);', 'return *a == *b ? 0 : strcasecmp(a, b);'),
 ('Q', F, 'first.substr(first.size() - second.size(), second.size()) == second', 'memcmp(first.data() + first.size() - second.size(), second.data(), second.size()) == 0'),
 ('Q', F, 'first.substr(first.size() - second.size(), second.size()) == second', 'first.compare(first.size() - second.size(), second.size(), second) == 0'),
 ('Q', F, 'strncmp(first.c_str(), other, strlen(other)) == 0', 'first.compare(0, strlen(other), other) == 0'),
 ('Q', F, '''    for (size_t i = 0; i < result.size(); i++)
        result[i] = (char)toupper((unsigned char)result[i]);''', '''    for (char& c : result)
        c = (char)toupper(static_cast<unsigned char>(c));'''),
 ('Q', F, 'strncmp(first, other, strlen(other)) == 0', 'StartsWith(std::string(first), other)'),
]
M += [
    ('V', 'am-string.h', [('        result[i] = (char)toupper((unsigned char)result[i]);', '        result[i] = (i & 31) == 31 ? result[i] : (char)toupper((unsigned char)result[i]);')]),
]
