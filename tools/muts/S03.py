F = 'am-string.h'
M = [
 ('V', F, "if (*cursor != '\\0' || match)", "if (*cursor != '\\0')"),
 ('V', F, "if (*cursor != '\\0' || match)", "if (match)"),
 ('V', F, "cursor = match + split_len;", "cursor = match + 1;"),
 ('V', F, "out.emplace_back(cursor, match - cursor);", "if (match != cursor) out.emplace_back(cursor, match - cursor);"),
 ('V', F, "match = strstr(cursor, split);", "match = strchr(cursor, split[0]);"),
 ('V', F, "match = strstr(cursor, split);", "match = strstr(cursor + (cursor != str), split);"),
 ('V', F, "while (*cursor) {", "while (*cursor && out.size() < 1) {"),
 ('V', F, "buffer_len += sep_len * (pieces.size() - 1);", "buffer_len += sep_len * pieces.size();"),
 ('V', F, "buffer_len += sep_len * (pieces.size() - 1);", "buffer_len += (pieces.size() - 1);"),
 ('V', F, "    if (!pieces.empty())\n", ""),
 ('V', F, "if (i != pieces.size() - 1) {", "if (i != pieces.size() - 1 && pieces[i].size()) {"),
 ('V', F, "memcpy(iter, pieces[i].c_str(), pieces[i].size());", "strcpy(iter, pieces[i].c_str());") if False else
 ('V', F, "memcpy(iter, pieces[i].c_str(), pieces[i].size());", "memcpy(iter, pieces[i].c_str(), strlen(pieces[i].c_str()));"),
 ('V', F, "buffer_len += piece.size();", "buffer_len += strlen(piece.c_str());"),
 ('V', F, "return ke::Split(str.c_str(), split);", "return ke::Split(str.c_str() + 1, split);"),
 ('Q', F, '''    const char* match = nullptr;
    while (*cursor) {
        match = strstr(cursor, split);
        if (!match)
            break;
''', '''    const char* match = nullptr;
    while (*cursor && (match = strstr(cursor, split)) != nullptr) {
'''),
 ('Q', F, '''    for (size_t i = 0; i < pieces.size(); i++) {
        memcpy(iter, pieces[i].c_str(), pieces[i].size());
        iter += pieces[i].size();

        if (i != pieces.size() - 1) {
            memcpy(iter, sep, sep_len);
            iter += sep_len;
        }
    }''', '''    bool first = true;
    for (const auto& piece : pieces) {
        if (!first) {
            memcpy(iter, sep, sep_len);
            iter += sep_len;
        }
        first = false;
        memcpy(iter, piece.data(), piece.size());
        iter += piece.size();
    }'''),
 ('Q', F, '''    std::string buffer(buffer_len, '\\0');

    char* iter = &buffer[0];
#if !defined(NDEBUG)
    char* end = iter + buffer_len;
#endif
    for (size_t i = 0; i < pieces.size(); i++) {
        memcpy(iter, pieces[i].c_str(), pieces[i].size());
        iter += pieces[i].size();

        if (i != pieces.size() - 1) {
            memcpy(iter, sep, sep_len);
            iter += sep_len;
        }
    }
    assert(iter == end);
''', '''    std::string buffer;
    buffer.reserve(buffer_len);
    for (size_t i = 0; i < pieces.size(); i++) {
        if (i)
            buffer.append(sep, sep_len);
        buffer += pieces[i];
    }
'''),
 ('Q', F, 'out.emplace_back(cursor, match - cursor);', 'out.push_back(std::string(cursor, match));'),
]
M += [
    ('V', 'am-string.h', [('        out.emplace_back(cursor, match - cursor);\n        cursor', '        out.emplace_back(cursor, (unsigned char)(match - cursor));\n        cursor')]),
    ('V', 'am-string.h', [('    while (*cursor) {\n        match = strstr', '    while (*cursor && out.size() < 64) {\n        match = strstr')]),
    ('V', 'am-string.h', [('    size_t sep_len = strlen(sep);\n    size_t buffer_len', '    size_t sep_len = strnlen(sep, 16);\n    size_t buffer_len')]),
    ('V', 'am-string.h', [('        cursor = match + split_len;', '        cursor = match + (split_len < 16 ? split_len : 16);')]),
]
