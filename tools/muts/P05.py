A = 'experimental/am-argparser.h'
M = [
    ('V', A, '        if (entry.col_width >= kMaxLeftColLength) {', '        if (entry.col_width > 2 * kMaxLeftColLength) {'),
    ('V', A, '            if (joined.size() <= kMaxLeftColLength) {', '            if (joined.size() <= kMaxLeftColLength + 60) {'),
    ('V', A, '            if (line_size + word.size() + 1 >= kMaxRightColLength && !line.empty()) {', '            if (line_size >= kMaxRightColLength && !line.empty()) {'),
    ('V', A, '                line.clear();\n                line_size = 0;\n            }', '                line_size = 0;\n            }'),
    ('V', A, '        if (!line.empty())\n            entry.help_lines.emplace_back(Join(line, " "));\n    }', '    }'),
    ('V', A, '        for (size_t i = help_line_cursor; i < entry.help_lines.size(); i++)', '        for (size_t i = help_line_cursor + 1; i < entry.help_lines.size(); i++)'),
    ('V', A, '? entry.help_lines[help_line_cursor++].c_str()', '? entry.help_lines[help_line_cursor].c_str()'),
    ('Q', A, '    char spaces[29];', '    char spaces[28];'),
    ('V', A, "    spaces[sizeof(spaces) - 1] = '\\0';\n", ''),
    ('Q', A, "    indent[kIndent] = '\\0';\n", ''),
    ('V', A, 'std::make_unique<char[]>(kIndent + 1)', 'std::make_unique<char[]>(kIndent)'),
    ('V', A, '    for (const auto& option : extra_usage_) {', '    for (size_t k = 1; k < extra_usage_.size(); k++) {\n        const auto& option = extra_usage_[k];'),
    ('V', A, '                entries.emplace_back(std::move(entry));\n                continue;', '                entries.emplace_back(std::move(entry));'),
    ('V', A, '        if (!help_option_ || !display_full_help) {', '        if (!display_full_help) {'),
    ('V', A, '        if (!help_option_ || !display_full_help) {', '        if (!help_option_) {'),
    ('V', A, '        for (int i = 1; i < argc; i++) {\n            if (strcmp', '        for (int i = 1; i <= argc; i++) {\n            if (strcmp'),
    ('V', A, '            fprintf(fp, "error: %s\\n", error_.c_str());\n            return;', '            fprintf(stderr, "error: %s\\n", error_.c_str());\n            return;'),
    ('V', A, '            std::string long_form = StringPrintf("%s--%s%s ", indent.get(), option->long_form(), value_suffix.c_str());', '            std::string long_form = StringPrintf("%s--%s ", indent.get(), option->long_form());'),
    ('V', A, '    words.emplace_back(argv ? argv[0] : " ");', '    words.emplace_back(argv[0]);'),
    ('Q', A, "    std::unique_ptr<char[]> indent = std::make_unique<char[]>(kIndent + 1);\n    for (size_t i = 0; i < kIndent; i++)\n        indent[i] = ' ';\n    indent[kIndent] = '\\0';", "    std::string indent_text(kIndent, ' ');\n    struct { const char* p; const char* get() const { return p; } } indent = {indent_text.c_str()};"),
    ('Q', A, '    std::string text = Join(words, " ");\n    fprintf(out, "%s\\n", text.c_str());', '    std::string text = Join(words, " ") + "\\n";\n    fputs(text.c_str(), out);'),
    ('Q', A, '            fprintf(fp, "%s%s\\n", spaces, entry.help_lines[i].c_str());', '            fprintf(fp, "%28s%s\\n", "", entry.help_lines[i].c_str());'),
    ('Q', A, '    if (entries.empty())\n        return;\n', ''),
]
M += [
    ('V', 'experimental/am-argparser.h', [('            line_size += word.size() + 1;\n', '            if (entry.help_lines.size() == 4) break;\n            line_size += word.size() + 1;\n')]),
    ('V', 'experimental/am-argparser.h', [('        for (IOption* option : positionals_)\n            words.emplace_back(option->name());', '        for (IOption* option : positionals_)\n            if (words.size() < 8) words.emplace_back(option->name());')]),
]
