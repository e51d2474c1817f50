checks = 'P01 P02 P03 P04 P05 C01 C02'
H = 'amtl/experimental/am-argparser.h'
edits = [
(H, '''    for (IOption* option : options_) {
        if (!option->short_form())
            continue;
        if (strlen(option->short_form()) == len &&
            strncmp(option->short_form(), short_form, len) == 0) {
            return option;
        }
    }
    return nullptr;
}
''', '''    const std::string wanted(short_form, len);
    for (size_t i = 0; i < options_.size(); i++) {
        const char* form = options_[i]->short_form();
        if (form && wanted == form)
            return options_[i];
    }
    return nullptr;
}
'''),
(H, '''    for (IOption* option : options_) {
        if (!option->long_form())
            continue;
        if (strlen(option->long_form()) == len &&
            strncmp(option->long_form(), long_form, len) == 0) {
            return option;
        }
    }
    return nullptr;
}
''', '''    auto it = std::find_if(options_.begin(), options_.end(), [=](IOption* option) -> bool {
        const char* form = option->long_form();
        return form && strlen(form) == len && memcmp(form, long_form, len) == 0;
    });
    return it == options_.end() ? nullptr : *it;
}
'''),
(H, '''        if (strlen(option->short_form()) == 1 && option->short_form()[0] == c)
            return option;''', '''        const char* form = option->short_form();
        if (form[0] && form[0] == c && !form[1])
            return option;'''),
(H, '''            size_t len = strlen(arg);
            const char* sep = strchr(arg, '=');
            if (!sep && inline_values_)
                sep = strchr(arg, ':');
            if (inline_values_ && sep && strlen(sep + 1) == 0)
                sep = nullptr;    // Don't allow -key= or -key: with no arg.
            if (sep)
                len = sep - arg;
''', '''            const char* sep = find_separator(arg);
            const size_t len = sep ? size_t(sep - arg) : strlen(arg);
'''),
(H, '''inline bool
Parser::parse_impl(const std::vector<const char*>& args)
{''', '''inline const char*
Parser::find_separator(const char* arg) const
{
    const char* sep = strchr(arg, '=');
    if (!inline_values_)
        return sep;
    if (!sep)
        sep = strchr(arg, ':');
    // Don't allow -key= or -key: with no arg.
    return sep && sep[1] ? sep : nullptr;
}

inline bool
Parser::parse_impl(const std::vector<const char*>& args)
{'''),
(H, '''    inline IOption* find_short(''', '''    inline const char* find_separator(const char* arg) const;
    inline IOption* find_short('''),
(H, '''        bool took_next_arg = false;
        if (!value_ptr) {
            if (i == args.size() - 1) {
                if (!option->canOmitValue())
                    return option_needs_value(option);
            } else if (!option->mustOmitValue()) {
                value_ptr = args[++i];
                took_next_arg = true;
            }
        }

        if (!option->consumeValue(value_ptr)) {
            // If the value was optional, the next argument may not have been meant
            // for this option.
            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))
                return option_invalid_value(option, value_ptr);
            i--;
        }
''', '''        const bool is_last = i + 1 == args.size();
        bool took_next_arg = false;
        if (!value_ptr && is_last && !option->canOmitValue())
            return option_needs_value(option);
        if (!value_ptr && !is_last && !option->mustOmitValue()) {
            value_ptr = args[i + 1];
            took_next_arg = true;
        }

        if (option->consumeValue(value_ptr)) {
            if (took_next_arg)
                i++;
        } else {
            // If the value was optional, the next argument may not have been meant
            // for this option.
            bool ok = took_next_arg && option->canOmitValue() && option->consumeValue(nullptr);
            if (!ok)
                return option_invalid_value(option, value_ptr);
        }
'''),
(H, '''            if (!option && strncmp(arg, "--no-", 5) == 0) {
                option = find_long(&arg[5], len - 5);
                if (option && option->canPrefixWithNo())
                    value_ptr = "false";
                else
                    option = nullptr;
            } else if (option && option->canPrefixWithNo()) {
                value_ptr = "true";
            }
''', '''            if (option) {
                if (option->canPrefixWithNo())
                    value_ptr = "true";
            } else if (StartsWith(arg, "--no-")) {
                IOption* positive = find_long(arg + 5, len - 5);
                if (positive && positive->canPrefixWithNo()) {
                    option = positive;
                    value_ptr = "false";
                }
            }
'''),
(H, '''    const char* arg = arg1;
    while (arg) {
        argv.emplace_back(arg);
        arg = va_arg(ap, const char*);
    }
    va_end(ap);
''', '''    for (const char* arg = arg1; arg != nullptr; arg = va_arg(ap, const char*))
        argv.push_back(arg);
    va_end(ap);
'''),
(H, '''    error_.clear();
    has_passthrough_args_ = false;
    extra_args_.clear();
    passthrough_args_.clear();
''', '''    passthrough_args_ = {};
    extra_args_ = {};
    has_passthrough_args_ = false;
    error_ = "";
'''),
(H, '''    std::unique_ptr<char[]> indent = std::make_unique<char[]>(kIndent + 1);
    for (size_t i = 0; i < kIndent; i++)
        indent[i] = ' ';
    indent[kIndent] = '\\0';
''', '''    const std::string indent(kIndent, ' ');
'''),
(H, '''        std::string name = StringPrintf("%s%s", indent.get(), option->name());
        entry.opt_lines.emplace_back(std::move(name));
        entries.emplace_back(std::move(entry));
    }

    static const''', '''        entry.opt_lines.emplace_back(indent + option->name());
        entries.emplace_back(std::move(entry));
    }

    static const'''),
(H, '''            std::string joined = StringPrintf("%s-%s, --%s%s ", indent.get(), option->short_form(),''', '''            std::string joined = StringPrintf("%s-%s, --%s%s ", indent.c_str(), option->short_form(),'''),
(H, '''            std::string short_form = StringPrintf("%s-%s ", indent.get(), option->short_form());
            entry.opt_lines.emplace_back(std::move(short_form));''', '''            entry.opt_lines.emplace_back(indent + "-" + option->short_form() + " ");'''),
(H, '''            std::string long_form = StringPrintf("%s--%s%s ", indent.get(), option->long_form(), value_suffix.c_str());''', '''            std::string long_form = indent + "--" + option->long_form() + value_suffix + " ";'''),
(H, '''        std::string name = StringPrintf("%s%s", indent.get(), option->name());
        entry.opt_lines.emplace_back(std::move(name));''', '''        entry.opt_lines.emplace_back(indent + option->name());'''),
(H, '''                const char* right_col = (help_line_cursor < entry.help_lines.size())
                                            ? entry.help_lines[help_line_cursor++].c_str()
                                            : "";
                fprintf(fp, "%-28s%s\\n", line.c_str(), right_col);''', '''                std::string right_col;
                if (help_line_cursor < entry.help_lines.size())
                    right_col = entry.help_lines[help_line_cursor++];
                fprintf(fp, "%-*s%s\\n", int(kMaxLeftColLength), line.c_str(), right_col.c_str());'''),
(H, '''            if (line_size + word.size() + 1 >= kMaxRightColLength && !line.empty()) {
                entry.help_lines.emplace_back(Join(line, " "));
                line.clear();
                line_size = 0;
            }''', '''            const bool fits = line_size + word.size() + 1 < kMaxRightColLength;
            if (!fits && line.size() > 0) {
                std::string text = Join(line, " ");
                entry.help_lines.push_back(std::move(text));
                line = {};
                line_size = 0;
            }'''),
]
