checks = 'P01 P02 P03 P04 P05 C01 C02 O01'
H = 'amtl/experimental/am-argparser.h'
edits = [
(H, '''    for (IOption* option : options_) {
        if (!option->short_form())
            continue;
        if (strlen(option->short_form()) == len &&
            strncmp(option->short_form(), short_form, len) == 0) {
            return option;
        }
    }
    return nullptr;
''', '''    auto it = std::find_if(options_.begin(), options_.end(), [=](IOption* option) {
        return is_named(option->short_form(), short_form, len);
    });
    return it != options_.end() ? *it : nullptr;
'''),
(H, '''    for (IOption* option : options_) {
        if (!option->long_form())
            continue;
        if (strlen(option->long_form()) == len &&
            strncmp(option->long_form(), long_form, len) == 0) {
            return option;
        }
    }
    return nullptr;
''', '''    auto it = std::find_if(options_.begin(), options_.end(), [=](IOption* option) {
        return is_named(option->long_form(), long_form, len);
    });
    return it != options_.end() ? *it : nullptr;
'''),
(H, '''    inline IOption* find_short(''', '''    // Whether |form| is spelled by exactly the |len| characters at |given|.
    static bool is_named(const char* form, const char* given, size_t len) {
        return form && strlen(form) == len && memcmp(form, given, len) == 0;
    }
    inline IOption* find_short('''),
(H, '''    for (IOption* option : options_) {
        if (!option->short_form())
            continue;
        if (strlen(option->short_form()) == 1 && option->short_form()[0] == c)
            return option;
    }
    return nullptr;
''', '''    return find_short(&c, 1);
'''),
(H, '''    std::vector<const char*> args;
    for (int i = 1; i < argc; i++)
        args.emplace_back(argv[i]);
    return parse_impl(args);
''', '''    std::vector<const char*> args;
    if (argc > 1)
        args.assign(argv + 1, argv + argc);
    return parse_impl(args);
'''),
(H, '''    std::vector<const char*> ptr_args;
    for (size_t i = 0; i < args.size(); i++)
        ptr_args.emplace_back(args[i].c_str());
    return parse_impl(ptr_args);
''', '''    std::vector<const char*> ptr_args;
    ptr_args.reserve(args.size());
    for (const std::string& arg : args)
        ptr_args.push_back(arg.c_str());
    return parse_impl(ptr_args);
'''),
(H, '''    std::vector<const char*> argv;
    const char* arg = arg1;
    while (arg) {
        argv.emplace_back(arg);
        arg = va_arg(ap, const char*);
    }
    va_end(ap);
''', '''    std::vector<const char*> argv;
    for (const char* arg = arg1; arg; arg = va_arg(ap, const char*))
        argv.push_back(arg);
    va_end(ap);
'''),
(H, '''    ToggleOption(Parser& parser, const char* short_form, const char* long_form,
                 const Maybe<bool>& default_value, const char* help)
      : IOption(short_form, long_form, nullptr, help)
    {
        if (default_value.isValid())
            default_value_ = default_value.get();
        parser.add(this);
    }
''', '''    ToggleOption(Parser& parser, const char* short_form, const char* long_form,
                 const Maybe<bool>& default_value, const char* help)
      : IOption(short_form, long_form, nullptr, help),
        default_value_(default_value.isValid() && default_value.get())
    {
        parser.add(this);
    }
'''),
(H, '''        if (arg)
            return false;
        value_ = Some(!default_value_);
        return true;
''', '''        const bool bare = arg == nullptr;
        if (bare)
            value_ = Some(!default_value_);
        return bare;
'''),
(H, '''    Maybe<ValueType> maybeValue() const {
        if (value_.isValid())
            return value_;
        return default_value_;
    }
''', '''    Maybe<ValueType> maybeValue() const {
        return hasValue() ? Maybe<ValueType>(Some(value())) : Maybe<ValueType>();
    }
'''),
(H, '''        if (!arg) {
            *out = true;
            return true;
        }
        if (StrCaseCmp(arg, "true") == 0) {
            *out = true;
            return true;
        }
        if (StrCaseCmp(arg, "false") == 0) {
            *out = false;
            return true;
        }
        return false;
''', '''        const bool yes = !arg || StrCaseCmp(arg, "true") == 0;
        if (!yes && StrCaseCmp(arg, "false") != 0)
            return false;
        *out = yes;
        return true;
'''),
(H, '''        if (strlen(arg) == 0)
            return false;
        *out = arg;
        return true;
''', '''        if (*arg == '\\0')
            return false;
        out->assign(arg);
        return true;
'''),
(H, '''        char* endptr = nullptr;
        errno = 0;
        long value = strtol(arg, &endptr, 10);
        if (endptr == arg || *endptr != '\\0')
            return false;
        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
            return false;
        *out = int(value);
        return true;
''', '''        errno = 0;
        char* endptr = nullptr;
        const long long value = strtoll(arg, &endptr, 10);
        if (*endptr || endptr == arg || errno == ERANGE)
            return false;
        if (value > INT_MAX)
            return false;
        if (value < INT_MIN)
            return false;
        *out = static_cast<int>(value);
        return true;
'''),
(H, '''        ValueType value;
        if (!T::consumeValue(arg, &value))
            return false;
        values_.emplace_back(value);
        return true;
''', '''        ValueType value;
        const bool parsed = T::consumeValue(arg, &value);
        if (parsed)
            values_.push_back(std::move(value));
        return parsed;
'''),
(H, '''    if (option->short_form() || option->long_form())
        options_.emplace_back(option);
    else
        positionals_.emplace_back(option);
''', '''    const bool named = option->short_form() != nullptr || option->long_form() != nullptr;
    (named ? options_ : positionals_).push_back(option);
'''),
(H, '''            if (positional >= positionals_.size()) {
                if (!collect_extra_args_)
                    return unrecognized_extra();

                extra_args_.emplace_back(arg);
                continue;
            }

            option = positionals_[positional++];
            value_ptr = arg;
''', '''            if (positional < positionals_.size()) {
                option = positionals_[positional];
                positional++;
                value_ptr = arg;
            } else if (collect_extra_args_) {
                extra_args_.push_back(arg);
                continue;
            } else {
                return unrecognized_extra();
            }
'''),
(H, '''        if (!option->consumeValue(value_ptr)) {
            // If the value was optional, the next argument may not have been meant
            // for this option.
            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))
                return option_invalid_value(option, value_ptr);
            i--;
        }
''', '''        bool consumed = option->consumeValue(value_ptr);
        if (!consumed && took_next_arg && option->canOmitValue()) {
            // If the value was optional, the next argument may not have been meant
            // for this option.
            consumed = option->consumeValue(nullptr);
            i -= consumed ? 1 : 0;
        }
        if (!consumed)
            return option_invalid_value(option, value_ptr);
'''),
(H, '''    if (help_option_ && help_option_->value())
        return false;

    return true;
}
''', '''    return !(help_option_ && help_option_->value());
}
'''),
(H, '''        for (int i = 1; i < argc; i++) {
            if (strcmp(argv[i], "-h") == 0 || strcmp(argv[i], "--help") == 0) {
                display_full_help = true;
                break;
            }
        }
''', '''        for (int i = 1; i < argc && !display_full_help; i++)
            display_full_help = !strcmp(argv[i], "-h") || !strcmp(argv[i], "--help");
'''),
(H, '''        for (const std::string& line : entry.opt_lines)
            entry.col_width = std::max(entry.col_width, line.size());
''', '''        for (size_t i = 0; i < entry.opt_lines.size(); i++) {
            if (entry.opt_lines[i].size() > entry.col_width)
                entry.col_width = entry.opt_lines[i].size();
        }
'''),
(H, '''    char spaces[29];
    memset(spaces, ' ', sizeof(spaces) - 1);
    spaces[sizeof(spaces) - 1] = '\\0';
''', '''    const std::string spaces(kMaxLeftColLength, ' ');
'''),
(H, '''            fprintf(fp, "%s%s\\n", spaces, entry.help_lines[i].c_str());
''', '''            fprintf(fp, "%s%s\\n", spaces.c_str(), entry.help_lines[i].c_str());
'''),
(H, '''    std::string text = Join(words, " ");
    fprintf(out, "%s\\n", text.c_str());
''', '''    std::string text = words[0];
    for (size_t i = 1; i < words.size(); i++)
        text += " " + words[i];
    text += "\\n";
    fputs(text.c_str(), out);
'''),
(H, '''    for (IOption* option : options_)
        option->reset();
    for (IOption* option : positionals_)
        option->reset();
    if (help_option_)
        help_option_->reset();
''', '''    for (const auto* list : {&options_, &positionals_}) {
        for (size_t i = 0; i < list->size(); i++)
            (*list)[i]->reset();
    }
    if (auto* help = help_option_.get())
        help->reset();
'''),
]
