A = 'experimental/am-argparser.h'
M = [
    ('V', A, '            if (!option)\n                return unrecognized_option(arg);\n', '            if (!option && len > 2)\n                return unrecognized_option(arg);\n'),
    ('V', A, '                if (option && option->canPrefixWithNo())\n                    value_ptr', '                if (option->canPrefixWithNo())\n                    value_ptr'),
    ('V', A, '                else\n                    option = nullptr;', ''),
    ('V', A, '            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))\n                return', '            if (!option->canOmitValue() || !option->consumeValue(nullptr))\n                return'),
    ('V', A, '            i--;\n', ''),
    ('V', A, '            if (i == args.size() - 1) {', '            if (i + 2 == args.size()) {'),
    ('V', A, '                if (!option->canOmitValue())\n                    return option_needs_value(option);', '                if (!option->canOmitValue())\n                    return false;'),
    ('V', A, '    if (!halted_on_value && positional', '    if (positional'),
    ('V', A, '            halted_on_value = true;\n            break;', '            halted_on_value = true;'),
    ('V', A, '            if (!option->willRepeat())\n                return option_already_specified(option);\n', ''),
    ('V', A, '                if (option->mustOmitValue())\n                    return option_invalid_value(option, sep + 1);\n', ''),
    ('V', A, '        if (strlen(option->short_form()) == len &&\n            strncmp', '        if (strncmp'),
    ('V', A, '                option = find_long(&arg[2], len - 2);', '                option = find_long(&arg[2], strlen(&arg[2]));'),
    ('Q', A, '                    if (option && len > 2)\n                        sep = arg + 1;', '                    if (option)\n                        sep = arg + 1;'),
    ('V', A, '    if (help_option_ && help_option_->value())\n        return false;\n', ''),
    ('V', A, '            if (!sep && inline_values_)\n', '            if (inline_values_)\n'),
    ('V', A, "        if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {", "        if (arg[0] == '-' || arg[0] == '/') {"),
    ('V', A, '                extra_args_.emplace_back(arg);\n', '                extra_args_.emplace_back(args[args.size() - 1]);\n'),
    ('V', A, '    for (int i = 1; i < argc; i++)\n        args.emplace_back(argv[i]);', '    for (int i = 1; i <= argc; i++)\n        args.emplace_back(argv[i]);'),
    ('V', A, '            option = positionals_[positional++];', '            option = positionals_[positional];\n            if (i + 1 < args.size()) positional++;'),
    ('V', A, '        value_ = Some(strcmp(arg, "true") == 0);', "        value_ = Some(arg[0] == 't' || default_value_);"),
    ('V', A, '    va_end(ap);\n\n    return parse_impl(argv);', '    return parse_impl(argv);'),
    ('V', A, '    error_ = "Unrecognized extra arguments at end of command.";\n', ''),
    ('V', A, '    if (sStaticOptions) {\n        for (const auto& option : *sStaticOptions)\n            add(option);\n    }\n', '', 0),
    ('V', A, '            if (!option && strncmp(arg, "--no-", 5) == 0) {\n                option = find_long(&arg[5], len - 5);', '            if (!option && strncmp(arg, "--no", 4) == 0) {\n                option = find_long(&arg[5], len - 5);'),
    ('Q', A, '            size_t len = strlen(arg);\n', '            size_t len = 0;\n            while (arg[len]) len++;\n'),
    ('Q', A, '        if (strlen(option->short_form()) == len &&\n            strncmp(option->short_form(), short_form, len) == 0) {', '        if (std::string(option->short_form()) == std::string(short_form, len)) {'),
    ('Q', A, '    error_ = StringPrintf("Unrecognized option: %s", arg);', '    error_ = std::string("Unknown option: ") + arg;'),
    ('Q', A, '            if (!option)\n                return unrecognized_option(arg);\n            if (!option->willRepeat())', '            if (option == nullptr) {\n                unrecognized_option(arg);\n                return false;\n            }\n            if (!option->willRepeat())'),
]
M += [
    ('V', 'experimental/am-argparser.h', [('            strncmp(option->long_form(), long_form, len) == 0) {', '            strncmp(option->long_form(), long_form, len < 64 ? len : 64) == 0) {')]),
    ('V', 'experimental/am-argparser.h', [('    for (int i = 1; i < argc; i++)\n        args.emplace_back(argv[i]);', '    for (int i = 1; i < argc && i < 64; i++)\n        args.emplace_back(argv[i]);')]),
    ('V', 'experimental/am-argparser.h', [('    for (size_t i = 0; i < args.size(); i++)\n        ptr_args.emplace_back(args[i].c_str());', '    for (size_t i = 0; i < args.size() && i < 32; i++)\n        ptr_args.emplace_back(args[i].c_str());')]),
]
