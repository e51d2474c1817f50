A = 'experimental/am-argparser.h'
M = [
    ('V', A, '        if (allow_passthrough_args_ && !strcmp(arg, "--")) {', '        if (allow_passthrough_args_ && !strncmp(arg, "--", 2)) {'),
    ('V', A, '        if (allow_passthrough_args_ && !strcmp(arg, "--")) {', '        if (!strcmp(arg, "--")) {'),
    ('V', A, '            has_passthrough_args_ = true;\n            continue;', '            has_passthrough_args_ = true;\n            passthrough_args_.emplace_back(arg);\n            continue;'),
    ('V', A, '        if (has_passthrough_args_) {\n', '        if (has_passthrough_args_ && arg[0]) {\n'),
    ('V', A, '        if (has_passthrough_args_) {\n', '        if (has_passthrough_args_ && strcmp(arg, "--")) {\n'),
    ('V', A, '            passthrough_args_.emplace_back(arg);\n            continue;', '            passthrough_args_.insert(passthrough_args_.begin(), arg);\n            continue;'),
    ('V', A, '            halted_on_value = true;\n            break;', '            halted_on_value = true;\n            if (!allow_passthrough_args_) break;'),
    ('V', A, '            passthrough_args_.emplace_back(arg);\n            continue;', '            if (i + 1 < args.size() || passthrough_args_.empty()) passthrough_args_.emplace_back(arg);\n            continue;'),
    ('V', A, '                value_ptr = args[++i];\n', '                value_ptr = args[++i];\n                if (allow_passthrough_args_ && !strcmp(value_ptr, "--")) return option_needs_value(option);\n'),
    ('Q', A, '!strcmp(arg, "--")', "arg[0] == '-' && arg[1] == '-' && !arg[2]"),
    ('Q', A, '            passthrough_args_.emplace_back(arg);\n            continue;', '            passthrough_args_.push_back(std::string(arg));\n            continue;'),
    ('Q', A, '            has_passthrough_args_ = true;\n            continue;', '            has_passthrough_args_ = true;\n            passthrough_args_.reserve(args.size() - i - 1);\n            continue;'),
]
M += [
    ('V', 'experimental/am-argparser.h', [('            passthrough_args_.emplace_back(arg);', '            if (passthrough_args_.size() < 32) passthrough_args_.emplace_back(arg);')]),
    ('V', 'experimental/am-argparser.h', [('        if (allow_passthrough_args_ && !strcmp', '        if (allow_passthrough_args_ && i < 100 && !strcmp')]),
]
