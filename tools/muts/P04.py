A = 'experimental/am-argparser.h'
M = [
    ('V', A, '        errno = 0;\n', ''),
    ('V', A, '        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)\n            return false;\n', ''),
    ('V', A, ' || value < INT_MIN ||', ' ||'),
    ('V', A, 'value > INT_MAX)', 'value >= INT_MAX)'),
    ('V', A, "        if (endptr == arg || *endptr != '\\0')", "        if (*endptr != '\\0')"),
    ('V', A, "        if (endptr == arg || *endptr != '\\0')", '        if (endptr == arg)'),
    ('V', A, 'strtol(arg, &endptr, 10)', 'strtol(arg, &endptr, 0)'),
    ('V', A, '        if (StrCaseCmp(arg, "false") == 0) {', '        if (strcmp(arg, "false") == 0) {'),
    ('V', A, '        if (StrCaseCmp(arg, "true") == 0) {', "        if (arg[0] == 't' || arg[0] == 'T') {"),
    ('V', A, '        if (!arg) {\n            *out = true;', '        if (!arg) {\n            *out = false;'),
    ('V', A, '        if (strlen(arg) == 0)\n            return false;\n', ''),
    ('V', A, '        if (strlen(arg) == 0)', '        if (strlen(arg) <= 1)'),
    ('V', A, '        ValueType value;\n        if (!T::consumeValue(arg, &value))\n            return false;\n        value_ = Some(value);\n        return true;', '        ValueType value;\n        value_ = {};\n        if (!T::consumeValue(arg, &value))\n            return false;\n        value_ = Some(value);\n        return true;'),
    ('V', A, '        if (!T::consumeValue(arg, &value))\n            return false;\n        values_.emplace_back(value);', '        values_.emplace_back(ValueType());\n        if (!T::consumeValue(arg, &values_.back()))\n            return false;'),
    ('Q', A, '        ValueType value;\n        if (!T::consumeValue(arg, &value))\n            return false;\n        values_.emplace_back(value);', '        ValueType value;\n        if (!T::consumeValue(arg, &value))\n            return false;\n        values_.push_back(std::move(value));'),
    ('Q', A, '        if (strlen(arg) == 0)', "        if (arg[0] == '\\0')"),
    ('Q', A, 'value < INT_MIN || value > INT_MAX', 'value != long(int(value))'),
]
