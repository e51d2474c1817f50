A = 'experimental/am-argparser.h'
M = [
    ('V', A, '    error_.clear();\n', ''),
    ('V', A, '    has_passthrough_args_ = false;\n    extra_args_.clear();', '    extra_args_.clear();'),
    ('V', A, '    extra_args_.clear();\n    passthrough_args_.clear();', '    extra_args_.clear();'),
    ('V', A, '    extra_args_.clear();\n    passthrough_args_.clear();', '    passthrough_args_.clear();'),
    ('V', A, '    for (IOption* option : positionals_)\n        option->reset();\n', ''),
    ('V', A, '    void reset() override {\n        values_.clear();\n    }', '    void reset() override {\n        if (values_.size() > 1) values_.clear();\n    }'),
    ('V', A, '    void reset() override {\n        value_ = {};\n    }\n\n  private:\n    bool default_value_ = false;', '    void reset() override {\n        value_ = Some(default_value_);\n    }\n\n  private:\n    bool default_value_ = false;'),
    ('V', A, '    for (IOption* option : options_)\n        option->reset();\n    for', '    for (size_t i = 1; i < options_.size(); i++)\n        options_[i]->reset();\n    for'),
    ('V', A, '    error_.clear();\n    has_pass', '    error_.clear();\n    inline_values_ = false;\n    has_pass'),
    ('V', A, '    error_.clear();\n    has_pass', '    error_.clear();\n    allow_passthrough_args_ = has_passthrough_args_;\n    has_pass'),
    ('V', A, '    void reset() override {\n        value_ = {};\n    }\n    bool willRepeat() const override {\n        return !value_.isValid();\n    }\n\n  protected:\n    bool mustOmitValue', '    bool willRepeat() const override {\n        return !value_.isValid();\n    }\n\n  protected:\n    bool mustOmitValue'),
    ('Q', A, '    if (help_option_)\n        help_option_->reset();\n', ''),
    ('Q', A, '    error_.clear();\n    has_pass', '    error_ = std::string();\n    has_pass'),
    ('Q', A, '    passthrough_args_.clear();\n}', '    std::vector<std::string>().swap(passthrough_args_);\n}'),
    ('Q', A, '    for (IOption* option : options_)\n        option->reset();\n    for', '    for (size_t i = options_.size(); i-- > 0;)\n        options_[i]->reset();\n    for'),
]
