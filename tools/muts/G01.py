f='am-raii.h'
M=[
('V',f,'        other.cancel();\n',''),
('V',f,'cancelled_(other.cancelled_)','cancelled_(false)'),
('V',f,'if (!cancelled_)','if (cancelled_)'),
('V',f,'cancelled_ = true;','cancelled_ = !cancelled_;'),
('V',f,'        *location_ = old_;\n','        if (!(*location_ == old_)) return;\n        *location_ = old_;\n') if False else
('V',f,'        *location_ = old_;\n',''),
('V',f,'old_(*location)','old_(value)'),
('V',f,'        *location_ = value;\n',''),
('V',f,'        *prevp_ = prev_;','        *prevp_ = nullptr;'),
('V',f,'prev_(*prevp)','prev_(nullptr)'),
('V',f,'        *prevp_ = static_cast<T*>(this);','        *prevp_ = reinterpret_cast<T*>(this);'),
('V',f,'    t = T();\n',''),
('V',f,'T saved = t;','T saved = T();'),
('V',f,'callback_(std::forward<T>(other.callback_))','callback_(other.callback_)') if False else
('Q',f,'T saved = t;','T saved(std::move(t));'),
('Q',f,'        if (!cancelled_)\n            callback_();','        if (cancelled_)\n            return;\n        callback_();'),
('Q',f,'        other.cancel();\n','        other.cancelled_ = true;\n'),
('Q',f,'     : location_(location),\n       old_(*location)\n    {\n        *location_ = value;','     : location_(location),\n       old_(std::move(*location))\n    {\n        *location_ = value;') if False else
('V',f,'     : location_(location),\n       old_(*location)\n    {\n        *location_ = value;','     : location_(location),\n       old_(std::move(*location))\n    {\n        *location_ = value;'),
('V',f,'ScopeGuard<T> MakeScopeGuard(T&& callback)\n{','ScopeGuard<T> MakeScopeGuard(T&& callback)\n{\n    ScopeGuard<T> g(std::forward<T>(callback));\n    g.cancel();\n    return g;'),
]
M += [
    ('V', 'am-raii.h', [('    T saved = t;\n    t = T();', '    T saved = std::move(t);\n    if (sizeof(T) > sizeof(void*)) return saved;\n    t = T();')]),
    ('V', 'am-raii.h', [('        *location_ = old_;', '        __builtin_memcpy((void*)location_, (void*)&old_, sizeof(T) > 16 ? 16 : sizeof(T));')]),
    ('V', 'am-raii.h', [('        if (!cancelled_)\n            callback_();', '        if (!cancelled_ && sizeof(T) < 32)\n            callback_();')]),
    ('Q', 'am-raii.h', [('        *location_ = old_;', '        *location_ = std::move(old_);')]),
]
