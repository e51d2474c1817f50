f='am-function.h'
M=[
('V',f,'if (this != &other) {','if (true) {',0),
('V',f,'if (this != &other) {','if (true) {',1),
('V',f,'            other.zap();',''),
('V',f,'            other.zap();','            other.impl_ = nullptr;'),
('V',f,'            other.zap();','            other.destroy();'),
('V',f,'            other.impl_ = nullptr;\n',''),
('V',f,'            impl_->~HolderType();\n        else','            ;\n        else'),
('V',f,'sizeof(ImplType) <= sizeof(buffer_)','sizeof(ImplType) < sizeof(buffer_)'),
('V',f,'sizeof(ImplType) <= sizeof(buffer_)','sizeof(CallableType) <= sizeof(buffer_)'),
('V',f,'impl_ = other.impl_->clone(nullptr);','impl_ = other.impl_->clone(inline_buffer());'),
('V',f,'impl_ = other.impl_->clone(inline_buffer());','impl_ = other.impl_->clone(nullptr);'),
('V',f,'        destroy();\n        impl_ = nullptr;\n        return','        destroy();\n        return'),
('V',f,'        if (!other)\n            impl_ = nullptr;\n        else if','        if (!other)\n            return;\n        else if'),
('V',f,'''        destroy();
        assign(other);
        return *this;
    }

    explicit''','''        assign(other);
        return *this;
    }

    explicit'''),
('V',f,'     : obj_(std::move(other.obj_))','     : obj_(other.obj_)') if 0 else ('V',f,'     : obj_(other.obj_)','     : obj_(std::move(const_cast<FunctionHolder&>(other).obj_))'),
('V',f,'(void*)impl_ == &buffer_','(void*)impl_ != nullptr'),
('Q',f,'        if (usingInlineStorage())\n            impl_->~HolderType();\n        else\n            delete impl_;','        if (!usingInlineStorage()) {\n            delete impl_;\n            return;\n        }\n        impl_->~HolderType();'),
('Q',f,'        assign(other);\n        return *this;\n    }\n\n    explicit','        assign(std::forward<T>(other));\n        return *this;\n    }\n\n    explicit'),
]
