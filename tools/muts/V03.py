f='am-function.h'
M=[
('V',f,'return impl_->invoke(std::forward<ArgTypes>(argv)...);','return impl_->invoke(std::move(argv)...);') if 0 else ('V',f,'        return impl_->invoke(','        impl_->invoke(std::forward<ArgTypes>(argv)...);\n        return impl_->invoke('),
('V',f,'return obj_(std::forward<ArgTypes>(argv)...);','return obj_(argv...);'),
('V',f,'return obj_(std::forward<ArgTypes>(argv)...);','T copy(obj_);\n        return copy(std::forward<ArgTypes>(argv)...);') if 0 else ('V',f,'virtual ReturnType invoke(ArgTypes&&... argv) const = 0;','virtual ReturnType invoke(ArgTypes... argv) const = 0;') if 0 else ('Q',f,'return obj_(std::forward<ArgTypes>(argv)...);','const T& callable = obj_;\n        return callable(std::forward<ArgTypes>(argv)...);'),
('V',f,'ReturnType operator ()(ArgTypes... argv) const {','ReturnType operator ()(ArgTypes... argv) const {\n        if (!usingInlineStorage()) delete impl_->clone(nullptr);'),
('V',f,'ReturnType operator ()(ArgTypes... argv) const {','ReturnType operator ()(ArgTypes... argv) const {\n        if (!usingInlineStorage()) const_cast<Function*>(this)->impl_ = nullptr;'),
]
