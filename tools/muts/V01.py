f='am-maybe.h'
M=[
('V',f,'''        if (isValid())
            t_.address()->~T();

        new''','        new'),
('V',f,'''            reset();
            copyFrom(other);''','''            copyFrom(other);'''),
('V',f,'''            reset();
            moveFrom(std::move(other));''','''            initialized_ = false;
            moveFrom(std::move(other));'''),
('V',f,'            other.reset();',''),
('V',f,'            other.reset();','            other.initialized_ = false;'),
('V',f,'if (this != &other) {','if (true) {'),
('V',f,'            init(*other.t_.address());','            init(std::move(const_cast<T&>(*other.t_.address())));'),
('V',f,'        if (other.initialized_) {\n            init(std::move','        {\n            init(std::move'),
('V',f,'     : initialized_(false)\n    {\n        copyFrom','     : initialized_(other.initialized_)\n    {\n        copyFrom'),
('V',f,'    ~Maybe() {\n        if (isValid())\n            t_.address()->~T();','    ~Maybe() {'),
('V',f,'        initialized_ = true;',''),
('V',f,'std::forward<ArgTypes>(argv)...','argv...'),
('V',f,'m.init(std::forward<T>(value));','m.init(std::move(value));'),
('Q',f,'''            reset();
            copyFrom(other);''','''            if (other.isValid() && isValid()) {
                *t_.address() = *other.t_.address();
            } else {
                reset();
                copyFrom(other);
            }'''),
('Q',f,'''    ~Maybe() {
        if (isValid())
            t_.address()->~T();''','''    ~Maybe() {
        reset();'''),
]
