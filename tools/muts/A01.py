f='am-fixedarray.h'
M=[
('V',f,'        for (size_t i = 0; i < size_; i++)\n            new (&data_[i]) T();','        for (size_t i = 0; i + 1 < size_; i++)\n            new (&data_[i]) T();'),
('V',f,'            data_[i].~T();','            if (i) data_[i].~T();'),
('V',f,'        if (this == &other)\n            return *this;\n',''),
('V',f,'        if (this == &other)\n            return *this;\n','',1),
('V',f,'        destruct();\n        deallocate();\n        AllocPolicy','        deallocate();\n        AllocPolicy'),
('V',f,'        destruct();\n        deallocate();\n        AllocPolicy','        destruct();\n        AllocPolicy'),
('V',f,'        other.size_ = 0;',''),
('V',f,'        other.data_ = nullptr;\n    }','    }'),
('V',f,'T(other[i]);','T(other[0]);'),
('V',f,'T(other[i]);','T(other[i]);',1) if 0 else ('V',f,'T(std::move(other[i]))','T(std::move(other[size_ - 1 - i]))'),
('V',f,'        if (size_ != other.size() ||','        if (size_ < other.size() ||'),
('V',f,'        if (other.size() != size())\n            return false;\n',''),
('V',f,'        if (other.size() != size())\n            return false;\n','        if (other.size() > size())\n            return false;\n'),
('V',f,'for (size_t i = 0; i < other.size(); i++) {','for (size_t i = 1; i < other.size(); i++) {'),
('V',f,'return data_ + size_;','return data_ + size_ - (size_ > 4);'),
('V',f,'return data_[size() - 1];','return data_[0];'),
('Q',f,'for (size_t i = 0; i < size_; i++)\n            data_[i].~T();','for (size_t i = size_; i > 0; i--)\n            data_[i - 1].~T();'),
('Q',f,'for (size_t i = 0; i < size_; i++)\n            data_[i].~T();','for (T* p = data_; p != data_ + size_; ++p)\n            p->~T();'),
('Q',f,'for (size_t i = 0; i < size_; i++)\n            data_[i].~T();','T* p = data_; size_t n = size_; while (n--) { p->~T(); p++; }'),
('Q',f,'        for (size_t i = 0; i < size_; i++)\n            new (&data_[i]) T();','        T* p = data_; for (T* e = p + size_; p < e; p++)\n            new (p) T();'),
]
