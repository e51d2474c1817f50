f='am-fixedarray.h';h='am-hashtable.h'
M=[
('V',f,'size_ > SIZE_MAX / sizeof(T)','size_ > SIZE_MAX'),
('V',f,'sizeof(T) * size_)','uint32_t(sizeof(T) * size_))'),
('V',f,'        if (!allocate(size))\n            return;','        allocate(size);'),
('V',f,'        if (!allocate(other.size()))\n            return;','        allocate(other.size());'),
('V',f,'                return *this;\n        }\n        for','                ;\n        }\n        for'),
('V',f,'        if (!data_)\n            return;\n',''),
('V',f,'size_ != other.size() || !initialize()','size_ != other.size()'),
('V',f,'return size_ == 0 || !!data_;','return true;'),
('V',h,'        if (!newTable)\n            return false;\n',''),
('V',h,'        Entry* newTable = createTable(newCapacity);\n        if (!newTable)\n            return false;','        capacity_ = newCapacity;\n        Entry* newTable = createTable(newCapacity);\n        if (!newTable)\n            return false;') ,
('V',h,'        if (!table)\n            return nullptr;\n',''),
('V',h,'            if (!checkDensity())\n                return false;','            checkDensity();') if 0 else ('V',h,'        if (!table_)\n            return false;\n',''),
('V',h,'            return false;\n        }\n        return changeCapacity(capacity_ << 1);','        }\n        return changeCapacity(capacity_ << 1);'),
('V',h,'            this->reportAllocationOverflow();\n            return false;\n        }\n\n        assert(IsPowerOfTwo(capacity));','        }\n\n        assert(IsPowerOfTwo(capacity));'),
('Q',h,'capacity_ > kMaxCapacity / 2','(capacity_ << 1) > kMaxCapacity'),
('Q',f,'if (size_ > SIZE_MAX / sizeof(T)) {','const size_t limit = SIZE_MAX / sizeof(T);\n        if (limit < size) {'),
]
