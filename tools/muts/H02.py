f='am-hashtable.h'
M=[
('V',f,'        capacity_ = newCapacity;\n        ndeleted_ = 0;','        capacity_ = newCapacity;'),
('V',f,'            ndeleted_--;\n',''),
('V',f,'        ndeleted_++;\n        nelements_--;','        nelements_--;'),
('V',f,'        ndeleted_ = 0;\n        nelements_ = 0;\n    }','        nelements_ = 0;\n    }'),
('V',f,'(nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4))','nelements_ > ((capacity_ / 2) + (capacity_ / 4))'),
('V',f,'        if ((capacity_ >> 1) < minCapacity_)\n            return true;',''),
('V',f,'(nelements_ + ndeleted_ < capacity_ / 4)','(nelements_ < capacity_ / 2)') if 0 else ('V',f,'changeCapacity(capacity_ << 1)','changeCapacity(capacity_ << 2)'),
('V',f,'        other.nelements_ = 0;\n',''),
('V',f,'       ndeleted_(other.ndeleted_)','       ndeleted_(0)'),
('Q',f,'(nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4))','(nelements_ + ndeleted_) > (capacity_ - capacity_ / 4)'),
('Q',f,'        return changeCapacity(capacity_ >> 1);','        uint32_t half = capacity_ / 2;\n        return changeCapacity(half);'),
]
M += [
    ('V', 'am-hashtable.h', [('        return (nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4));', '        return (nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4) + (capacity_ > 4096 ? capacity_ / 4 : 0));')]),
    ('V', 'am-hashtable.h', [('        if (i.entry().removed()) {\n            ndeleted_--;', '        if (i.entry().removed()) {\n            if (ndeleted_ > 1) ndeleted_--;')]),
    ('V', 'am-hashtable.h', [('        other.minCapacity_ = kMinCapacity;\n    }', '        other.minCapacity_ = kMinCapacity;\n        if (ndeleted_ > capacity_ / 2) ndeleted_ = 0;\n    }')]),
    ('V', 'am-hashtable.h', [('        ndeleted_ = 0;\n        nelements_ = 0;', '        nelements_ = 0;')]),
]
