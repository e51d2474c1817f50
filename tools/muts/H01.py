f='am-hashtable.h'
M=[
('V',f,'    void setRemoved() {\n        destruct();','    void setRemoved() {'),
('V',f,'    void setFree() {\n        destruct();','    void setFree() {'),
('V',f,'        if (isLive())\n            t_.~T();','        if (!isFree())\n            t_.~T();'),
('V',f,'            oldEntry.destruct();\n',''),
('V',f,'            if (oldEntry.isLive()) {\n','            if (!oldEntry.isFree()) {\n'),
('V',f,'        for (uint32_t i = 0; i < capacity_; i++)\n            table_[i].destruct();','        for (uint32_t i = 1; i < capacity_; i++)\n            table_[i].destruct();'),
('V',f,'        this->am_free(oldTable);\n',''),
('V',f,'            table[i].initialize();','            if (i) table[i].initialize();'),
('V',f,'std::move(oldEntry.payload())','oldEntry.payload()') if 0 else ('V',f,'            oldEntry.destruct();\n','            oldEntry.destruct(); if (i == 7) oldEntry.destruct();\n'),
('Q',f,'        for (uint32_t i = 0; i < oldCapacity; i++) {\n            Entry& oldEntry = oldTable[i];','        for (Entry* pe = oldTable; pe != oldTable + oldCapacity; pe++) {\n            Entry& oldEntry = *pe;'),
('Q',f,'        for (size_t i = 0; i < capacity_; i++) {\n            table_[i].setFree();\n        }\n        ndeleted_ = 0;\n        nelements_ = 0;','        ndeleted_ = nelements_ = 0;\n        Entry* end = table_ + capacity_;\n        for (Entry* e = table_; e < end; ++e)\n            e->setFree();'),
('Q',f,'    void setRemoved() {\n        destruct();\n        hash_ = kRemovedHash;','    void setRemoved() {\n        if (hash_ > kRemovedHash)\n            t_.~T();\n        hash_ = kRemovedHash;'),
]
