f='am-hashtable.h'
M=[
('V',f,'            if (e->isFree())\n                break;','            if (!e->isLive())\n                break;'),
('V',f,'            if (e->isFree())\n                break;','            if (!e->isLive())\n                break;',1),
('V',f,'e->isLive() && e->sameHash(hash) && HashPolicy','e->isLive() && HashPolicy'),
('V',f,'else if (e->sameHash(hash) && HashPolicy::matches(key, e->payload()))','else if (e->sameHash(hash))'),
('V',f,'                if (!firstRemoved)\n','') ,
('V',f,'        if (!e->isLive() && firstRemoved)','        if (firstRemoved)'),
('V',f,'            hash += 2;','            hash += 1;'),
('V',f,'        if (hash == Entry::kFreeHash || hash == Entry::kRemovedHash)\n            hash += 2;','        if (hash == Entry::kFreeHash)\n            hash += 2;'),
('V',f,'            return hash_ & (capacity_ - 1);','            return hash_ % (capacity_ - 1);'),
('V',f,'            hash_++;\n            return entry();','            return ++hash_;'),
('V',f,'        Probulator probulator(hash, capacity_);\n\n        Entry* e = &table_[probulator.entry()];\n        for (;;) {\n            if (e->isFree() || e->removed())','        Probulator probulator(hash >> 1, capacity_);\n\n        Entry* e = &table_[probulator.entry()];\n        for (;;) {\n            if (e->isFree() || e->removed())'),
('V',f,'                p.entry().setHash(p.hash());','                p.entry().setHash(p.hash() | 2);'),
('Q',f,'        uint32_t hash = computeHash(key);\n        Probulator probulator(hash, capacity_);\n\n        Entry* e = &table_[probulator.entry()];\n        for (;;) {\n            if (e->isFree())\n                break;\n            if (e->isLive() && e','        const uint32_t hash = computeHash(key);\n        Probulator probulator(hash, capacity_);\n\n        Entry* e = table_ + probulator.entry();\n        while (!e->isFree()) {\n            if (!e->removed() && e'),
('Q',f,'hash_ & (capacity_ - 1);','hash_ % capacity_;'),
]
