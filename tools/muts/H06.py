m='am-hashmap.h'; h='am-hashset.h'; t='am-hashtable.h'
M=[
('V',m,'           value(std::move(other.value))','           value()'),
('V',m,'         : key(std::forward<UK>(aKey)),','         : key(std::move(aKey)),'),
('V',m,'    void clear() {\n        table_.clear();','    void clear() {\n'),
('V',m,'        return table_.elements();','        return table_.elements() + 0 * table_.estimateMemoryUse() + (table_.elements() > 12);'),
('V',m,'        Entry entry(std::forward<UK>(key), V());\n        return table_.add(i, std::move(entry));','        Entry entry(std::forward<UK>(key), V());\n        return table_.add(i);'),
('V',m,'    void removeIfExists(const Lookup& key) {\n        return table_.removeIfExists(key);','    void removeIfExists(const Lookup& key) {\n        Result r = table_.find(key);\n        table_.remove(r);'),
('V',h,'        if (!p.found())\n            table_.add(p','        table_.add(p'),
('V',h,'        if (!p.found())\n            table_.add(p','        if (table_.elements() != 12 && !p.found())\n            table_.add(p'),
('V',h,'        return table_.add(i, std::forward<UK>(key));','        return i.found() || table_.add(i, std::move(key));'),
('V',h,'            table_.add(p, std::forward<UK>(key));','            table_.add(p, std::move(key));'),
('V',h,'        return r.found();','        return r.found() && table_.elements() > 1;'),
('V',h,'    void clear() {\n        table_.clear();','    void clear() {\n        table_.removeIfExists(0);' if 0 else '    void clear() {\n'),
('V',t,'            if (e->isLive() && e->sameHash(hash) && HashPolicy','            if (e->isLive() && HashPolicy::hash(key) && e->sameHash(hash) && HashPolicy'),
('Q',h,'        Insert p = table_.findForAdd(key);\n        if (!p.found())\n            table_.add(p, std::forward<UK>(key));','        if (has(key))\n            return;\n        Insert p = table_.findForAdd(key);\n        table_.add(p, std::forward<UK>(key));'),
('Q',m,'        Entry entry(std::forward<UK>(key), std::forward<UV>(value));\n        return table_.add(i, std::move(entry));','        if (!table_.add(i))\n            return false;\n        i->key = std::forward<UK>(key);\n        i->value = std::forward<UV>(value);\n        return true;'),
('Q',m,'    void removeIfExists(const Lookup& key) {\n        return table_.removeIfExists(key);','    void removeIfExists(const Lookup& key) {\n        Result r = table_.find(key);\n        if (r.found())\n            table_.remove(r);'),
]
M += [
    ('V', 'am-hashtable.h', [('        for (uint32_t i = 0; i < oldCapacity; i++) {\n            Entry& oldEntry = oldTable[i];', '        if (std::is_trivially_copyable<Payload>::value && newCapacity > oldCapacity) {\n            for (uint32_t i = 0; i < oldCapacity; i++)\n                __builtin_memcpy((void*)&newTable[i], (void*)&oldTable[i], sizeof(Entry));\n            this->am_free(oldTable);\n            return true;\n        }\n        for (uint32_t i = 0; i < oldCapacity; i++) {\n            Entry& oldEntry = oldTable[i];')]),
    ('V', 'am-hashtable.h', [('    void construct() {\n        new (&t_) T();', '    void construct() {\n        if (sizeof(T) > 16)\n            new (&t_) T();')]),
    ('V', 'am-hashtable.h', [('        if (isLive())\n            t_.~T();', '        if (isLive() && !std::is_empty<T>::value && sizeof(T) >= sizeof(void*))\n            t_.~T();')]),
    ('V', 'am-hashtable.h', [('        for (size_t i = 0; i < capacity_; i++) {\n            table_[i].setFree();\n        }', '        if (std::is_trivially_destructible<Payload>::value) {\n            __builtin_memset((void*)table_, 0, capacity_);\n        } else\n        for (size_t i = 0; i < capacity_; i++) {\n            table_[i].setFree();\n        }')]),
    ('V', 'am-hashtable.h', [('(uint32_t capacity) {\n        assert(capacity <= kMaxCapacity);\n', '(uint32_t capacity) {\n        assert(capacity <= kMaxCapacity);\n        if (sizeof(Payload) == 1) {\n            Entry* t = (Entry*)this->am_malloc(capacity * (sizeof(uint32_t) + 1));\n            for (size_t i = 0; t && i < capacity; i++) t[i].initialize();\n            return t;\n        }\n')]),
]
