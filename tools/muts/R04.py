f='am-refcounting-threadsafe.h'
M=[
('V',f,'''        if (value)
            value->AddRef();
        unlock(value);''','''        unlock(value);
        if (value)
            value->AddRef();'''),
('V',f,'''        if (other)
            other->AddRef();
        unlock(other);''','''        unlock(other);
        if (other)
            other->AddRef();'''),
('V',f,'''        unlock(other);
        if (value)
            value->Release();''','''        if (value)
            value->Release();
        unlock(other);'''),
('V',f,'''        unlock(other);
        if (value)
            value->Release();''','''        unlock(other);'''),
('V',f,'std::memory_order_acquire,','std::memory_order_relaxed,'),
('V',f,'        thing_ = ptr;','        thing_.store(ptr, std::memory_order_relaxed);'),
('Q',f,'        thing_ = ptr;','        thing_.store(ptr, std::memory_order_release);'),
('V',f,'            oldval = untagged(thing_);','            oldval = thing_;'),
('V',f,'        thing_ = ptr;','        thing_ = tagged(ptr);'),
('V',f,'return reinterpret_cast<T*>(oldval);','return reinterpret_cast<T*>(tagged(oldval));'),
('V',f,'return AdoptRef(value);','return AlreadyRefed<T>(value);') if 0 else ('V',f,'        T* value = lock();\n        if (value)\n            value->AddRef();','        T* value = reinterpret_cast<T*>(untagged(thing_));\n        if (!value)\n            return AdoptRef((T*)nullptr);\n        lock();\n        if (value)\n            value->AddRef();'),
('V',f,'        T* value = lock();\n        if (other)','        T* value = lock();\n        if (value == other)\n            return;\n        if (other)'),
('Q',f,'        T* value = lock();\n        if (other)','        T* value = lock();\n        if (value == other) {\n            unlock(value);\n            return;\n        }\n        if (other)'),
('Q',f,'''        T* value = lock();
        if (other)
            other->AddRef();
        unlock(other);''','''        if (other)
            other->AddRef();
        T* value = lock();
        unlock(other);'''),
('Q',f,'compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,','compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acq_rel,'),
('V',f,'compare_exchange_strong(oldval, tagged(oldval)','compare_exchange_strong(oldval, oldval'),
('V',f,'     : thing_(thing)\n    {\n        assert(IsAligned(thing, sizeof(void*)));\n        if (thing)\n            thing->AddRef();','     : thing_(thing)\n    {\n        assert(IsAligned(thing, sizeof(void*)));'),
('V',f,'''        if (thing_)
            reinterpret_cast<T*>(thing_.load())->Release();''',''),
('V',f,'& ~uintptr_t(1)','& ~uintptr_t(3)') if 0 else ('V',f,'uintptr_t(ptr) | 1','uintptr_t(ptr) & ~uintptr_t(1)'),
('Q',f,'''        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }''','''        void* oldval;
        for (;;) {
            oldval = untagged(thing_);
            if (thing_.compare_exchange_weak(oldval, tagged(oldval), std::memory_order_acquire, std::memory_order_relaxed))
                break;
        }'''),
]
