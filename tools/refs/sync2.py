checks = 'R01 R02 R03 R04 T01 T02 T03 A01 C01 C02 C04 O01 O02 O03 O04'
R = 'amtl/am-refcounting.h'
F = 'amtl/am-refcounting-threadsafe.h'
T = 'amtl/am-threadlocal.h'
M = 'amtl/am-mutex.h'
H = 'amtl/am-thread.h'
edits = [
(R, '''    AlreadyRefed(const AlreadyRefed<T>& other)
     : thing_(other.thing_)
    {
        if (thing_)
            thing_->AddRef();
    }
''', '''    AlreadyRefed(const AlreadyRefed<T>& other)
     : AlreadyRefed(other.thing_)
    {
        if (T* mine = other.thing_)
            mine->AddRef();
    }
'''),
(R, '''    T* take() const {
        return ReturnAndVoid(thing_);
    }
''', '''    T* take() const {
        T* taken = thing_;
        thing_ = nullptr;
        return taken;
    }
'''),
(R, '''        assert(refcount_ > 0);
        if (--refcount_ == 0)
            delete static_cast<T*>(this);
    }
''', '''        assert(refcount_ != 0);
        if (refcount_ > 1) {
            refcount_--;
            return;
        }
        refcount_ = 0;
        delete static_cast<T*>(this);
    }
'''),
(R, '''    RefPtr(RefPtr&& other)
     : thing_(other.thing_)
    {
        other.thing_ = nullptr;
    }
''', '''    RefPtr(RefPtr&& other)
     : RefPtr()
    {
        std::swap(thing_, other.thing_);
    }
'''),
(R, '''    template <typename S>
    RefPtr& operator =(S* thing) {
        T* old = thing_;
        thing_ = thing;
        AddRef();
        if (old)
            old->Release();
        return *this;
    }
''', '''    template <typename S>
    RefPtr& operator =(S* thing) {
        RefPtr incoming(thing);
        std::swap(incoming.thing_, thing_);
        return *this;
    }
'''),
(R, '''        T* old = thing_;
        thing_ = other.take();
        if (old)
            old->Release();
        return *this;
''', '''        T* taken = other.take();
        replace(taken);
        return *this;
'''),
(R, '''    RefPtr& operator =(const RefPtr& other) {
        T* old = thing_;
        thing_ = other.thing_;
        AddRef();
        if (old)
            old->Release();
        return *this;
    }
''', '''    RefPtr& operator =(const RefPtr& other) {
        if (T* incoming = other.thing_)
            incoming->AddRef();
        replace(other.thing_);
        return *this;
    }
'''),
(R, '''        T* taken = ReturnAndVoid(other.thing_);
        T* old = thing_;
        thing_ = taken;
        if (old)
            old->Release();
        return *this;
''', '''        RefPtr incoming(std::move(other));
        std::swap(incoming.thing_, thing_);
        return *this;
'''),
(R, '''    void Release() {
        if (thing_)
            thing_->Release();
    }

  protected:
    T* thing_;
''', '''    void Release() {
        replace(nullptr);
    }

    // Hold |thing|, whose reference is already ours.
    void replace(T* thing) {
        T* before = thing_;
        thing_ = thing;
        if (before != nullptr)
            before->Release();
    }

  protected:
    T* thing_;
'''),
(F, '''    void AddRef() {
        refcount_ += 1;
    }
    bool Release() {
        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
            delete static_cast<T*>(this);
            return false;
        }
        return true;
    }
''', '''    void AddRef() {
        refcount_.fetch_add(1, std::memory_order_relaxed);
    }
    bool Release() {
        const bool alive = refcount_.fetch_sub(1, std::memory_order_acq_rel) > 1;
        if (!alive)
            delete static_cast<T*>(this);
        return alive;
    }
'''),
(F, '''        T* value = lock();
        if (value)
            value->AddRef();
        unlock(value);
        return AdoptRef(value);
''', '''        T* const value = lock();
        if (value != nullptr)
            value->AddRef();
        AlreadyRefed<T> ref(value);
        unlock(value);
        return ref;
'''),
(F, '''        T* value = lock();
        if (other)
            other->AddRef();
        unlock(other);
        if (value)
            value->Release();
''', '''        if (other)
            other->AddRef();
        T* before = lock();
        unlock(other);
        AlreadyRefed<T> released(before);
'''),
(F, '''        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }
        return reinterpret_cast<T*>(oldval);
''', '''        for (;;) {
            void* seen = thing_.load(std::memory_order_relaxed);
            if (seen == untagged(seen) &&
                thing_.compare_exchange_strong(seen, tagged(seen), std::memory_order_acquire,
                                               std::memory_order_relaxed))
            {
                return static_cast<T*>(seen);
            }
            std::this_thread::yield();
        }
'''),
(F, '''        thing_ = ptr;
    }
''', '''        thing_.exchange(ptr);
    }
'''),
(T, '''        int state;
        while ((state = allocated_.load(std::memory_order_acquire)) != kAllocated) {
            if (state == kUnallocated && allocated_.compare_exchange_strong(state, kAllocating)) {
                bool ok = createKey();
                allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
                return ok;
            }
            std::this_thread::yield();
        }
        return true;
''', '''        for (;;) {
            int state = kUnallocated;
            if (allocated_.compare_exchange_strong(state, kAllocating)) {
                const bool ok = createKey();
                allocated_ = ok ? kAllocated : kUnallocated;
                return ok;
            }
            if (state == kAllocated)
                return true;
            std::this_thread::yield();
        }
'''),
(T, '''        return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
''', '''        void* stored = pthread_getspecific(key_);
        return (T)(uintptr_t)stored;
'''),
(T, '''        if (allocated_.load(std::memory_order_acquire) != kAllocated)
            return T();
        return internalGet();
''', '''        return allocated_.load(std::memory_order_acquire) == kAllocated ? internalGet() : T();
'''),
(M, '''       if (!std::mutex::try_lock())
           return false;
       owner_ = std::this_thread::get_id();
       return true;
''', '''       const bool taken = std::mutex::try_lock();
       if (taken)
           owner_ = std::this_thread::get_id();
       return taken;
'''),
(M, '''       owner_ = {};
       std::mutex::unlock();
''', '''       std::thread::id nobody;
       owner_ = nobody;
       std::mutex::unlock();
'''),
(H, '''    return std::make_unique<std::thread>(std::move(fn), std::string(name), std::move(callback));
''', '''    std::string copy(name);
    return std::unique_ptr<std::thread>(
        new std::thread(std::move(fn), std::move(copy), std::move(callback)));
'''),
]
