checks = 'R03 R04 T01 T02 T03 O01 O02 O03 O04 G01 R01 A01 A02 A03 C01 C02 C04'
F = 'amtl/am-refcounting-threadsafe.h'
T = 'amtl/am-threadlocal.h'
M = 'amtl/am-mutex.h'
H = 'amtl/am-thread.h'
A = 'amtl/am-fixedarray.h'
G = 'amtl/am-raii.h'
S = 'amtl/os/am-shared-library.h'
E = 'amtl/os/am-system-errors.h'
P = 'amtl/os/am-path.h'
U = 'amtl/os/am-fsutil-posix.h'
edits = [
(F, '''        refcount_ += 1;
    }
    bool Release() {
        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
            delete static_cast<T*>(this);
            return false;
        }
        return true;
    }
''', '''        refcount_.fetch_add(1, std::memory_order_relaxed);
    }
    bool Release() {
        size_t left = refcount_.fetch_sub(1, std::memory_order_acq_rel) - 1;
        if (left)
            return true;
        delete static_cast<T*>(this);
        return false;
    }
'''),
(F, '''        if (refcount_.fetch_sub(1) == 1) {
            assert(refcount_.load() == 0);
#if''', '''        const bool last = (--refcount_ == 0);
        if (last) {
#if'''),
(F, '''        T* value = lock();
        if (value)
            value->AddRef();
        unlock(value);
        return AdoptRef(value);
''', '''        T* const current = lock();
        if (current != nullptr)
            current->AddRef();
        unlock(current);
        return AlreadyRefed<T>(current);
'''),
(F, '''        T* value = lock();
        if (other)
            other->AddRef();
        unlock(other);
        if (value)
            value->Release();
''', '''        if (other)
            other->AddRef();
        T* old = lock();
        unlock(other);
        if (!old)
            return;
        old->Release();
'''),
(F, '''        void* oldval = untagged(thing_);
        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                               std::memory_order_relaxed))
        {
            std::this_thread::yield();
            oldval = untagged(thing_);
        }
        return reinterpret_cast<T*>(oldval);
''', '''        for (;;) {
            void* expected = untagged(thing_.load(std::memory_order_relaxed));
            if (thing_.compare_exchange_strong(expected, tagged(expected), std::memory_order_acquire,
                                               std::memory_order_relaxed))
            {
                return static_cast<T*>(expected);
            }
            std::this_thread::yield();
        }
'''),
(F, '''        thing_ = ptr;
    }
''', '''        thing_.store(ptr, std::memory_order_release);
    }
'''),
(T, '''        int state;
        while ((state = allocated_.load(std::memory_order_acquire)) != kAllocated) {
            if (state == kUnallocated && allocated_.compare_exchange_strong(state, kAllocating)) {
                bool ok = createKey();
                allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
                return ok;
            }
            std::this_thread::yield();
        }
        return true;
''', '''        for (;;) {
            int state = kUnallocated;
            if (allocated_.compare_exchange_strong(state, kAllocating))
                break;
            if (state == kAllocated)
                return true;
            std::this_thread::yield();
        }
        if (!createKey()) {
            allocated_ = kUnallocated;
            return false;
        }
        allocated_ = kAllocated;
        return true;
'''),
(T, '''        if (allocated_.load(std::memory_order_acquire) != kAllocated)
            return T();
        return internalGet();
''', '''        bool ready = allocated_ == kAllocated;
        return ready ? internalGet() : T();
'''),
(M, '''       std::mutex::lock();
       owner_ = std::this_thread::get_id();
    };
''', '''       std::mutex::lock();
       tookOwnership();
    };
'''),
(M, '''       if (!std::mutex::try_lock())
           return false;
       owner_ = std::this_thread::get_id();
       return true;
''', '''       bool locked = std::mutex::try_lock();
       if (locked)
           tookOwnership();
       return locked;
'''),
(M, '''       owner_ = {};
       std::mutex::unlock();
''', '''       owner_ = std::thread::id();
       std::mutex::unlock();
'''),
(M, '''  private:
    std::thread::id''', '''  private:
    void tookOwnership() { owner_ = std::this_thread::get_id(); }

    std::thread::id'''),
(H, '''    auto callback = std::bind(std::forward<Function>(f), std::forward<Args>(args)...);
    auto fn = [](const std::string& name, decltype(callback)&& callback) -> void {
        SetThreadName(name.c_str());
        callback();
    };
    return std::make_unique<std::thread>(std::move(fn), std::string(name), std::move(callback));
''', '''    auto run = [callback = std::bind(std::forward<Function>(f), std::forward<Args>(args)...),
                thread_name = std::string(name)]() mutable -> void {
        SetThreadName(thread_name.c_str());
        callback();
    };
    return std::unique_ptr<std::thread>(new std::thread(std::move(run)));
'''),
(A, '''    FixedArray& operator =(FixedArray&& other) {
        if (this == &other)
            return *this;
        destruct();
        deallocate();
        AllocPolicy::operator =(std::move(other));
        size_ = other.size_;
        data_ = other.data_;
        other.size_ = 0;
        other.data_ = nullptr;
        return *this;
    }
''', '''    FixedArray& operator =(FixedArray&& other) {
        if (this != &other) {
            destruct();
            deallocate();
            AllocPolicy::operator =(std::move(other));
            size_ = std::exchange(other.size_, size_t(0));
            data_ = std::exchange(other.data_, nullptr);
        }
        return *this;
    }
'''),
(A, '''        for (size_t i = 0; i < size_; i++)
            data_[i].~T();
''', '''        for (T* iter = data_; iter != data_ + size_; iter++)
            iter->~T();
'''),
(A, '''        for (size_t i = 0; i < size_; i++)
            new (&data_[i]) T(other[i]);
        return *this;
''', '''        const T* from = other.begin();
        for (T& slot : *this)
            new (&slot) T(*from++);
        return *this;
'''),
(A, '''        data_ = nullptr;
        if (size_ > SIZE_MAX / sizeof(T)) {
            this->reportAllocationOverflow();
            return false;
        }
        data_ = (T*)this->am_malloc(sizeof(T) * size_);
        return !!data_;
''', '''        if (size_ <= SIZE_MAX / sizeof(T)) {
            data_ = static_cast<T*>(this->am_malloc(sizeof(T) * size_));
            return data_ != nullptr;
        }
        data_ = nullptr;
        this->reportAllocationOverflow();
        return false;
'''),
(G, '''        if (!cancelled_)
            callback_();
''', '''        if (cancelled_)
            return;
        cancelled_ = true;
        callback_();
'''),
(G, '''    T saved = t;
    t = T();
    return saved;
''', '''    T saved(t);
    t = T();
    return saved;
'''),
(S, '''        if (lib_ == nullptr)
            return;

#if defined(KE_WINDOWS)
        FreeLibrary(lib_);
#else
        dlclose(lib_);
#endif
''', '''        if (valid()) {
#if defined(KE_WINDOWS)
            FreeLibrary(lib_);
#else
            dlclose(lib_);
#endif
        }
'''),
(S, '''        if (!lib || !lib->valid()) {
            if (!error || !maxlength)
                return nullptr;
#if defined(KE_WINDOWS)
            FormatSystemError(error, maxlength);
#else
            SafeStrcpy(error, maxlength, dlerror());
#endif
            return nullptr;
        }
        return lib.forget();
''', '''        if (lib->valid())
            return lib.take();
        if (error && maxlength) {
#if defined(KE_WINDOWS)
            FormatSystemError(error, maxlength);
#else
            SafeSprintf(error, maxlength, "%s", dlerror());
#endif
        }
        return nullptr;
'''),
(E, '''    const char* ptr = strerror_r(code, error, maxlength);
    if (ptr != error)
        ke::SafeSprintf(error, maxlength, "%s", ptr);
''', '''    const char* text = strerror_r(code, error, maxlength);
    if (text == error)
        return;
    SafeStrcpy(error, maxlength, text);
'''),
(P, '''    for (size_t i = 0; i < len; i++) {
#if defined(KE_WINDOWS)
        if (dest[i] == '/')
            dest[i] = '\\\\';
#else
        if (dest[i] == '\\\\')
            dest[i] = '/';
#endif
    }
''', '''#if defined(KE_WINDOWS)
    const char from = '/', to = '\\\\';
#else
    const char from = '\\\\', to = '/';
#endif
    for (char *p = dest, *end = dest + len; p < end; p++)
        *p = (*p == from) ? to : *p;
'''),
(U, '''    struct stat s;
    if (stat(path, &s) != 0)
        return false;
    return S_ISREG(s.st_mode) ? true : false;
''', '''    struct stat s;
    return stat(path, &s) == 0 && (s.st_mode & S_IFMT) == S_IFREG;
'''),
(U, '''    struct stat s;
    if (stat(path, &s) != 0)
        return false;
    return S_ISDIR(s.st_mode) ? true : false;
''', '''    struct stat info = {};
    int rv = stat(path, &info);
    if (rv == -1)
        return false;
    return S_ISDIR(info.st_mode);
'''),
]
