F = 'am-threadlocal.h'
M = [
 ('V', F, 'kAllocated : kUnallocated, std::memory_order_release', 'kAllocated : kAllocated, std::memory_order_release'),
 ('V', F, 'kAllocated : kUnallocated, std::memory_order_release', 'kAllocated : kUnallocated, std::memory_order_relaxed'),
 ('V', F, 'state == kUnallocated && allocated_.compare_exchange_strong(state, kAllocating)', 'state == kUnallocated'),
 ('V', F, 'compare_exchange_strong(state, kAllocating)', 'compare_exchange_strong(state, kAllocated)'),
 ('V', F, 'while ((state = allocated_.load(std::memory_order_acquire)) != kAllocated) {', 'while ((state = allocated_.load(std::memory_order_acquire)) == kUnallocated) {'),
 ('V', F, '''        if (allocated_.load(std::memory_order_acquire) != kAllocated)
            return T();''', '''        if (allocated_.load(std::memory_order_acquire) == kUnallocated)
            return T();'''),
 ('V', F, '''        if (allocated_.load(std::memory_order_acquire) != kAllocated)
            return T();''', '''        if (allocated_.load(std::memory_order_relaxed) != kAllocated)
            return T();'''),
 ('V', F, 'while ((state = allocated_.load(std::memory_order_acquire)) != kAllocated) {', 'while ((state = allocated_.load(std::memory_order_relaxed)) != kAllocated) {'),
 ('V', F, 'pthread_key_create(&key_, nullptr) == 0', 'pthread_key_create(&key_, nullptr) >= 0'),
 ('V', F, '''        if (allocated_ == kAllocated)
            pthread_key_delete(key_);''', '''        pthread_key_delete(key_);'''),
 ('V', F, '''        if (allocated_ == kAllocated)
            pthread_key_delete(key_);''', '''        if (allocated_ == kAllocating)
            pthread_key_delete(key_);'''),
 ('V', F, '(void*>((uintptr_t)t)', '(void*>((uintptr_t)t + 1)') if False else ('V', F, 'reinterpret_cast<void*>((uintptr_t)t)', 'reinterpret_cast<void*>((uintptr_t)!!t)'),
 ('V', F, '''            abort();
        }
        internalSet(t);''', '''            return;
        }
        internalSet(t);'''),
 ('V', F, 'return ok;', 'return true;'),
 ('V', F, 'return t_;', 'return T();'),
 ('V', F, 't_ = t;', ''),
 ('V', F, 't_ = T();', ''),
 ('V', F, '''     : allocated_(kUnallocated)
    {''', '''    {
        allocate();'''),
 ('Q', F, 'std::this_thread::yield();', ''),
 ('Q', F, 'compare_exchange_strong(state, kAllocating)', 'compare_exchange_weak(state, kAllocating)'),
 ('Q', F, 'compare_exchange_strong(state, kAllocating)', 'compare_exchange_strong(state, kAllocating, std::memory_order_relaxed)'),
 ('Q', F, 'while ((state = allocated_.load(std::memory_order_acquire)) != kAllocated) {', 'for (;;) { state = allocated_.load(); if (state == kAllocated) break;'),
 ('Q', F, '''                bool ok = createKey();
                allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
                return ok;''', '''                if (!createKey()) {
                    allocated_.store(kUnallocated);
                    return false;
                }
                allocated_.store(kAllocated);
                return true;'''),
 ('Q', F, 'enum { kUnallocated, kAllocating, kAllocated };', 'enum { kAllocating = 7, kUnallocated, kAllocated = 3 };'),
]
