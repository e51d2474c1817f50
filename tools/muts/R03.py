f='am-refcounting-threadsafe.h'
M=[
('V',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1) <= 2'),
('V',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1) == 1',1) if 0 else ('V',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1) == 0'),
('V',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1) == 0',1),
('V',f,'if (refcount_.fetch_sub(1) == 1) {\n            assert(refcount_.load() == 0);','refcount_.fetch_sub(1);\n        if (refcount_.load() == 0) {',0),
('V',f,'if (refcount_.fetch_sub(1) == 1) {\n            assert(refcount_.load() == 0);','refcount_.fetch_sub(1);\n        if (refcount_.load() == 0) {',1),
('V',f,'refcount_ += 1;','refcount_ = refcount_ + 1;',0),
('V',f,'refcount_ += 1;','refcount_.store(refcount_.load() + 1);',1),
('V',f,'if (refcount_.fetch_sub(1) == 1) {','if (refcount_.load() == 1 || refcount_.fetch_sub(1) == 1) {',0),
('V',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1, std::memory_order_relaxed) == 1',0),
('V',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1, std::memory_order_release) == 1',1),
('V',f,'            return false;\n        }\n        return true;','        }\n        return refcount_.load() != 0;'),
('V',f,'            destroying_ = true;\n#endif\n            delete this;\n        }','            delete this;\n#endif\n        }'),
('V',f,'std::atomic<size_t> refcount_;','volatile size_t refcount_;',0) if 0 else ('V',f,'refcount_(0)','refcount_(1)',0),
('V',f,'refcount_(0)','refcount_(1)',1),
('Q',f,'refcount_ += 1;','refcount_.fetch_add(1, std::memory_order_relaxed);',0),
('Q',f,'refcount_ += 1;','refcount_++;',1),
('Q',f,'refcount_.fetch_sub(1) == 1','--refcount_ == 0',0),
('Q',f,'if (refcount_.fetch_sub(1) == 1) {','if (refcount_.fetch_sub(1, std::memory_order_release) == 1) {\n            std::atomic_thread_fence(std::memory_order_acquire);',1),
('Q',f,'refcount_.fetch_sub(1) == 1','refcount_.fetch_sub(1, std::memory_order_acq_rel) == 1',1),
('Q',f,'if (refcount_.fetch_sub(1) == 1) {','size_t old = refcount_.load();\n        while (!refcount_.compare_exchange_weak(old, old - 1)) {}\n        if (old == 1) {',0),
('V',f,'if (refcount_.fetch_sub(1) == 1) {','size_t old = refcount_.load();\n        refcount_.compare_exchange_strong(old, old - 1);\n        if (old == 1) {',0),
]
