M=[
('V','am-priority-queue.h','    PriorityQueue(const PriorityQueue& other) = delete;\n','    PriorityQueue(const PriorityQueue& other) : impl_(other.impl_) {}\n') if False else
('V','am-priority-queue.h','  private:\n    PriorityQueue(const PriorityQueue& other) = delete;\n    void operator =(const PriorityQueue& other) = delete;','  public:\n    PriorityQueue(const PriorityQueue& other) = default;'),
('V','am-hashtable.h','    HashTable(const HashTable& other) = delete;\n','  public:\n    HashTable(const HashTable& other) = default;\n  private:\n'),
('V','am-hashtable.h','    HashTable& operator =(const HashTable& other) = delete;','  public: HashTable& operator =(const HashTable& other) = default;'),
('V','am-raii.h','    ScopeGuard(const ScopeGuard&) = delete;','  public: ScopeGuard(const ScopeGuard& o) : callback_(o.callback_), cancelled_(false) {}\n private:'),
('V','am-raii.h','    void operator=(ScopeGuard&&) = delete;','  public: void operator=(ScopeGuard&& o) { cancelled_ = o.cancelled_; }'),
('V','am-refcounting-threadsafe.h','    AtomicRef(const AtomicRef& other) = delete;','  public: AtomicRef(const AtomicRef& other) : AtomicRef(other.get()) {}'),
('V','am-hashmap.h','         value(std::move(other.value))','         value(other.value)'),
('V','am-priority-queue.h','T top = std::move(impl_[0]);','T top = impl_[0];'),
('V','am-fixedarray.h','new (&data_[i]) T(std::move(other[i]));','new (&data_[i]) T(other[i]);') if False else
('V','am-vector.h','std::move(','(',0) ,
('Q','am-priority-queue.h','void operator =(const PriorityQueue& other) = delete;','PriorityQueue& operator =(const PriorityQueue& other) = delete;'),
('Q','am-hashtable.h','    HashTable(const HashTable& other) = delete;\n','  public:\n    HashTable(const HashTable& other) = delete;\n  private:\n'),
]
