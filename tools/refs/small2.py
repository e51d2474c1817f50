checks = 'L01 Q01 Q02 V01 V02 V03 V04 R01 R02 C01 C02 C03 H03 H04 H05 A01 A02 A03 B05 D01 O01'
L = 'amtl/am-inlinelist.h'
Q = 'amtl/am-priority-queue.h'
R = 'amtl/am-raii.h'
V = 'amtl/am-vector.h'
D = 'amtl/am-deque.h'
HS = 'amtl/am-hashset.h'
E = 'amtl/am-enum.h'
U = 'amtl/am-utility.h'
F = 'amtl/am-float.h'
AP = 'amtl/am-allocator-policies.h'
SB = 'amtl/am-storagebuffer.h'
edits = [
(L, '''        prev_->next_ = next_;
        next_->prev_ = prev_;
        next_ = nullptr;
        prev_ = nullptr;
''', '''        InlineListNode* before = prev_;
        InlineListNode* after = next_;
        after->prev_ = before;
        before->next_ = after;
        next_ = prev_ = nullptr;
'''),
(L, '''        while (begin() != end())
            remove(*begin());
''', '''        for (iterator it = begin(); it != end();)
            it = erase(it);
'''),
(L, '''        iterator operator ++(int) {
            iterator old(*this);
            iter_ = iter_->next_;
            return old;
        }
''', '''        iterator operator ++(int) {
            Node* here = iter_;
            ++*this;
            return iterator(here);
        }
'''),
(L, '''        IteratorType next = at;
        next++;

        remove(at.iter_);

        // Iterator is no longer valid.
        at.iter_ = nullptr;

        return next;
''', '''        Node* node = at.iter_;
        ++at;
        IteratorType next(at.iter_);

        // Iterator is no longer valid.
        at.iter_ = nullptr;
        remove(node);
        return next;
'''),
(L, '''        t->prev_->next_ = t->next_;
        t->next_->prev_ = t->prev_;
        length_--;

        t->next_ = nullptr;
        t->prev_ = nullptr;
''', '''        length_ -= 1;
        t->next_->prev_ = t->prev_;
        t->prev_->next_ = t->next_;
        t->prev_ = t->next_ = nullptr;
'''),
(L, '''        t->prev_ = head_.prev_;
        t->next_ = &head_;
        head_.prev_->next_ = t;
        head_.prev_ = t;
        length_++;
''', '''        length_++;
        Node* last = head_.prev_;
        last->next_ = t;
        head_.prev_ = t;
        t->next_ = head();
        t->prev_ = last;
'''),
(Q, '''        size_t cursor = at;
        T key(std::move(impl_[cursor]));
        while (cursor != 0) {
            size_t parent = parentOf(cursor);
            if (!is_higher_priority_(key, impl_[parent]))
                break;

            impl_[cursor] = std::move(impl_[parent]);
            cursor = parent;
        }

        impl_[cursor] = std::move(key);
''', '''        for (size_t parent; at != 0; at = parent) {
            parent = parentOf(at);
            if (!is_higher_priority_(impl_[at], impl_[parent]))
                return;
            std::swap(impl_[at], impl_[parent]);
        }
'''),
(Q, '''        if (impl_.size() == 1) {
            impl_.pop_back();
        } else {
            impl_[0] = std::move(impl_.back());
            impl_.pop_back();
            propagateDown(0);
        }
        return top;
''', '''        const size_t last = impl_.size() - 1;
        if (last != 0)
            impl_[0] = std::move(impl_[last]);
        impl_.pop_back();
        if (last > 1)
            propagateDown(0);
        return top;
'''),
(Q, '''        while (hasLeftChild(cursor)) {
            // Pick the child with the highest priority.
            size_t bestChild = leftChildOf(cursor);
            if (hasRightChild(cursor)) {
                size_t rightIndex = rightChildOf(cursor);
                if (is_higher_priority_(impl_[rightIndex], impl_[bestChild]))
                    bestChild = rightIndex;
            }
''', '''        for (;;) {
            // Pick the child with the highest priority.
            size_t bestChild = leftChildOf(cursor);
            if (bestChild >= impl_.size())
                return;
            const size_t other = bestChild + 1;
            if (other < impl_.size() && is_higher_priority_(impl_[other], impl_[bestChild]))
                bestChild = other;
'''),
(R, '''       old_(*location)
    {
        *location_ = value;
    }
    ~SaveAndSet() {
        *location_ = old_;
    }
''', '''       old_(std::move(*location))
    {
        *location = value;
    }
    ~SaveAndSet() {
        *location_ = std::move(old_);
    }
'''),
(R, '''        if (!cancelled_)
            callback_();
''', '''        if (cancelled_)
            return;
        callback_();
'''),
(R, '''        other.cancel();
''', '''        other.cancelled_ = true;
'''),
(R, '''    T saved = t;
    t = T();
    return saved;
''', '''    T saved(std::move(t));
    t = T();
    return saved;
'''),
(V, '''        for (size_t i = 0; i < src->size(); i++)
            dest->emplace_back(std::move(src->at(i)));
''', '''        for (T& item : *src)
            dest->push_back(std::move(item));
'''),
(V, '''    if (dest->empty()) {
        *dest = std::move(*src);
    } else {
''', '''    if (dest->size() == 0) {
        dest->swap(*src);
        src->clear();
    } else {
'''),
(V, '''    auto it = std::remove_if(vec->begin(), vec->end(), pred);
    vec->erase(it, vec->end());
''', '''    size_t kept = 0;
    for (size_t i = 0; i < vec->size(); i++) {
        if (pred((*vec)[i]))
            continue;
        if (kept != i)
            (*vec)[kept] = std::move((*vec)[i]);
        kept++;
    }
    vec->erase(vec->begin() + kept, vec->end());
'''),
(V, '''    T t = std::move(src->back());
    src->pop_back();
    return t;
''', '''    auto last = src->end() - 1;
    T t(std::move(*last));
    src->erase(last);
    return t;
'''),
(D, '''  T t = std::move(deque->front());
  deque->pop_front();
  return t;
''', '''  auto first = deque->begin();
  T t(std::move(*first));
  deque->pop_front();
  return t;
'''),
(HS, '''        Result r = table_.find(key);
        return r.found();
''', '''        return find(key).found();
'''),
(HS, '''        Insert p = table_.findForAdd(key);
        if (!p.found())
            table_.add(p, std::forward<UK>(key));
''', '''        Insert p = findForAdd(key);
        if (p.found())
            return;
        add(p, std::forward<UK>(key));
'''),
(E, '''        return EnumName(~int_type(flags));                                          \\
''', '''        return EnumName(int_type(~int_type(flags)));                                \\
'''),
(E, '''        return int_type(obj) == 0;                                                  \\
''', '''        return !int_type(obj);                                                      \\
'''),
(U, '''    memset(t, 0, sizeof(*t));
''', '''    memset(static_cast<void*>(t), 0, sizeof(T));
'''),
(F, '''    Bits bits = Properties::to_layout(value).bits;
    Bits magnitude = bits & ~(Bits(1) << (sizeof(Bits) * 8 - 1));
    return magnitude == Properties::kExponentMask;
''', '''    const Bits sign = Bits(1) << (sizeof(Bits) * 8 - 1);
    Bits bits = Properties::to_layout(value).bits;
    return (bits | sign) == (Properties::kExponentMask | sign);
'''),
(F, '''    return fmod(left, right);
''', '''    return std::fmod(left, right);
'''),
(SB, '''        return reinterpret_cast<T*>(buffer_);
    }
    const T* address() const {
        return reinterpret_cast<const T*>(buffer_);
    }
''', '''        return static_cast<T*>(static_cast<void*>(&buffer_[0]));
    }
    const T* address() const {
        return static_cast<const T*>(static_cast<const void*>(&buffer_[0]));
    }
'''),
]
