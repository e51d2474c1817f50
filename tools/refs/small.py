checks = 'L01 Q01 Q02 V01 V02 V03 R01 R02 C01 C02 C03 T01'
L = 'amtl/am-inlinelist.h'
Q = 'amtl/am-priority-queue.h'
M = 'amtl/am-maybe.h'
U = 'amtl/am-function.h'
R = 'amtl/am-refcounting.h'
edits = [
(L, '''        prev_->next_ = next_;
        next_->prev_ = prev_;
        next_ = nullptr;
        prev_ = nullptr;
''', '''        InlineListNode* next = next_;
        InlineListNode* prev = prev_;
        next_ = prev_ = nullptr;
        next->prev_ = prev;
        prev->next_ = next;
'''),
(L, '''        while (begin() != end())
            remove(*begin());
''', '''        for (Node* node = head_.next_; node != &head_;) {
            Node* next = node->next_;
            node->removeFromParentList();
            node = next;
        }
        length_ = 0;
'''),
(Q, '''        T top = std::move(impl_[0]);
        if (impl_.size() == 1) {
            impl_.pop_back();
        } else {
            impl_[0] = std::move(impl_.back());
            impl_.pop_back();
            propagateDown(0);
        }
        return top;
''', '''        T top = std::move(impl_.front());
        size_t last = impl_.size() - 1;
        if (last > 0)
            impl_.front() = std::move(impl_[last]);
        impl_.pop_back();
        if (last > 1)
            propagateDown(0);
        return top;
'''),
(Q, '''        size_t cursor = at;
        T key(std::move(impl_[cursor]));
        while (cursor != 0) {
            size_t parent = parentOf(cursor);
            if (!is_higher_priority_(key, impl_[parent]))
                break;

            impl_[cursor] = std::move(impl_[parent]);
            cursor = parent;
        }

        impl_[cursor] = std::move(key);
''', '''        for (size_t cursor = at; cursor > 0;) {
            const size_t parent = parentOf(cursor);
            if (!is_higher_priority_(impl_[cursor], impl_[parent]))
                return;
            std::swap(impl_[cursor], impl_[parent]);
            cursor = parent;
        }
'''),
(Q, '''        while (hasLeftChild(cursor)) {
            // Pick the child with the highest priority.
            size_t bestChild = leftChildOf(cursor);
            if (hasRightChild(cursor)) {
                size_t rightIndex = rightChildOf(cursor);
                if (is_higher_priority_(impl_[rightIndex], impl_[bestChild]))
                    bestChild = rightIndex;
            }

            // If the highest priority child is not higher priority than the cursor,
            // then we are finished.
            if (!is_higher_priority_(impl_[bestChild], impl_[cursor]))
                break;

            // Otherwise, swap and move on.
            std::swap(impl_[bestChild], impl_[cursor]);
            cursor = bestChild;
        }
''', '''        for (;;) {
            size_t best = cursor;
            const size_t left = leftChildOf(cursor);
            const size_t right = left + 1;
            if (left < impl_.size() && is_higher_priority_(impl_[left], impl_[best]))
                best = left;
            if (right < impl_.size() && is_higher_priority_(impl_[right], impl_[best]))
                best = right;
            if (best == cursor)
                return;
            std::swap(impl_[cursor], impl_[best]);
            cursor = best;
        }
'''),
(M, '''        if (isValid())
            t_.address()->~T();

        new (t_''', '''        reset();
        new (t_'''),
(M, '''    ~Maybe() {
        if (isValid())
            t_.address()->~T();
    }''', '''    ~Maybe() {
        reset();
    }'''),
(M, '''        if (other.initialized_) {
            init(*other.t_.address());
        }
''', '''        if (!other.isValid())
            return;
        init(other.get());
'''),
(M, '''        if (other.initialized_) {
            init(std::move(*other.t_.address()));
            other.reset();
        }
''', '''        if (!other)
            return;
        new (t_.address()) T(std::move(other.get()));
        initialized_ = true;
        other.reset();
'''),
(U, '''        if (!impl_)
            return;

        if (usingInlineStorage())
            impl_->~HolderType();
        else
            delete impl_;
    }
    void zap() {
        destroy();
        impl_ = nullptr;
    }
''', '''        HolderType* impl = impl_;
        if (impl == nullptr)
            return;
        bool is_inline = usingInlineStorage();
        impl_ = nullptr;
        if (!is_inline) {
            delete impl;
            return;
        }
        impl->~HolderType();
    }
'''),
(U, '''            impl_ = other.impl_->move(inline_buffer());
            other.zap();
''', '''            impl_ = other.impl_->move(inline_buffer());
            other.destroy();
'''),
(U, '''        if (!other)
            impl_ = nullptr;
        else if (other.usingInlineStorage())
            impl_ = other.impl_->clone(inline_buffer());
        else
            impl_ = other.impl_->clone(nullptr);
''', '''        impl_ = nullptr;
        if (other.impl_) {
            void* where = other.usingInlineStorage() ? inline_buffer() : nullptr;
            impl_ = other.impl_->clone(where);
        }
'''),
(U, '''            impl_ = reinterpret_cast<ImplType*>(inline_buffer());
            new (inline_buffer()) ImplType(std::forward<T>(obj));
''', '''            impl_ = new (inline_buffer()) ImplType(std::forward<T>(obj));
'''),
(R, '''        T* old = thing_;
        thing_ = thing;
        AddRef();
        if (old)
            old->Release();
        return *this;
''', '''        RefPtr<T> keep(thing);
        std::swap(thing_, keep.thing_);
        return *this;
'''),
(R, '''        T* old = thing_;
        thing_ = other.thing_;
        AddRef();
        if (old)
            old->Release();
        return *this;
''', '''        RefPtr keep(other);
        std::swap(thing_, keep.thing_);
        return *this;
'''),
(R, '''        T* taken = ReturnAndVoid(other.thing_);
        T* old = thing_;
        thing_ = taken;
        if (old)
            old->Release();
        return *this;
''', '''        RefPtr keep(std::move(other));
        std::swap(thing_, keep.thing_);
        return *this;
'''),
(R, '''        if (--refcount_ == 0)
            delete static_cast<T*>(this);
''', '''        refcount_ -= 1;
        if (refcount_ != 0)
            return;
        delete static_cast<T*>(this);
'''),
(R, '''    ~AlreadyRefed() {
        if (thing_)
            thing_->Release();
    }
''', '''    ~AlreadyRefed() {
        if (T* thing = take())
            thing->Release();
    }
'''),
(R, '''#include <stdint.h>

#include <amtl''', '''#include <stdint.h>

#include <utility>

#include <amtl'''),
]
