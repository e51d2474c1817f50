checks = 'A03 H01 H02 H03 H04 H05 H06 A02 C01 C02'
H = 'amtl/am-hashtable.h'
M = 'amtl/am-hashmap.h'
edits = [
(H, '''        uint32_t hash = HashPolicy::hash(key) * 0x9E3779B9;
        if (hash == Entry::kFreeHash || hash == Entry::kRemovedHash)
            hash += 2;
        return hash;
''', '''        const uint32_t kGoldenRatio = 0x9E3779B9;
        const uint32_t mixed = HashPolicy::hash(key) * kGoldenRatio;
        // The two lowest values stand for free and removed entries.
        return mixed > Entry::kRemovedHash ? mixed : mixed + 2;
'''),
(H, '''    void setRemoved() {
        destruct();
        hash_ = kRemovedHash;
    }
    void setFree() {
        destruct();
        hash_ = kFreeHash;
    }
''', '''    void setRemoved() {
        retire(kRemovedHash);
    }
    void setFree() {
        retire(kFreeHash);
    }
'''),
(H, '''  private:
    HashTableEntry(const HashTableEntry& other) = delete;
''', '''  private:
    void retire(uint32_t state) {
        if (hash_ > kRemovedHash)
            t_.~T();
        hash_ = state;
    }

    HashTableEntry(const HashTableEntry& other) = delete;
'''),
(H, '''        Entry* table = (Entry*)this->am_malloc(capacity * sizeof(Entry));
        if (!table)
            return nullptr;

        for (size_t i = 0; i < capacity; i++)
            table[i].initialize();

        return table;
''', '''        Entry* const table = static_cast<Entry*>(this->am_malloc(sizeof(Entry) * capacity));
        if (table) {
            Entry* e = table;
            for (uint32_t left = capacity; left != 0; left--, e++)
                e->initialize();
        }
        return table;
'''),
(H, '''        uint32_t entry() const {
            return hash_ & (capacity_ - 1);
        }
        uint32_t next() {
            hash_++;
            return entry();
        }
''', '''        uint32_t entry() const {
            return hash_ % capacity_;
        }
        uint32_t next() {
            return ++hash_ % capacity_;
        }
'''),
(H, '''        return (capacity_ > kMinCapacity) && (nelements_ + ndeleted_ < capacity_ / 4);
''', '''        if (capacity_ <= kMinCapacity)
            return false;
        const uint32_t used = nelements_ + ndeleted_;
        return used < (capacity_ >> 2);
'''),
(H, '''        return (nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4));
''', '''        const uint32_t quarter = capacity_ >> 2;
        return nelements_ + ndeleted_ > 3 * quarter;
'''),
(H, '''        if ((capacity_ >> 1) < minCapacity_)
            return true;
        return changeCapacity(capacity_ >> 1);
''', '''        const uint32_t half = capacity_ / 2;
        return half < minCapacity_ || changeCapacity(half);
'''),
(H, '''        // If the entry is deleted, just re-use the slot.
        if (i.entry().removed()) {
            ndeleted_--;
        } else {
            // Otherwise, see if we're at max capacity.
            if (nelements_ == kMaxCapacity) {
                this->reportAllocationOverflow();
                return false;
            }

''', '''        // If the entry is deleted, just re-use the slot.
        const bool reuse = i.entry().removed();
        if (reuse)
            ndeleted_ -= 1;
        if (!reuse) {
            // Otherwise, see if we're at max capacity.
            if (nelements_ >= kMaxCapacity) {
                this->reportAllocationOverflow();
                return false;
            }

'''),
(H, '''        nelements_++;
        i.entry().setHash(i.hash());
        return true;
''', '''        Entry& slot = i.entry();
        slot.setHash(i.hash());
        ++nelements_;
        return true;
'''),
(H, '''        for (uint32_t i = 0; i < capacity_; i++)
            table_[i].destruct();
        this->am_free(table_);
''', '''        if (table_) {
            for (Entry *e = table_, *end = table_ + capacity_; e != end; e++)
                e->destruct();
            this->am_free(table_);
        }
'''),
(H, '''        if (capacity < kMinCapacity) {
            capacity = kMinCapacity;
        } else if (capacity > kMaxCapacity) {
            this->reportAllocationOverflow();
            return false;
        }

        assert(IsPowerOfTwo(capacity));

        table_ = createTable(uint32_t(capacity));
        if (!table_)
            return false;

        minCapacity_ = uint32_t(capacity);
        capacity_ = uint32_t(capacity);

        return true;
''', '''        if (capacity > kMaxCapacity) {
            this->reportAllocationOverflow();
            return false;
        }

        const uint32_t wanted = capacity < kMinCapacity ? kMinCapacity : uint32_t(capacity);
        assert(IsPowerOfTwo(wanted));

        Entry* fresh = createTable(wanted);
        table_ = fresh;
        if (fresh == nullptr)
            return false;

        capacity_ = wanted;
        minCapacity_ = wanted;
        return true;
'''),
(H, '''        Result r = find(key);
        if (!r.found())
            return;
        remove(r);
''', '''        Result r = lookup(key);
        if (r.found())
            removeEntry(r.entry());
'''),
(H, '''        if (!internalAdd(i))
            return false;
        i.entry().construct(std::forward<U>(payload));
        return true;
''', '''        const bool added = internalAdd(i);
        if (added)
            i.entry().construct(std::forward<U>(payload));
        return added;
'''),
(H, '''        if (underloaded())
            return shrink();
        if (overloaded())
            return grow();
        return true;
''', '''        return overloaded() ? grow() : underloaded() ? shrink() : true;
'''),
(H, '''         : table_(table),
           i_(table->table_),
           end_(table->table_ + table->capacity_)
        {
            while (i_ < end_ && !i_->isLive())
                i_++;
        }
''', '''         : table_(table),
           i_(table->table_),
           end_(i_ + table->capacity_)
        {
            settle();
        }
'''),
(H, '''            do {
                i_++;
            } while (i_ < end_ && !i_->isLive());
        }

      private:
''', '''            i_++;
            settle();
        }

      private:
        void settle() {
            for (; i_ != end_; i_++) {
                if (i_->isLive())
                    return;
            }
        }

'''),
(M, '''        Entry entry(std::forward<UK>(key), std::forward<UV>(value));
        return table_.add(i, std::move(entry));
''', '''        return table_.add(i, Entry(std::forward<UK>(key), std::forward<UV>(value)));
'''),
(M, '''        Entry entry(std::forward<UK>(key), V());
        return table_.add(i, std::move(entry));
''', '''        return add(i, std::forward<UK>(key), V());
'''),
]
