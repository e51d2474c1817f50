checks = 'A03 H01 H02 H03 H04 H06 A02 C01'
H = 'amtl/am-hashtable.h'
edits = [
(H, '''    // For use when the key is known to be unique.
    Insert insertUnique(uint32_t hash) {
        Probulator probulator(hash, capacity_);

        Entry* e = &table_[probulator.entry()];
        for (;;) {
            if (e->isFree() || e->removed())
                break;
            e = &table_[probulator.next()];
        }

        return Insert(e, hash);
    }
''', '''    // Walk the probe path of |hash| until |stop| accepts an entry.
    template <typename Stop>
    Entry* walk(uint32_t hash, const Stop& stop) const {
        Probulator p(hash, capacity_);
        uint32_t index = p.entry();
        while (!stop(table_ + index))
            index = p.next();
        return table_ + index;
    }

    // For use when the key is known to be unique.
    Insert insertUnique(uint32_t hash) {
        return Insert(walk(hash, [](Entry* e) { return !e->isLive(); }), hash);
    }
'''),
(H, '''        uint32_t hash = computeHash(key);
        Probulator probulator(hash, capacity_);

        Entry* e = &table_[probulator.entry()];
        for (;;) {
            if (e->isFree())
                break;
            if (e->isLive() && e->sameHash(hash) && HashPolicy::matches(key, e->payload())) {
                return Result(e);
            }
            e = &table_[probulator.next()];
        }

        return Result(e);''', '''        const uint32_t hash = computeHash(key);
        return Result(walk(hash, [&](Entry* e) { return e->isFree() || isMatch(e, hash, key); }));'''),
(H, '''        uint32_t hash = computeHash(key);
        Probulator probulator(hash, capacity_);

        Entry* e = &table_[probulator.entry()];
        Entry* firstRemoved = nullptr;
        for (;;) {
            if (e->isFree())
                break;
            if (e->removed()) {
                if (!firstRemoved)
                    firstRemoved = e;
            } else if (e->sameHash(hash) && HashPolicy::matches(key, e->payload()))
                break;
            e = &table_[probulator.next()];
        }

        if (!e->isLive() && firstRemoved)
            e = firstRemoved;

        return Insert(e, hash);''', '''        const uint32_t hash = computeHash(key);
        Entry* tombstone = nullptr;
        Entry* e = walk(hash, [&](Entry* at) {
            if (at->removed()) {
                tombstone = tombstone ? tombstone : at;
                return false;
            }
            return at->isFree() || isMatch(at, hash, key);
        });
        if (e->isFree() && tombstone)
            e = tombstone;
        return Insert(e, hash);'''),
(H, '''    template <typename Key>
    Result lookup(const Key& key) const {''', '''    template <typename Key>
    static bool isMatch(Entry* e, uint32_t hash, const Key& key) {
        return e->isLive() && e->sameHash(hash) && HashPolicy::matches(key, e->payload());
    }

    template <typename Key>
    Result lookup(const Key& key) const {'''),
(H, '''       capacity_(other.capacity_),
       nelements_(other.nelements_),
       ndeleted_(other.ndeleted_),
       table_(other.table_),
       minCapacity_(other.minCapacity_)
    {
        other.capacity_ = 0;
        other.nelements_ = 0;
        other.ndeleted_ = 0;
        other.table_ = nullptr;
        other.minCapacity_ = kMinCapacity;
    }''', '''       capacity_(0),
       nelements_(0),
       ndeleted_(0),
       table_(nullptr),
       minCapacity_(kMinCapacity)
    {
        std::swap(capacity_, other.capacity_);
        std::swap(nelements_, other.nelements_);
        std::swap(ndeleted_, other.ndeleted_);
        std::swap(table_, other.table_);
        std::swap(minCapacity_, other.minCapacity_);
    }'''),
(H, '''        Entry* oldTable = table_;
        uint32_t oldCapacity = capacity_;

        table_ = newTable;
        capacity_ = newCapacity;
        ndeleted_ = 0;

        for (uint32_t i = 0; i < oldCapacity; i++) {
            Entry& oldEntry = oldTable[i];
            if (oldEntry.isLive()) {
                Insert p = insertUnique(oldEntry.hash());
                p.entry().setHash(p.hash());
                p.entry().construct(std::move(oldEntry.payload()));
            }
            oldEntry.destruct();
        }
        this->am_free(oldTable);
''', '''        Entry* const begin = table_;
        Entry* const end = begin + capacity_;

        table_ = newTable;
        capacity_ = newCapacity;
        ndeleted_ = 0;

        for (Entry* e = begin; e != end; ++e) {
            moveInto(*e);
            e->destruct();
        }
        this->am_free(begin);
'''),
(H, '''    bool changeCapacity(uint32_t newCapacity) {''', '''    void moveInto(Entry& from) {
        if (!from.isLive())
            return;
        Insert to = insertUnique(from.hash());
        to.entry().setHash(to.hash());
        to.entry().construct(std::move(from.payload()));
    }

    bool changeCapacity(uint32_t newCapacity) {'''),
(H, '''            while (i_ < end_ && !i_->isLive())
                i_++;
        }''', '''            skipDead();
        }'''),
(H, '''            do {
                i_++;
            } while (i_ < end_ && !i_->isLive());
        }

      private:
''', '''            ++i_;
            skipDead();
        }

      private:
        void skipDead() {
            for (; i_ != end_; ++i_) {
                if (i_->isLive())
                    return;
            }
        }

'''),
(H, '''        // If the entry is deleted, just re-use the slot.
        if (i.entry().removed()) {
            ndeleted_--;
        } else {''', '''        // If the entry is deleted, just re-use the slot.
        const bool reuse = i.entry().removed();
        if (reuse) {
            --ndeleted_;
        }
        if (!reuse) {'''),
(H, '''        for (size_t i = 0; i < capacity_; i++) {
            table_[i].setFree();
        }
        ndeleted_ = 0;
        nelements_ = 0;''', '''        ndeleted_ = nelements_ = 0;
        for (Entry* e = table_; e < table_ + capacity_; e++)
            e->setFree();'''),
]
