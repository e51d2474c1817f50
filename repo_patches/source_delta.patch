From edc96c7930a0fe15c9be00c633557e9c804708d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 01/48] fix: retain the new object before releasing the old one
 in RefPtr assignment

Releasing first destroys the object on self-assignment and when the source
lives inside the object being let go (p = p->next).
---
 amtl/am-refcounting.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..632ac59 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -264,30 +264,38 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
+        T* old = thing_;
         thing_ = thing;
         AddRef();
+        if (old)
+            old->Release();
         return *this;
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
+        T* old = thing_;
         thing_ = other.take();
+        if (old)
+            old->Release();
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
+        T* old = thing_;
         thing_ = other.thing_;
         AddRef();
+        if (old)
+            old->Release();
         return *this;
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
-        other.thing_ = nullptr;
+        T* taken = ReturnAndVoid(other.thing_);
+        T* old = thing_;
+        thing_ = taken;
+        if (old)
+            old->Release();
         return *this;
     }
 
-- 
2.43.0


From 8a358ff69d9ce53068bf0680a5d5a82dc0f23388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 02/48] fix: do not copy the reference count when copying a
 counted object

---
 amtl/am-refcounting.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index 632ac59..d77c293 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -118,6 +118,13 @@ class Refcounted
     Refcounted()
      : refcount_(0)
     {}
+    // Copies are new objects: references to the original are not theirs.
+    Refcounted(const Refcounted&)
+     : refcount_(0)
+    {}
+    Refcounted& operator =(const Refcounted&) {
+        return *this;
+    }
 
     void AddRef() {
         refcount_++;
@@ -165,6 +172,13 @@ class VirtualRefcounted : public IRefcounted
         destroying_ = false;
 #endif
     }
+    // Copies are new objects: references to the original are not theirs.
+    VirtualRefcounted(const VirtualRefcounted&)
+     : VirtualRefcounted()
+    {}
+    VirtualRefcounted& operator =(const VirtualRefcounted&) {
+        return *this;
+    }
     virtual ~VirtualRefcounted() {}
     void AddRef() override {
         assert(!destroying_);
-- 
2.43.0


From 34eea502954518bec0c3dc78f3905a8f4b8e52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 03/48] fix: destroy a VirtualRefcountedThreadsafe object when
 its last reference goes

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From ad723f8211d1132f6411ea1a277100cdcaaddb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 04/48] fix: acquire, not release, when taking the AtomicRef
 lock

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0


From 1ba1aa3342f68f3210cd8915c5b6df76495e1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 05/48] fix: return a pointer from Maybe::operator ->

---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From a503344cc906ae220da3fd87780be702ff2e6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 06/48] fix: destroy the value a Maybe was moved from

---
 amtl/am-maybe.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..fa48795 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -120,6 +120,12 @@ class Maybe
     }
 
   private:
+    void reset() {
+        if (isValid()) {
+            t_.address()->~T();
+            initialized_ = false;
+        }
+    }
     void copyFrom(const Maybe& other) {
         if (other.initialized_) {
             init(*other.t_.address());
@@ -128,7 +134,7 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
         }
     }
 
-- 
2.43.0


From aa1f5ae7c2648bf7b815e4f2ba3b932122522320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 07/48] fix: destroy the old value when assigning to a Maybe,
 and survive self-assignment

---
 amtl/am-maybe.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index fa48795..ec98276 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -109,13 +109,17 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
-        copyFrom(other);
+        if (this != &other) {
+            reset();
+            copyFrom(other);
+        }
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
-        moveFrom(std::move(other));
+        if (this != &other) {
+            reset();
+            moveFrom(std::move(other));
+        }
         return *this;
     }
 
-- 
2.43.0


From 16f7ad335c28ba8183ba403a892e8a6ef4183e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 08/48] fix: align StorageBuffer for its element type

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From 54cbb8b3969447c32cf2fc3fdb4723f3320b381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 09/48] fix: survive self-assignment of a Function

---
 amtl/am-function.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..636cce8 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -126,13 +126,17 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
-        assign(other);
+        if (this != &other) {
+            destroy();
+            assign(other);
+        }
         return *this;
     }
     Function& operator =(Function&& other) {
-        destroy();
-        move(std::move(other));
+        if (this != &other) {
+            destroy();
+            move(std::move(other));
+        }
         return *this;
     }
 
-- 
2.43.0


From 9c0d0dfe39389de929bce2eef0b0a31583db6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 10/48] fix: copy a non-const Function instead of wrapping it
 in another one

---
 amtl/am-function.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 636cce8..11f4c0a 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -33,6 +33,7 @@
 #include <stddef.h>
 
 #include <new>
+#include <type_traits>
 #include <utility>
 
 namespace ke {
@@ -97,6 +98,11 @@ class Function<ReturnType(ArgTypes...)>
 {
     typedef impl::FunctionHolderBase<ReturnType, ArgTypes...> HolderType;
 
+    // A non-const Function is copied, not wrapped in another Function.
+    template <typename T>
+    using EnableIfCallable = typename std::enable_if<
+        !std::is_same<typename std::decay<T>::type, Function>::value>::type;
+
   public:
     Function()
      : impl_(nullptr)
@@ -111,7 +117,7 @@ class Function<ReturnType(ArgTypes...)>
         move(std::forward<Function>(other));
     }
 
-    template <typename T>
+    template <typename T, typename = EnableIfCallable<T>>
     Function(T&& obj) {
         assign(std::forward<T>(obj));
     }
@@ -140,7 +146,7 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
 
-    template <typename T>
+    template <typename T, typename = EnableIfCallable<T>>
     Function& operator =(T&& other) {
         destroy();
         assign(other);
-- 
2.43.0


From 51a99c2ca66d7dd9375ff076edf0124186f97b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 11/48] fix: release the old elements in FixedArray move
 assignment, and survive self-assignment

---
 amtl/am-fixedarray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..b25bcb3 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -124,6 +124,8 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
         destruct();
         if (size_ != other.size()) {
             deallocate();
@@ -135,6 +137,10 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+        destruct();
+        deallocate();
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From 3f7c5e7ace19ed25bd8749e49e755f7fc1bba90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 12/48] fix: refuse FixedArray sizes that overflow, and survive
 failed allocations

---
 amtl/am-fixedarray.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index b25bcb3..5f0fda2 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -30,6 +30,7 @@
 #define _include_amtl_fixedarray_h_
 
 #include <assert.h>
+#include <stdint.h>
 
 #include <vector>
 
@@ -127,7 +128,7 @@ class FixedArray : private AllocPolicy
         if (this == &other)
             return *this;
         destruct();
-        if (size_ != other.size()) {
+        if (size_ != other.size() || !initialize()) {
             deallocate();
             if (!allocate(other.size()))
                 return *this;
@@ -164,10 +165,17 @@ class FixedArray : private AllocPolicy
   private:
     bool allocate(size_t size) {
         size_ = size;
+        data_ = nullptr;
+        if (size_ > SIZE_MAX / sizeof(T)) {
+            this->reportAllocationOverflow();
+            return false;
+        }
         data_ = (T*)this->am_malloc(sizeof(T) * size_);
         return !!data_;
     }
     void destruct() {
+        if (!data_)
+            return;
         for (size_t i = 0; i < size_; i++)
             data_[i].~T();
     }
-- 
2.43.0


From eac6365bdcfa3a1aee6a8a8c3e6de9ef94b5a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 13/48] fix: make FixedArray use the allocation policy it was
 given

---
 amtl/am-fixedarray.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 5f0fda2..b8617e4 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <stdint.h>
 
+#include <utility>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -44,20 +45,26 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(ap)
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other)
+     : AllocPolicy(other)
+    {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other)
+     : AllocPolicy(std::move(other))
+    {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -142,6 +149,7 @@ class FixedArray : private AllocPolicy
             return *this;
         destruct();
         deallocate();
+        AllocPolicy::operator =(std::move(other));
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From ad84f667460d8d2861f77167218e5dddde9a1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 14/48] fix: do not give a HashTable a capacity when its table
 could not be allocated

---
 amtl/am-hashtable.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..d7434b7 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -414,15 +414,15 @@ class HashTable : private AllocPolicy
             return false;
         }
 
-        minCapacity_ = uint32_t(capacity);
-
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        minCapacity_ = uint32_t(capacity);
+        capacity_ = uint32_t(capacity);
+
         return true;
     }
 
-- 
2.43.0


From 6400a119faa43589803b0ea2f07fdad2578285d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 15/48] fix: refuse to grow a HashTable beyond its maximum
 capacity

---
 amtl/am-hashtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index d7434b7..732e874 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From 45c6f068e9659c17fe8012d530ae405d0fc19a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 16/48] fix: return the allocation policy a HashMap or HashSet
 actually uses

---
 amtl/am-hashmap.h | 6 +++---
 amtl/am-hashset.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..2aa5253 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -48,7 +48,7 @@ namespace ke {
 //
 // Note that like HashTable, a HashMap is not usable until init() has been called.
 template <typename K, typename V, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashMap : private AllocPolicy
+class HashMap
 {
   private:
     struct Entry {
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..26689e5 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -45,7 +45,7 @@ namespace ke {
 //
 // Like HashMap and HashTable, init() must be called to construct the set.
 template <typename K, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashSet : private AllocPolicy
+class HashSet
 {
     struct Policy {
         typedef K Payload;
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From e0ebabcb4810edf9306e2a5ef38a50e40f4b84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 17/48] Revert "fix: copy a non-const Function instead of
 wrapping it in another one"

This reverts commit 9c0d0dfe39389de929bce2eef0b0a31583db6f44.
---
 amtl/am-function.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 11f4c0a..636cce8 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -33,7 +33,6 @@
 #include <stddef.h>
 
 #include <new>
-#include <type_traits>
 #include <utility>
 
 namespace ke {
@@ -98,11 +97,6 @@ class Function<ReturnType(ArgTypes...)>
 {
     typedef impl::FunctionHolderBase<ReturnType, ArgTypes...> HolderType;
 
-    // A non-const Function is copied, not wrapped in another Function.
-    template <typename T>
-    using EnableIfCallable = typename std::enable_if<
-        !std::is_same<typename std::decay<T>::type, Function>::value>::type;
-
   public:
     Function()
      : impl_(nullptr)
@@ -117,7 +111,7 @@ class Function<ReturnType(ArgTypes...)>
         move(std::forward<Function>(other));
     }
 
-    template <typename T, typename = EnableIfCallable<T>>
+    template <typename T>
     Function(T&& obj) {
         assign(std::forward<T>(obj));
     }
@@ -146,7 +140,7 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
 
-    template <typename T, typename = EnableIfCallable<T>>
+    template <typename T>
     Function& operator =(T&& other) {
         destroy();
         assign(other);
-- 
2.43.0


From 862012ea7aeed19630d3ad428a11cc46f8316e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 18/48] fix: copy, do not wrap, a non-const Function that is
 assigned

---
 amtl/am-function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 636cce8..45567e7 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -132,6 +132,9 @@ class Function<ReturnType(ArgTypes...)>
         }
         return *this;
     }
+    Function& operator =(Function& other) {
+        return *this = const_cast<const Function&>(other);
+    }
     Function& operator =(Function&& other) {
         if (this != &other) {
             destroy();
-- 
2.43.0


From b13b611d23ce5784c3f213f55792ef6f13f5a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 19/48] fix: unlink a node removed from an InlineList in
 release builds too

---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From d4ab08516faf161a43bc26faace821aa05b287c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 20/48] fix: scan the whole operand in Log2 and
 FindLeftmostBit64

Log2 takes a size_t but scanned only its low 32 bits; FindLeftmostBit64
scanned an unsigned long, which is 32 bits wide on 32-bit targets.
---
 amtl/am-bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..0d5f693 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,7 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
-    return 31 - __builtin_clz(number);
+    return 63 - __builtin_clzll(number);
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
@@ -137,7 +137,7 @@ FindLeftmostBit64(uint64_t number)
     return rval;
 # endif // _M_arch
 #elif __GNUC__
-    return 63 - __builtin_clzl(number);
+    return 63 - __builtin_clzll(number);
 # endif
 }
 
-- 
2.43.0


From 78c50998d19b76da693ba8ac5c7e26077f3f82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 21/48] fix: make IsUintAddSafe and IsUintMultiplySafe exact

The addition test was always true, and the multiplication test rejected
products that fit and accepted some that do not.
---
 amtl/am-bits.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 0d5f693..9798868 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -39,6 +39,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 
 #include <amtl/am-cxx.h>
 #include <amtl/am-platform.h>
@@ -182,11 +183,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return b <= std::numeric_limits<T>::max() - a;
 }
 
 static inline bool
@@ -214,9 +211,7 @@ IsUintMultiplySafe(const T& a, const T& b)
     if (a <= 1 || b <= 1)
         return true;
 
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return b <= std::numeric_limits<T>::max() / a;
 }
 
 static inline bool
-- 
2.43.0


From 1c128f2745accf182e70e30828cb3dbdff6cfa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 22/48] fix: detect products that wrap to zero in
 TryUint64Multiply

Also include the header that declares the types used.
---
 amtl/am-arithmetic.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..4ba43e2 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -29,6 +29,8 @@
 #ifndef _include_amtl_bits_h_
 #define _include_amtl_bits_h_
 
+#include <stdint.h>
+
 #include <algorithm>
 
 namespace ke {
@@ -37,7 +39,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From 610e2f24ad7cc111be0c43991eab8c354ee13aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 23/48] fix: classify infinities exactly in IsInfinite

Doubles went through a float member and a wrong exponent mask, and NaNs
of either type were reported as infinite.
---
 amtl/am-float.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..cc22a18 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
@@ -99,7 +99,8 @@ IsInfinite(T value)
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    Bits magnitude = bits & ~(Bits(1) << (sizeof(Bits) * 8 - 1));
+    return magnitude == Properties::kExponentMask;
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From 2b98aace1aa6fdc31d72daa462843ac728a03971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:15 +0000
Subject: [PATCH 24/48] fix: build pointer tag masks in uintptr_t

Shifting an int is undefined for tags of 31 bits or more.
---
 amtl/am-bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 9798868..5e09420 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -254,12 +254,12 @@ static inline T* SetPointerBits(T* ptr, uintptr_t bits) {
 
 template <uintptr_t NumBits>
 static inline uintptr_t GetPointerBits(void* ptr) {
-  return (reinterpret_cast<uintptr_t>(ptr) & ((1 << NumBits) - 1));
+  return (reinterpret_cast<uintptr_t>(ptr) & ((uintptr_t(1) << NumBits) - 1));
 }
 
 template <uintptr_t NumBits, typename T>
 static inline T* ClearPointerBits(T* ptr) {
-  return reinterpret_cast<T*>(reinterpret_cast<uintptr_t>(ptr) & ~uintptr_t((1 << NumBits) - 1));
+  return reinterpret_cast<T*>(reinterpret_cast<uintptr_t>(ptr) & ~((uintptr_t(1) << NumBits) - 1));
 }
 
 } // namespace ke
-- 
2.43.0


From cc64163faad6bd485165b298e30c20b249476555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 25/48] fix: include <new> in am-maybe.h

Maybe uses placement new.
---
 amtl/am-maybe.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index ec98276..9f78236 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <new>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 3981d1d68057e1bfa7b4ba2ea5005cf1d9699942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 26/48] fix: include <assert.h> in am-raii.h

StackLinked's destructor did not compile when the header came first.
---
 amtl/am-raii.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..71dfe74 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
-- 
2.43.0


From 7f0ceab294a1ac1a3bf746f8507a5ccaf9f772a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 27/48] fix: include <string.h> in am-utility.h

MemsetZero uses memset.
---
 amtl/am-utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-utility.h b/amtl/am-utility.h
index 49463dd..8df3745 100644
--- a/amtl/am-utility.h
+++ b/amtl/am-utility.h
@@ -35,6 +35,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <amtl/am-cxx.h>
 
-- 
2.43.0


From ca17d2412bf19dc5a6e7f6871780575346cb4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 28/48] fix: allow const pointers in ThreadLocal

reinterpret_cast<void*> of a pointer to const does not compile; go
through uintptr_t as the class promises.
---
 amtl/am-threadlocal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..09b054b 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -152,7 +152,7 @@ class ThreadLocal
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
     void internalSet(const T& t) {
-        pthread_setspecific(key_, reinterpret_cast<void*>(t));
+        pthread_setspecific(key_, reinterpret_cast<void*>((uintptr_t)t));
     }
 
     pthread_key_t key_;
-- 
2.43.0


From 057bf899ceaab5c2c5d14ff64054a635d054255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:32 +0000
Subject: [PATCH 29/48] fix: add the missing typename under KE_ALLOW_STD_CXX

The macro did not compile before C++20.
---
 amtl/am-enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-enum.h b/amtl/am-enum.h
index 8c8aa3b..cb17ba0 100644
--- a/amtl/am-enum.h
+++ b/amtl/am-enum.h
@@ -37,7 +37,7 @@ namespace ke {
 template <typename T>
 struct enum_integral_type {
 #ifdef KE_ALLOW_STD_CXX
-    using type = std::underlying_type<T>::type;
+    using type = typename std::underlying_type<T>::type;
 #else
     using type = __underlying_type(T);
 #endif
-- 
2.43.0


From 00eac96dc5ea7c9901cc160325332cfd8a57177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 30/48] fix: let a ScopeGuard over a named callable be moved

MakeScopeGuard() deduces an lvalue reference for a named callable, and the
move constructor tried to bind it to an rvalue.
---
 amtl/am-raii.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index 71dfe74..d975b5e 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -84,7 +84,7 @@ class ScopeGuard
         cancelled_(false)
     {}
     ScopeGuard(ScopeGuard&& other) noexcept
-      : callback_(std::move(other.callback_)),
+      : callback_(std::forward<T>(other.callback_)),
         cancelled_(other.cancelled_)
     {
         other.cancel();
-- 
2.43.0


From bab8426fea9b5b866434de09d379998f5adeecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 31/48] fix: do not let a SharedLib be copied

A copy closed the same handle a second time.
---
 amtl/os/am-shared-library.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amtl/os/am-shared-library.h b/amtl/os/am-shared-library.h
index 21227c9..c8f82dc 100644
--- a/amtl/os/am-shared-library.h
+++ b/amtl/os/am-shared-library.h
@@ -113,6 +113,9 @@ class SharedLib : public Refcounted<SharedLib>
     }
 
   private:
+    SharedLib(const SharedLib&) = delete;
+    SharedLib& operator =(const SharedLib&) = delete;
+
     SysType lib_;
 };
 
-- 
2.43.0


From b083849c4b87b1c85ea937ebc40b4dd397a22e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 32/48] fix: do not let an InlineList be copied

The list head is linked into its members by address, so a copy shares
and then corrupts the members of the original.
---
 amtl/am-inlinelist.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 79c2280..3e35a6f 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -101,6 +101,9 @@ class InlineList
        length_(0)
     {}
 
+    InlineList(const InlineList&) = delete;
+    InlineList& operator =(const InlineList&) = delete;
+
     ~InlineList() {
 #if !defined(NDEBUG)
         // Remove all items to clear their next/prev fields.
-- 
2.43.0


From ddf3b5688e5dcb895d9ae84e4025e8872e76c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 33/48] fix: record the owner when a Mutex is taken with
 try_lock

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..066cfe9 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+           return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 733f7abe16ac6a21d7aee7f0ab1a39fc9aa83f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:48 +0000
Subject: [PATCH 34/48] fix: create a thread-local key once and never use it
 before it exists

---
 amtl/am-threadlocal.h | 48 +++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 09b054b..7547373 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -36,6 +36,11 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#if !defined(KE_SINGLE_THREADED)
+# include <atomic>
+# include <thread>
+#endif
+
 #ifdef _WIN32
 # include <windows.h>
 #else
@@ -92,29 +97,47 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    enum { kUnallocated, kAllocating, kAllocated };
+
+    std::atomic<int> allocated_;
 
   public:
-    ThreadLocal() {
-        allocated_ = 0;
+    ThreadLocal()
+     : allocated_(kUnallocated)
+    {
     }
 
     T get() const {
-        if (!allocated_)
+        if (allocated_.load(std::memory_order_acquire) != kAllocated)
             return T();
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (!allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
         internalSet(t);
     }
 
+    // Only one thread creates the key; the others wait until it either exists,
+    // or could not be created, in which case they try for themselves.
+    bool allocate() {
+        int state;
+        while ((state = allocated_.load(std::memory_order_acquire)) != kAllocated) {
+            if (state == kUnallocated && allocated_.compare_exchange_strong(state, kAllocating)) {
+                bool ok = createKey();
+                allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
+                return ok;
+            }
+            std::this_thread::yield();
+        }
+        return true;
+    }
+
 #    if defined(_MSC_VER)
     ~ThreadLocal() {
-        if (allocated_)
+        if (allocated_ == kAllocated)
             TlsFree(key_);
     }
 
@@ -125,9 +148,7 @@ class ThreadLocal
     void internalSet(const T& t) {
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
-    bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
+    bool createKey() {
         key_ = TlsAlloc();
         return key_ != TLS_OUT_OF_INDEXES;
     }
@@ -137,17 +158,14 @@ class ThreadLocal
 #    else
   public:
     ~ThreadLocal() {
-        if (allocated_)
+        if (allocated_ == kAllocated)
             pthread_key_delete(key_);
     }
 
-    bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
+  private:
+    bool createKey() {
         return pthread_key_create(&key_, nullptr) == 0;
     }
-
-  private:
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-- 
2.43.0


From 6f1b4c5f87adfeb8dcd521b77941767ceb9ab10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 35/48] fix: keep SafeStrcpyN inside the source and always
 terminate

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..18e1cee 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -230,12 +230,12 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (--count && n-- && *src)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From 183d051c8aeb6cdd661a66bb24508230bf3a03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 36/48] fix: leave an empty string when SafeVsprintf cannot
 format

---
 amtl/am-string.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 18e1cee..d06cb67 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -155,8 +155,16 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
     if (!maxlength)
         return 0;
 
-    size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+    int result = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+#if !defined(_MSC_VER)
+    // Note: _vsnprintf also returns a negative value for truncated text.
+    if (result < 0) {
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
 
+    size_t len = size_t(result);
     if (len >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
-- 
2.43.0


From cd25d82f6403a667eaa2215c8e28e41c95b325e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 37/48] fix: end the copied argument list when formatting fails

---
 amtl/am-string.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d06cb67..85eed6f 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -113,20 +113,19 @@ SprintfArgsImpl(size_t* out_len, const char* fmt, va_list ap)
         return buffer;
     }
 
-    auto buffer = std::make_unique<char[]>(len + 1);
+    auto buffer = std::make_unique<char[]>(size_t(len) + 1);
     if (!buffer) {
         va_end(argv);
         return buffer;
     }
 
-    int new_len = KE_VSNPRINTF(buffer.get(), len + 1, fmt, argv);
+    int new_len = KE_VSNPRINTF(buffer.get(), size_t(len) + 1, fmt, argv);
+    va_end(argv);
     if (new_len < 0)
         return std::unique_ptr<char[]>();
     assert(len == new_len);
 
     *out_len = new_len;
-
-    va_end(argv);
     return buffer;
 }
 
-- 
2.43.0


From 51007426774b5d1141c8c37005e69ec465b864fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 38/48] fix: report an unknown --no- option instead of crashing

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From aea21106f8741f17baad2fa548d341e64cb2a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 39/48] fix: do not ignore an option whose optional value is
 rejected

---
 amtl/experimental/am-argparser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..67caf6d 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,11 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            // If the value was optional, the next argument may not have been meant
+            // for this option.
+            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+            i--;
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From 2e3525c95c2b99904996e510501c33fa477dc55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 40/48] fix: pass a second double dash through

---
 amtl/experimental/am-argparser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 67caf6d..d7425c9 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -628,14 +628,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
-            has_passthrough_args_ = true;
-            continue;
-        }
         if (has_passthrough_args_) {
             passthrough_args_.emplace_back(arg);
             continue;
         }
+        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+            has_passthrough_args_ = true;
+            continue;
+        }
 
         const char* value_ptr = nullptr;
         if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {
-- 
2.43.0


From d9d29b224268baedef857c40eb0a993c80ab8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 41/48] fix: reset everything a parse can change

---
 amtl/experimental/am-argparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index d7425c9..c4a2013 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1040,6 +1040,10 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+    error_.clear();
+    has_passthrough_args_ = false;
+    extra_args_.clear();
+    passthrough_args_.clear();
 }
 
 } // namespace args
-- 
2.43.0


From a8171f6cde5c02fe20f1773c5dfe0a9b021c11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 42/48] fix: reject integer options that do not fit

---
 amtl/experimental/am-argparser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index c4a2013..04bf06d 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,7 +30,12 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdarg.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #include <algorithm>
 #include <memory>
@@ -538,9 +543,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = int(value);
         return true;
     }
 };
-- 
2.43.0


From cb3e3d605565d19469df9842302d5148e781ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 43/48] fix: end the argument list in parsev

---
 amtl/experimental/am-argparser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 04bf06d..356d297 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -623,6 +623,7 @@ Parser::parsev(const char* arg1, ...)
         argv.emplace_back(arg);
         arg = va_arg(ap, const char*);
     }
+    va_end(ap);
 
     return parse_impl(argv);
 }
-- 
2.43.0


From 5da221999ac924fb93315a7d9625d08d5f43abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:46 +0000
Subject: [PATCH 44/48] fix: give toupper and tolower unsigned characters

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 85eed6f..4f1d93a 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -331,14 +331,14 @@ Join(const std::vector<std::string>& pieces, const char* sep)
 static inline std::string Uppercase(const char* str) {
     std::string result(str);
     for (size_t i = 0; i < result.size(); i++)
-        result[i] = toupper(result[i]);
+        result[i] = (char)toupper((unsigned char)result[i]);
     return result;
 }
 
 static inline std::string Lowercase(const char* str) {
     std::string result(str);
     for (size_t i = 0; i < result.size(); i++)
-        result[i] = tolower(result[i]);
+        result[i] = (char)tolower((unsigned char)result[i]);
     return result;
 }
 
-- 
2.43.0


From 2c366c102a6a2f05aea9952402e03bf5079d45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:25 +0000
Subject: [PATCH 45/48] fix: hash integers without undefined arithmetic

HashInt32 and HashInt64 shifted and multiplied signed values, which is
undefined for most keys (HashPointer goes through the latter). Compute with
unsigned values; the hashes are unchanged.
---
 amtl/am-hashtable.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 732e874..dcb78e2 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -602,26 +602,28 @@ FastHashCharSequence(const char* s, size_t length)
 
 // From http://burtleburtle.net/bob/hash/integer.html
 static inline uint32_t
-HashInt32(int32_t a)
+HashInt32(int32_t key)
 {
-    a = (a ^ 61) ^ (a >> 16);
+    // Compute with unsigned values, which may wrap; the right shifts are signed.
+    uint32_t a = (key ^ 61) ^ (key >> 16);
     a = a + (a << 3);
-    a = a ^ (a >> 4);
+    a = a ^ (int32_t(a) >> 4);
     a = a * 0x27d4eb2d;
-    a = a ^ (a >> 15);
+    a = a ^ (int32_t(a) >> 15);
     return a;
 }
 
 // From http://www.cris.com/~Ttwang/tech/inthash.htm
 static inline uint32_t
-HashInt64(int64_t key)
+HashInt64(int64_t value)
 {
+    uint64_t key = value;
     key = (~key) + (key << 18); // key = (key << 18) - key - 1;
-    key = key ^ (uint64_t(key) >> 31);
+    key = key ^ (key >> 31);
     key = key * 21; // key = (key + (key << 2)) + (key << 4);
-    key = key ^ (uint64_t(key) >> 11);
+    key = key ^ (key >> 11);
     key = key + (key << 6);
-    key = key ^ (uint64_t(key) >> 22);
+    key = key ^ (key >> 22);
     return uint32_t(key);
 }
 
-- 
2.43.0


From 1a207ae3322940d941bce6f7092e70a6199c980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 46/48] fix: restyler: an edit of an empty range takes nothing
 away

---
 tools/restyler/amstyler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/restyler/amstyler.cpp b/tools/restyler/amstyler.cpp
index a6b2469..a11cc13 100644
--- a/tools/restyler/amstyler.cpp
+++ b/tools/restyler/amstyler.cpp
@@ -138,6 +138,9 @@ public:
           assert(false);
           break;
       }
+      // An edit of an empty range takes nothing away.
+      if (ignore_until == i)
+        output << text_[i];
     }
 
     assert(ops_.empty());
-- 
2.43.0


From 7c7f617ecb0ea45ddb0f7af10e610aa7ad80639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 47/48] fix: restyler: keep comments before a brace that is
 split off

---
 tools/restyler/amstyler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/restyler/amstyler.cpp b/tools/restyler/amstyler.cpp
index a11cc13..f17a06e 100644
--- a/tools/restyler/amstyler.cpp
+++ b/tools/restyler/amstyler.cpp
@@ -429,8 +429,8 @@ private:
   }
 
   bool splitBraceAfter(const SourceLocation& line, const SourceLocation& where, Stmt* body) {
-    // This is the first space after the prototype or right-paren.
-    auto space = where.getLocWithOffset(1);
+    // This is the first space before the brace; a comment may precede it.
+    auto space = getFirstWhitespaceBeforeLoc(where, body->getLocStart());
     return splitBrace(line, space, body);
   }
 
@@ -523,6 +523,8 @@ private:
         assert(src_mgr_.getFileOffset(loc) < end_offset);
       } else {
         loc = skipToken(loc);
+        if (src_mgr_.getFileOffset(loc) == end_offset)
+          return end_loc;
         assert(src_mgr_.getFileOffset(loc) < end_offset);
       }
     }
-- 
2.43.0


From ba0ec87229b7d65cedbd29f628c850bdfce5d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 48/48] fix: restyler: report a file that could not be written

---
 tools/restyler/amstyler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/restyler/amstyler.cpp b/tools/restyler/amstyler.cpp
index f17a06e..c0db5a8 100644
--- a/tools/restyler/amstyler.cpp
+++ b/tools/restyler/amstyler.cpp
@@ -733,6 +733,11 @@ ToolMain::RunForPath(const std::string& input_file)
       return false;
     }
     output_file << new_text;
+    output_file.close();
+    if (!output_file) {
+      std::cerr << "write " << input_file << ": " << strerror(errno) << std::endl;
+      return false;
+    }
   } else {
     llvm::outs() << new_text;
   }
-- 
2.43.0

