From af215e350db5bcebbe18a09b0bc1fa2e2798d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 01/59] fix: run every arena cleanup before any block is
 deallocated

---
 arena/arena.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..ae5bcbd 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -305,6 +305,8 @@ class Arena
             }
         }
 
+        [[gnu::always_inline]] inline void drop_cleanups() noexcept { _limit = _size; }
+
         [[nodiscard, gnu::always_inline]] inline auto cleanups() const noexcept -> uint64_t {
             uint64_t space = _size - _limit;
             Assert(space % kCleanupNodeSize == 0, "cleanups space should aligned to sizeof (CleanupNode)");  // NOLINT
@@ -610,20 +612,30 @@ class Arena
         return addCleanup(ptr, &arena_destruct_object<T>);
     }
 
+    /*
+     * run all cleanups of all blocks, from the last block to the first one, and return the remains size of all blocks.
+     * no block can be deallocated before that, because an object in an older block may still use the memory in a newer
+     * block, such as a pmr container that had grown.
+     */
+    auto run_all_cleanups() noexcept -> uint64_t {
+        uint64_t remain_size = 0;
+        for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
+            remain_size += curr->remain();
+            curr->run_cleanups();
+        }
+        return remain_size;
+    }
+
     /*
      * free all blocks and return all remains size of all blocks that was freed.
      */
     auto free_all_blocks() noexcept -> uint64_t {
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
+        uint64_t remain_size = run_all_cleanups();
 
         while (curr != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
@@ -637,20 +649,16 @@ class Arena
     auto free_blocks_except_head() noexcept -> uint64_t {
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = 0;
+        uint64_t remain_size = run_all_cleanups();
 
         while (curr != nullptr && curr->prev() != nullptr) {
             prev = curr->prev();
-            // add the size of curr blk.
-            remain_size += curr->remain();
-            // run all cleanups first
-            curr->run_cleanups();
             _options.block_dealloc(curr);
             curr = prev;
         }
         Assert(curr != nullptr, "curr should not be nullptr");
-        // add the curr blk remain to result
-        remain_size += curr->remain();
+        // the cleanups of the first block were run already.
+        curr->drop_cleanups();
         // reset the last_block_ to the first block
         _last_block = curr;
         return remain_size;
-- 
2.43.0


From 0a7aad71eacfa3c7aa1211aded3678520b0ae136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 02/59] fix: Reset and SpaceRemains on an arena without blocks

---
 arena/arena.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index ae5bcbd..2fe129a 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -403,8 +403,10 @@ class Arena
         }
         // reset all internal status.
         uint64_t reset_size = _space_allocated;
-        _space_allocated = _last_block->size();
-        _last_block->Reset();
+        if (_last_block != nullptr) [[likely]] {
+            _space_allocated = _last_block->size();
+            _last_block->Reset();
+        }
         return reset_size;
     }
 
@@ -420,7 +422,7 @@ class Arena
      * caller can use is function to test whether the Arena will allocate a new block.
      */
     [[nodiscard, gnu::always_inline]] inline auto SpaceRemains() const noexcept -> uint64_t {
-        return _last_block->remain();
+        return _last_block == nullptr ? 0 : _last_block->remain();
     }
 
     /*
@@ -656,7 +658,10 @@ class Arena
             _options.block_dealloc(curr);
             curr = prev;
         }
-        Assert(curr != nullptr, "curr should not be nullptr");
+        // no block was allocated yet, nothing to do.
+        if (curr == nullptr) [[unlikely]] {
+            return remain_size;
+        }
         // the cleanups of the first block were run already.
         curr->drop_cleanups();
         // reset the last_block_ to the first block
-- 
2.43.0


From bbd2714bcdab575e5111d793ca7c26e3381ea032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 03/59] fix: refuse arena requests that overflow the size type

---
 arena/arena.cc  | 9 ++++++++-
 arena/arena.hpp | 8 ++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..e50bd86 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -65,7 +65,10 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
     if (min_bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize) {
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
-        _options.logger_func(output_message);
+        if (_options.logger_func != nullptr) {
+            _options.logger_func(output_message);
+        }
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -138,6 +141,10 @@ void Arena::Block::Reset() noexcept {
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
+    // the size is too large to be aligned.
+    if (needed < bytes) [[unlikely]] {
+        return nullptr;
+    }
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         Block* curr = newBlock(needed, _last_block);
         if (curr != nullptr) [[likely]] {
diff --git a/arena/arena.hpp b/arena/arena.hpp
index 2fe129a..b035e74 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -290,7 +290,8 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            // compare with subtraction, because the sum may be larger than the uint64_t max.
+            return alignment_waste <= _limit - _pos && size <= _limit - _pos - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -461,7 +462,10 @@ class Arena
               "CreateArray need too many memory, that more than max of uint64_t, the num of array is {}, and the Type "
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
-            _options.logger_func(output_message);
+            if (_options.logger_func != nullptr) {
+                _options.logger_func(output_message);
+            }
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size);
-- 
2.43.0


From 6e47d3fe9c0ccc9778e7ffeb54c9eeb98721c9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 04/59] fix: make room for the alignment padding in a new arena
 block

---
 arena/arena.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index e50bd86..6bccdb0 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -146,7 +146,12 @@ auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char
         return nullptr;
     }
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // the memory after the block's header is aligned to kByteSize only, so make room for the alignment waste.
+        uint64_t slack = alignment - kByteSize;
+        if (needed > std::numeric_limits<uint64_t>::max() - slack) [[unlikely]] {
+            return nullptr;
+        }
+        Block* curr = newBlock(needed + slack, _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From 2507468c15b6bd98cda82a47ab798afcad236f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 05/59] fix: Create and CreateArray honour alignof(T)

---
 arena/arena.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index b035e74..22b3bb1 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -34,6 +34,7 @@
 
 #include <stdint.h>  // for uint64_t, uint8_t
 
+#include <algorithm>  // for max
 #include <boost/assert/source_location.hpp>
 #include <boost/core/demangle.hpp>  // for demangle
 #include <concepts>
@@ -433,7 +434,7 @@ class Arena
      */
     template <Creatable T, typename... Args>
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
-        char* ptr = allocateAligned(sizeof(T));
+        char* ptr = allocateAligned(sizeof(T), std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
@@ -468,7 +469,7 @@ class Arena
             return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
-        char* ptr = allocateAligned(size);
+        char* ptr = allocateAligned(size, std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
-- 
2.43.0


From 14c1d936027e4cd1c2f21c54463b4ab630c5331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 06/59] fix: moved arena keeps its memory_resource and its
 hooks

---
 arena/arena.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 22b3bb1..6c70d12 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -160,7 +160,17 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the memory_resource should allocate from its new owner.
+        if (_resource != nullptr) [[likely]] {
+            _resource->_arena = this;
+        }
+        // the cookie was moved out, so the hooks should never be called by the moved-from arena again.
+        other._options.on_arena_reset = nullptr;
+        other._options.on_arena_allocation = nullptr;
+        other._options.on_arena_newblock = nullptr;
+        other._options.on_arena_destruction = nullptr;
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
@@ -349,6 +359,8 @@ class Arena
 
        private:
         Arena* _arena;
+
+        friend class Arena;
     };
 
     /*
-- 
2.43.0


From 9178ee2dd8dd12365528e0ad856fb983ee486b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 07/59] fix: arena memory_resource throws bad_alloc instead of
 returning nullptr

---
 arena/arena.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 6c70d12..abec856 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -341,8 +341,13 @@ class Arena
         [[nodiscard]] auto get_arena() const -> Arena* { return _arena; }
 
        protected:
-        auto do_allocate(size_t bytes, size_t alignment) noexcept -> void* override {
-            return reinterpret_cast<char*>(_arena->allocateAligned(bytes, std::max(kByteSize, alignment)));
+        auto do_allocate(size_t bytes, size_t alignment) -> void* override {
+            auto* ptr = _arena->allocateAligned(bytes, std::max(kByteSize, alignment));
+            // a pmr::memory_resource is not allowed to return nullptr.
+            if (ptr == nullptr) [[unlikely]] {
+                throw std::bad_alloc();
+            }
+            return ptr;
         }
 
         void do_deallocate([[maybe_unused]] void* /*unused*/, [[maybe_unused]] size_t /*unused*/,
@@ -448,7 +453,12 @@ class Arena
     [[nodiscard]] auto Create(Args&&... args) noexcept -> T* {
         char* ptr = allocateAligned(sizeof(T), std::max<uint64_t>(kByteSize, alignof(T)));
         if (ptr != nullptr) [[likely]] {
-            Construct<T>(ptr, *this, std::forward<Args>(args)...);
+            try {
+                Construct<T>(ptr, *this, std::forward<Args>(args)...);
+            } catch (const std::bad_alloc&) {
+                // the arena is out of memory while constructing the object's content.
+                return nullptr;
+            }
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
                 return nullptr;
@@ -485,7 +495,11 @@ class Arena
         if (ptr != nullptr) [[likely]] {
             T* curr = reinterpret_cast<T*>(ptr);
             for (uint64_t i = 0; i < num; ++i) {
-                Construct<T>(curr++, *this);
+                try {
+                    Construct<T>(curr++, *this);
+                } catch (const std::bad_alloc&) {
+                    return nullptr;
+                }
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
                 _options.on_arena_allocation(&typeid(T), size, _cookie);
@@ -701,11 +715,11 @@ class Arena
     friend class ArenaTestHelper;
 
     /*
-     * because of using 'new placement' do not need to allocate memory
-     * so no bad_alloc will be thrown
+     * using 'new placement' do not need to allocate memory for the object self,
+     * but its constructor may throw bad_alloc while the arena is out of memory.
      */
     template <typename T, typename... Args>
-    [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) noexcept -> T* {
+    [[gnu::always_inline]] inline static auto Construct(void* ptr, Arena& arena, Args&&... args) -> T* {
         // placement new make the new Object T is in the ptr-> memory.
         if constexpr (std::is_constructible_v<T, Args..., ::pmr::polymorphic_allocator<T>>) {
             return new (ptr) T(std::forward<Args>(args)..., arena.get_memory_resource());
-- 
2.43.0


From 3fe5b9d9c424196e58854c4b3ea3d70c0c74346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 08/59] fix: destroy the object when its cleanup can not be
 registered

---
 arena/arena.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index abec856..8e509bf 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -461,6 +461,10 @@ class Arena
             }
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                // nobody will destroy the object later.
+                if constexpr (!ArenaHelper<T>::is_destructor_skippable::value) {
+                    arena_destruct_object<T>(result);
+                }
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From bf3de8063418d280aa1695349e7787cc0cdcf4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 09/59] fix: protect the location map of the global arena
 metrics

---
 arena/metrics.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 2a66f49..8f3ccc4 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -41,6 +41,7 @@
 #include <compare>        // for operator<=, strong_ordering
 #include <cstdint>        // for uint64_t, uint32_t
 #include <memory>         // for allocator, unique_ptr
+#include <mutex>          // for mutex, lock_guard
 #include <string>         // for string, char_traits, hash
 #include <typeinfo>       // for type_info
 #include <unordered_map>  // for unordered_map, operator==
@@ -103,6 +104,7 @@ struct GlobalArenaMetrics
     // atomic<uint64_t> destruct_lifetime_bucket_counter[kLifetimeBucketSize] = {0};
     std::array<atomic<uint64_t>, kLifetimeBucketSize> destruct_lifetime_bucket_counter{0};
     std::unordered_map<std::string, atomic<uint64_t>> arena_alloc_counter = {};  // arena identified by init() location
+    mutable std::mutex arena_alloc_mutex = {};  // insertion into the arena_alloc_counter is not an atomic operation
 
     void reset() {  // lockless and races for metric-data is acceptable
         init_count.store(0, std::memory_order::relaxed);
@@ -120,6 +122,7 @@ struct GlobalArenaMetrics
         for (auto& counter : destruct_lifetime_bucket_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
+        const std::lock_guard<std::mutex> lock(arena_alloc_mutex);
         for (auto& [key, counter] : arena_alloc_counter) {
             counter.store(0, std::memory_order::relaxed);
         }
@@ -157,6 +160,7 @@ struct GlobalArenaMetrics
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
+        const std::lock_guard<std::mutex> lock(arena_alloc_mutex);
         for (const auto& [loc, counter] : arena_alloc_counter) {
             str += fmt::format("\n  {}: {}", loc, counter);
         }
@@ -249,8 +253,11 @@ struct LocalArenaMetrics
             global_arena_metrics.destruct_lifetime_bucket_counter.at(i).fetch_add(
               destruct_lifetime_bucket_counter.at(i), std::memory_order::relaxed);
         }
-        for (const auto& [loc, count] : arena_alloc_counter) {
-            global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+        if (not arena_alloc_counter.empty()) {
+            const std::lock_guard<std::mutex> lock(global_arena_metrics.arena_alloc_mutex);
+            for (const auto& [loc, count] : arena_alloc_counter) {
+                global_arena_metrics.arena_alloc_counter[loc].fetch_add(count, std::memory_order::relaxed);
+            }
         }
 
         reset();
-- 
2.43.0


From 99c259a6b7595515e0f386144733658ba6c1bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 10/59] fix: GlobalArenaMetrics::string divides by zero without
 allocations or destructions

---
 arena/metrics.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arena/metrics.hpp b/arena/metrics.hpp
index 8f3ccc4..2f02dcf 100644
--- a/arena/metrics.hpp
+++ b/arena/metrics.hpp
@@ -149,14 +149,17 @@ struct GlobalArenaMetrics
         for (uint64_t i = 0, count = 0; i < kAllocBucketSize; i++) {
             count += alloc_size_bucket_counter.at(i);
             // count < alloc_count
-            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i), count * kPercentMagic / alloc_count);
+            const uint64_t total = alloc_count;
+            str += fmt::format("\n  le={}: {}%", alloc_size_bucket.at(i),
+                               total == 0 ? 0 : count * kPercentMagic / total);
         }
 
         str += "\nLifetime distribution:";
         for (uint64_t i = 0, count = 0; i < kLifetimeBucketSize; i++) {
             count += destruct_lifetime_bucket_counter.at(i);
+            const uint64_t total = destruct_count;
             str += fmt::format("\n  le={}ms: {}", destruct_lifetime_bucket.at(i).count(),
-                               (count * kPercentMagic) / destruct_count);
+                               total == 0 ? 0 : (count * kPercentMagic) / total);
         }
 
         str += "\nArena Location/AllocSize:";  // TODO(longqimin): re-evaluate str.reserve size
-- 
2.43.0


From 9e9a6bd2db172feb22e1eb1fdcff5544c24d1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 11/59] fix: stdb_vector destroys the moved-from elements

---
 container/stdb_vector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..686b41c 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -215,6 +215,8 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            // the moved-from object is still alive, its memory will be freed or reused.
+            src->~T();
         }
         return dst;
     } else {
@@ -243,6 +245,8 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            // the moved-from object is still alive, its memory will be freed or reused.
+            src->~T();
         }
 
     } else {
@@ -498,8 +502,9 @@ class core
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+            for (T* src_end = _finish - 1; src_end >= src; --dst_end, --src_end) [[likely]] {
+                new (dst_end) T(std::move(*src_end));
+                src_end->~T();
             }
         } else {
             // backward copy
@@ -1043,6 +1048,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
@@ -1113,6 +1119,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        src->~T();
                     }
                     ++dst;
                 }
-- 
2.43.0


From ff9a31b43b922576790713a4d1217ea36218247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 12/59] fix: stdb_vector accepts empty ranges and zero counts
 in assign and insert

---
 container/stdb_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 686b41c..186bcfe 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -610,7 +610,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -627,7 +629,7 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
                 this->_finish = this->_start + count;
@@ -1263,10 +1265,12 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe>
     constexpr auto insert(const_iterator pos, size_type count, const_reference value) -> iterator {
-        Assert(count > 0, "count should be larger than 0");
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        if (count == 0) [[unlikely]] {
+            return iterator(pos_ptr);
+        }
         if constexpr (safety == Safety::Safe) {
             if (size + count > this->capacity()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-- 
2.43.0


From a1355022cf3590d9b64f4673ad717178041c17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 13/59] fix: stdb_vector stays valid when an allocation fails
 or is too large

---
 container/stdb_vector.hpp | 49 ++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 186bcfe..643b358 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -259,6 +259,22 @@ template <typename T>
     }
 }
 
+/*
+ * allocate the buffer of cap elements, if failed, throw std::bad_alloc.
+ * if cap elements can not be represented, throw std::length_error.
+ */
+template <typename T>
+[[nodiscard]] auto allocate_buffer(std::size_t cap) -> T* {
+    if (cap > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+        throw std::length_error("stdb_vector: capacity is larger than max_size");
+    }
+    auto* ptr = static_cast<T*>(std::malloc(cap * sizeof(T)));
+    if (ptr == nullptr) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    return ptr;
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -271,13 +287,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = allocate_buffer<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto* new_ptr = allocate_buffer<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -307,11 +320,9 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        // do not touch the members before the allocation succeeds.
+        _start = allocate_buffer<T>(cap);
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -351,12 +362,8 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            // destroy old data
-            destroy_range(_start, _finish);
-            // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
+            // drop old data and allocate new memory
+            realloc_drop_old_data(new_size);
             // copy data
             _finish = copy_range(_start, other._start, other._finish);
         } else {
@@ -454,8 +461,12 @@ class core
     }
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
-        this->~core();
-        allocate(new_cap);
+        // allocate first, keep the old data if failed.
+        auto* new_start = allocate_buffer<T>(new_cap);
+        destroy_range(_start, _finish);
+        std::free(_start);
+        _start = _finish = new_start;
+        _edge = _start + new_cap;
         return _start;
     }
 
@@ -898,7 +909,7 @@ class stdb_vector : public core<T>
     void fill(size_type (*filler)(T*)) {
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
-            if (to_fill + this->size() > this->capacity()) [[unlikely]] {
+            if (to_fill > this->capacity() - this->size()) [[unlikely]] {
                 this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
             }
             this->_finish += filler(this->_finish);
-- 
2.43.0


From d42330ac72bd8aeb88bb6a2aeb74bf04b1c7a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 14/59] fix: stdb_vector insert/emplace/resize with arguments
 referring to own elements

---
 container/stdb_vector.hpp | 57 ++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 643b358..324979a 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -526,6 +526,15 @@ class core
         }
     }
 
+    // construct the element by a temporary value, the value will not be used any more.
+    [[gnu::always_inline]] void construct_from_temporary(T* __restrict__ ptr, T& value) {
+        if constexpr (std::is_move_constructible_v<T>) {
+            new (ptr) T(std::move(value));
+        } else {
+            new (ptr) T(value);
+        }
+    }
+
     template <typename... Args>
     [[gnu::always_inline]] void construct_at(T* __restrict__ ptr, Args&&... args) {
         new ((void*)ptr) T(std::forward<Args>(args)...);  // NOLINT
@@ -1202,7 +1211,13 @@ class stdb_vector : public core<T>
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
             if (count > this->capacity()) {
+                // the value may be an element of this vector, copy it before the old buffer is freed.
+                T copied_value(value);
                 this->realloc_with_old_data(count);
+                auto* old_end = this->_finish;
+                this->_finish = this->_start + count;
+                construct_range_with_cref(old_end, this->_finish, copied_value);
+                return;
             }
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1222,6 +1237,8 @@ class stdb_vector : public core<T>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        // the value may be an element of this vector, copy it before the elements are moved.
+        T copied_value(value);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1232,7 +1249,8 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
+            this->construct_from_temporary(this->_finish, copied_value);
+            ++this->_finish;
             return iterator(pos_ptr);
         }
         // move all elements after pos to the right, with backward direction, because have overlap
@@ -1241,7 +1259,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        copy_cref(pos_ptr, value);
+        this->construct_from_temporary(pos_ptr, copied_value);
         ++this->_finish;
         return iterator(pos_ptr);
     }
@@ -1282,6 +1300,8 @@ class stdb_vector : public core<T>
         if (count == 0) [[unlikely]] {
             return iterator(pos_ptr);
         }
+        // the value may be an element of this vector, copy it before the elements are moved.
+        T copied_value(value);
         if constexpr (safety == Safety::Safe) {
             if (size + count > this->capacity()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1297,7 +1317,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, value);
+        construct_range_with_cref(pos_ptr, pos_ptr + count, copied_value);
         this->_finish += count;
         return iterator(pos_ptr);
     }
@@ -1342,32 +1362,14 @@ class stdb_vector : public core<T>
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(iterator pos, Args&&... args) -> iterator {
-        T* pos_ptr = get_ptr_from_iter(pos);
-        if constexpr (safety == Safety::Safe) {
-            if (this->full()) [[unlikely]] {
-                difference_type pos_offset = pos_ptr - this->_start;
-                reserve(compute_next_capacity());
-                // calculate the new pos_ptr
-                pos_ptr = this->_start + pos_offset;
-            }
-        }
-        Assert(not this->full(), "emplace should not be called with full vector");
-        if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
-            return iterator(pos_ptr);
-        }
-        if (pos_ptr < this->_finish - 1) [[likely]] {
-            this->move_backward(pos_ptr + 1, pos_ptr);
-        } else {
-            this->move_forward(pos_ptr + 1, pos_ptr);
-        }
-        new (pos_ptr) T(std::forward<Args>(args)...);
-        ++this->_finish;
-        return iterator(pos_ptr);
+        return emplace<safety>(static_cast<size_type>(get_ptr_from_iter(pos) - this->_start),
+                               std::forward<Args>(args)...);
     }
 
     template <Safety safety = Safety::Safe, typename... Args>
     constexpr auto emplace(size_type pos, Args&&... args) -> iterator {
+        // the args may refer to the elements of this vector, construct the value before the elements are moved.
+        T value(std::forward<Args>(args)...);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 reserve(compute_next_capacity());
@@ -1377,7 +1379,8 @@ class stdb_vector : public core<T>
         T* pos_ptr = this->_start + pos;
 
         if (pos_ptr == this->_finish) [[unlikely]] {
-            new (this->_finish++) T(std::forward<Args>(args)...);
+            this->construct_from_temporary(this->_finish, value);
+            ++this->_finish;
             return iterator(pos_ptr);
         }
         if (pos_ptr < this->_finish - 1) [[likely]] {
@@ -1385,7 +1388,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        new (pos_ptr) T(std::forward<Args>(args)...);
+        this->construct_from_temporary(pos_ptr, value);
         ++this->_finish;
         return iterator(pos_ptr);
     }
-- 
2.43.0


From ee6ce3b05665a86a341e6f75c6836c4ba11985e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 15/59] fix: stdb_vector stays valid when constructing an
 element throws

---
 container/stdb_vector.hpp | 163 +++++++++++++++++++++++++-------------
 1 file changed, 108 insertions(+), 55 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 324979a..97aa81d 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -89,6 +89,26 @@ template <typename Iterator>
     }
 }
 
+template <typename T>
+[[gnu::always_inline]] inline void destroy_ptr(T* __restrict__ ptr) noexcept {
+    if constexpr (std::is_trivially_destructible_v<T>) {
+        // do nothing.
+    } else {
+        ptr->~T();
+    }
+}
+
+template <typename T>
+[[gnu::always_inline]] inline void destroy_range(T* __restrict__ begin, T* __restrict__ end) noexcept {
+    if constexpr (std::is_trivially_destructible_v<T>) {
+        // do nothing
+    } else {
+        for (; begin != end; ++begin) {
+            begin->~T();
+        }
+    }
+}
+
 template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
@@ -97,8 +117,14 @@ template <typename T>
         // set zero to all bytes.
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T();
+        auto* curr = first;
+        try {
+            for (; curr != last; ++curr) {
+                new (curr) T();
+            }
+        } catch (...) {
+            destroy_range(first, curr);
+            throw;
         }
     }
 }
@@ -113,8 +139,14 @@ template <typename T>
     if constexpr (sizeof(T) == sizeof(char)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
-        for (; first != last; ++first) {
-            new (first) T(value);
+        auto* curr = first;
+        try {
+            for (; curr != last; ++curr) {
+                new (curr) T(value);
+            }
+        } catch (...) {
+            destroy_range(first, curr);
+            throw;
         }
     }
 }
@@ -130,10 +162,16 @@ template <typename T>
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
-        for (; src != src_end; ++src, ++dst) {
-            new (dst) T(*src);
+        auto* curr = dst;
+        try {
+            for (; src != src_end; ++src, ++curr) {
+                new (curr) T(*src);
+            }
+        } catch (...) {
+            destroy_range(dst, curr);
+            throw;
         }
-        return dst;
+        return curr;
     }
 }
 
@@ -174,28 +212,14 @@ template <typename T, typename Iterator>
             std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
         }
     } else {
-        for (; first != last; ++first, ++dst) {
-            new (dst) T(*first);
-        }
-    }
-}
-
-template <typename T>
-[[gnu::always_inline]] inline void destroy_ptr(T* __restrict__ ptr) noexcept {
-    if constexpr (std::is_trivially_destructible_v<T>) {
-        // do nothing.
-    } else {
-        ptr->~T();
-    }
-}
-
-template <typename T>
-[[gnu::always_inline]] inline void destroy_range(T* __restrict__ begin, T* __restrict__ end) noexcept {
-    if constexpr (std::is_trivially_destructible_v<T>) {
-        // do nothing
-    } else {
-        for (; begin != end; ++begin) {
-            begin->~T();
+        auto* curr = dst;
+        try {
+            for (; first != last; ++first, ++curr) {
+                new (curr) T(*first);
+            }
+        } catch (...) {
+            destroy_range(dst, curr);
+            throw;
         }
     }
 }
@@ -342,7 +366,13 @@ class core
         if (rhs.size() > 0) [[likely]] {
             allocate(rhs.size());
             auto size = rhs.size();
-            copy_range(_start, rhs._start, rhs._finish);
+            try {
+                copy_range(_start, rhs._start, rhs._finish);
+            } catch (...) {
+                // the destructor will not be called.
+                std::free(_start);
+                throw;
+            }
             _finish = _start + size;
         } else {
             _start = _finish = _edge = nullptr;
@@ -370,11 +400,11 @@ class core
             // if other's size is smaller than current capacity, we can just copy data
             // destroy old data
             destroy_range(_start, _finish);
+            // no element is alive if the copying throws.
+            _finish = _start;
             // copy data
             if (new_size > 0) [[likely]] {
                 _finish = copy_range(_start, other._start, other._finish);
-            } else {
-                _finish = _start;
             }
             // _edge is not changed
         }
@@ -448,10 +478,17 @@ class core
         // backup old _start, _finish, _edge
         auto* old_start = _start;
         auto* old_finish = _finish;
-        allocate(new_cap);
+        auto* new_start = allocate_buffer<T>(new_cap);
+        try {
+            new (new_start + old_size) T(std::forward<Args>(args)...);
+        } catch (...) {
+            std::free(new_start);
+            throw;
+        }
         // copy old data
-        _finish = _start + old_size;
-        new (_finish++) T(std::forward<Args>(args)...);
+        _start = new_start;
+        _finish = _start + old_size + 1;
+        _edge = _start + new_cap;
         if (old_size > 0) {
             (void)move_range_without_overlap(_start, old_start, old_finish);
         }
@@ -569,15 +606,17 @@ class stdb_vector : public core<T>
     /*
      * constructor with capacity
      */
-    constexpr explicit stdb_vector(std::size_t size) : core<T>(size, size) {
+    constexpr explicit stdb_vector(std::size_t size) : core<T>(0, size) {
         if (size > 0) {
-            construct_range(this->_start, this->_finish);
+            construct_range(this->_start, this->_start + size);
+            this->_finish = this->_start + size;
         }
     }
 
-    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(size, size) {
+    constexpr stdb_vector(std::size_t size, const T& value) : core<T>(0, size) {
         if (size > 0) {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_start + size, value);
+            this->_finish = this->_start + size;
         }
     }
 
@@ -589,6 +628,7 @@ class stdb_vector : public core<T>
         Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
         if (size > 0) [[likely]] {
             this->allocate((size_type)size);  // NOLINT
+            this->_finish = this->_start;
             copy_from_iterator(this->_start, first, last);
             this->_finish = this->_start + size;
         }
@@ -626,13 +666,13 @@ class stdb_vector : public core<T>
         } else {
             // if count is smaller than current capacity, we can just copy data
             // clear old data
-            this->destroy();
+            this->clear();
         }
-        this->_finish = this->_start + count;
         // construct data with value
         if (count > 0) [[likely]] {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_start + count, value);
         }
+        this->_finish = this->_start + count;
     }
 
     template <std::forward_iterator Iterator>
@@ -950,13 +990,15 @@ class stdb_vector : public core<T>
     void push_back(const value_type& value) {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                copy_cref(this->_finish++, std::forward<const value_type&>(value));
+                copy_cref(this->_finish, std::forward<const value_type&>(value));
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<const_reference>(value));
             }
         } else {
             Assert(not this->full(), "push_back should not be called with full vector");
-            copy_cref(this->_finish++, std::forward<const_reference&>(value));
+            copy_cref(this->_finish, std::forward<const_reference&>(value));
+            ++this->_finish;
         }
     }
 
@@ -979,14 +1021,16 @@ class stdb_vector : public core<T>
     auto emplace_back(Args&&... args) -> iterator {
         if constexpr (safety == Safety::Safe) {
             if (!this->full()) [[likely]] {
-                this->construct_at(this->_finish++, std::forward<Args>(args)...);
+                this->construct_at(this->_finish, std::forward<Args>(args)...);
+                ++this->_finish;
             } else {
                 this->realloc_and_emplace_back(compute_next_capacity(), std::forward<Args>(args)...);
             }
             return iterator{this->_finish - 1};
         } else {
             Assert(not this->full(), "emplace_back should not be called with full vector");
-            this->construct_at(this->_finish++, std::forward<Args>(args)...);
+            this->construct_at(this->_finish, std::forward<Args>(args)...);
+            ++this->_finish;
             return iterator{this->_finish - 1};
         }
     }
@@ -1192,9 +1236,8 @@ class stdb_vector : public core<T>
             }
             if constexpr (safety == Safety::Safe) {
                 // construct the new elements
-                auto* old_end = this->_finish;
+                construct_range(this->_finish, this->_start + count);
                 this->_finish = this->_start + count;
-                construct_range(old_end, this->_finish);
             } else {
                 this->_finish = this->_start + count;
             }
@@ -1214,15 +1257,13 @@ class stdb_vector : public core<T>
                 // the value may be an element of this vector, copy it before the old buffer is freed.
                 T copied_value(value);
                 this->realloc_with_old_data(count);
-                auto* old_end = this->_finish;
+                construct_range_with_cref(this->_finish, this->_start + count, copied_value);
                 this->_finish = this->_start + count;
-                construct_range_with_cref(old_end, this->_finish, copied_value);
                 return;
             }
-            // destroy the elements that are not needed anymore
-            auto* old_end = this->_finish;
+            // construct the new elements
+            construct_range_with_cref(this->_finish, this->_start + count, value);
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1317,7 +1358,13 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, copied_value);
+        try {
+            construct_range_with_cref(pos_ptr, pos_ptr + count, copied_value);
+        } catch (...) {
+            // close the gap
+            move_range_forward(pos_ptr, pos_ptr + count, this->_finish + count);
+            throw;
+        }
         this->_finish += count;
         return iterator(pos_ptr);
     }
@@ -1349,7 +1396,13 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        copy_from_iterator(pos_ptr, first, last);
+        try {
+            copy_from_iterator(pos_ptr, first, last);
+        } catch (...) {
+            // close the gap
+            move_range_forward(pos_ptr, pos_ptr + count, this->_finish + count);
+            throw;
+        }
         this->_finish += size_to_insert;
         return iterator(pos_ptr);
     }
-- 
2.43.0


From a40cf341b3b92529ebe208073d2a947b11b4fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 16/59] fix: relocatable does not mean copyable by memcpy in
 stdb_vector

---
 container/stdb_vector.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 97aa81d..5869a59 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -158,7 +158,8 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    // notice: a relocatable type can be moved by memcpy, but can not be copied by memcpy.
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -179,7 +180,7 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -191,7 +192,7 @@ template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_copy_constructible_v<T>);
@@ -207,7 +208,7 @@ template <typename T, typename Iterator>
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator>) {
         if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
             std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
         }
@@ -540,12 +541,10 @@ class core
         // if dst == src, no need to move
         Assert(dst != src, "move_backward should not be called with same dst and src");
 
-        T* dst_end = dst + (_finish - 1 - src);
+        [[maybe_unused]] T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove(dst, src, (size_t)(_finish - src) * sizeof(T));  // NOLINT
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1088,7 +1087,7 @@ class stdb_vector : public core<T>
     }
 
     auto erase(const value_type& value) -> size_type {  // NOLINT
-        if constexpr (IsRelocatable<T>) {
+        if constexpr (std::is_trivially_copyable_v<T>) {
             size_t erased = 0;
             for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
@@ -1159,7 +1158,7 @@ class stdb_vector : public core<T>
     template <class Pred>
         requires std::predicate<Pred, const T&> || std::predicate<Pred, T&> || std::predicate<Pred, T>
     auto erase_if(Pred pred) -> size_type {  // NOLINT
-        if constexpr (IsRelocatable<T>) {
+        if constexpr (std::is_trivially_copyable_v<T>) {
             size_t erased = 0;
             for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
-- 
2.43.0


From 48c9a38a0a2abd02a17ac10bbf4d1f5398490290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 17/59] fix: stdb_vector can grow with elements larger than
 128KB

---
 container/stdb_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 5869a59..92afde1 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1464,7 +1464,8 @@ class stdb_vector : public core<T>
         // the capacity is larger than a page,
         // so we can just double it to use whole pages.
         // NOLINTNEXTLINE
-        if (cap >= 4096 * 32 / sizeof(T)) [[likely]] {
+        // notice: the capacity may be zero if a single element is larger than a page.
+        if (cap > 0 and cap >= 4096 * 32 / sizeof(T)) [[likely]] {
             return cap * 2;
         }
         return core<T>::kFastVectorInitCapacity;
-- 
2.43.0


From 3d2e1c51158f244e80a4bcbdee26fc6abda082ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 18/59] fix: stdb_vector::get_writebuffer keeps room for the
 existing elements

---
 container/stdb_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 92afde1..509a75a 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -972,8 +972,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+            if (buf_size > this->capacity() - this->size()) {
+                this->realloc_with_old_data(compute_new_capacity(buf_size + size()));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From d83bfeef0b1bc63ee678a70636469322ab40ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 19/59] fix: stdb_vector copies by memcpy from contiguous
 ranges of the same type only

---
 container/stdb_vector.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 509a75a..cce0da9 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -200,18 +200,17 @@ template <typename T>
     }
 }
 
-template <typename It>
-concept PointerCompatibleIterator = std::is_pointer_v<It> or std::random_access_iterator<It>;
+// the elements of the iterator's range are in a continuous memory, and have the same type with T.
+template <typename It, typename T>
+concept PointerCompatibleIterator = std::contiguous_iterator<It> and std::is_same_v<std::iter_value_t<It>, T>;
 
 template <typename T, typename Iterator>
 [[gnu::always_inline]] inline void copy_from_iterator(T* __restrict__ dst, Iterator first, Iterator last) {
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator>) {
-        if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
-            std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
-        }
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
+        std::memcpy(dst, std::to_address(first), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         auto* curr = dst;
         try {
@@ -621,7 +620,7 @@ class stdb_vector : public core<T>
 
     template <std::forward_iterator InputIt>
     constexpr stdb_vector(InputIt first, InputIt last) : core<T>() {
-        int64_t size = last - first;
+        int64_t size = std::distance(first, last);
         // if size == 0, then do nothing.and just for caller convenience.
         Assert(size >= 0, "stdb_vector should be constructed with non-negative size");
         Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
@@ -1369,9 +1368,9 @@ class stdb_vector : public core<T>
     }
 
     template <Safety safety = Safety::Safe, class InputIt>
-        requires std::input_iterator<InputIt>
+        requires std::forward_iterator<InputIt>
     constexpr auto insert(const_iterator pos, InputIt first, InputIt last) -> iterator {
-        int64_t count = last - first;
+        int64_t count = std::distance(first, last);
         if (count == 0) [[unlikely]] {
             return iterator((T*)get_ptr_from_iter(pos));  // NOLINT
         }
-- 
2.43.0


From 1fe9bc39a1c9536aea80266a28166309b47962a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 20/59] fix: string::contains(string_view) searches the whole
 view

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index c15d40f..03a4ce7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1607,7 +1607,7 @@ class basic_string
     }
 
     [[nodiscard]] auto contains(std::basic_string_view<value_type> str) const noexcept -> bool {
-        return find(str.data()) != basic_string::npos;
+        return find(str.data(), 0, str.size()) != basic_string::npos;
     }
 
     [[nodiscard]] auto contains(const basic_string& str) const noexcept -> bool {
-- 
2.43.0


From fbc3f28b005471994c6b87677765df622309b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 21/59] fix: std::to_string(string) keeps embedded zero bytes

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 03a4ce7..64df73f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2770,8 +2770,8 @@ struct formatter<stdb::memory::string> : formatter<string_view>
 
 namespace std {
 
-[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) noexcept -> std::string {
-    return {str.data()};
+[[gnu::always_inline, nodiscard]] inline auto to_string(const ::stdb::memory::string& str) -> std::string {
+    return {str.data(), str.size()};
 }
 
 }  // namespace std
-- 
2.43.0


From 883d6417595a1540af488268dc6cf846138d786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 22/59] fix: temporaries inside the string use the allocator of
 the string

---
 string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 64df73f..f796b0e 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1798,7 +1798,7 @@ inline auto basic_string<E, T, A, S>::operator=(value_type c) -> basic_string<E,
     if (empty()) {
         store_.expandNoinit(1);
     } else if (store_.isShared()) {
-        basic_string(1, c).swap(*this);
+        basic_string(1, c, get_allocator()).swap(*this);
         return *this;
     } else {
         store_.shrink(size() - 1);
@@ -2117,7 +2117,7 @@ inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, F
         return false;
     }
     // Aliased replace, copy to new string
-    basic_string temp;
+    basic_string temp(get_allocator());
     temp.reserve(size() - size_t(i2 - i1) + size_t(std::distance(s1, s2)));
     temp.append(begin(), i1).append(s1, s2).append(i2, end());
     swap(temp);
-- 
2.43.0


From 34c88ea884bc50ca279778eb4c3fe5839cd7a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 23/59] fix: refuse string lengths that overflow the size type

---
 string/arena_string.hpp | 8 ++++++--
 string/string.hpp       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 011e18b..81470ed 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -792,7 +792,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;  // NOLINT
@@ -800,7 +802,9 @@ inline auto arena_string_core<Char>::expandNoinit(const size_t delta, bool expGr
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz);
     } else {
         oldSz = ml_.size_;  // NOLINT
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
diff --git a/string/string.hpp b/string/string.hpp
index f796b0e..874bbb5 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -955,7 +955,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
     size_t newSz = 0;
     if (category() == Category::isSmall) {
         oldSz = smallSize();
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (!disableSSO && newSz <= maxSmallSize) {
             setSmallSize(newSz);
             return small_ + oldSz;
@@ -963,7 +965,9 @@ inline auto string_core<Char>::expandNoinit(const size_t delta, bool expGrowth,
         reserveSmall(expGrowth ? std::max(newSz, 2 * maxSmallSize) : newSz, disableSSO);
     } else {
         oldSz = ml_.size_;
-        newSz = oldSz + delta;
+        if (!checked_add(&newSz, oldSz, delta)) {
+            throw(std::length_error(""));
+        }
         if (newSz > capacity()) [[unlikely]] {
             // ensures not shared
             reserve(expGrowth ? std::max(newSz, 1 + capacity() * 3 / 2) : newSz);
-- 
2.43.0


From d5709e12fb464495542906ccdb6d7e5d8d9ef709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 24/59] fix: string keeps its content when an allocation fails

---
 string/string.hpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 874bbb5..4885bc5 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -103,7 +103,7 @@ inline auto checkedMalloc(size_t size) -> void* {
 inline auto checkedRealloc(void* ptr, size_t size) -> void* {
     auto* new_ptr = realloc(ptr, size);
     if (new_ptr == nullptr) {
-        free(ptr);
+        // the origin block is still valid, and still owned by caller.
         throw std::bad_alloc();
     }
     return new_ptr;
@@ -330,7 +330,7 @@ class string_core
 
     explicit string_core(const std::allocator<Char>& /*noused*/) noexcept { reset(); }
 
-    string_core(const string_core& rhs) noexcept {
+    string_core(const string_core& rhs) {
         Assert(&rhs != this, "self copy is not allowed");
         // make sure all copy occur in same thread, or from a unshared string
         // if rhs is a unshared string, set the cpu_ to current thread_id
@@ -443,7 +443,7 @@ class string_core
 
     [[nodiscard]] auto data() noexcept -> Char* { return c_str(); }
 
-    auto mutableData() noexcept -> Char* {
+    auto mutableData() -> Char* {
         switch (category()) {
             case Category::isSmall:
                 return small_;
@@ -708,7 +708,7 @@ class string_core
     }
 
     void copySmall(const string_core& /*rhs*/) noexcept;
-    void copyMedium(const string_core& /*rhs*/) noexcept;
+    void copyMedium(const string_core& /*rhs*/);
     void copyLarge(const string_core& /*rhs*/) noexcept;
 
     void initSmall(const Char* data, size_t size) noexcept;
@@ -744,7 +744,7 @@ inline void string_core<Char>::copySmall(const string_core& rhs) noexcept {
 }
 
 template <class Char>
-void string_core<Char>::copyMedium(const string_core& rhs) noexcept {
+void string_core<Char>::copyMedium(const string_core& rhs) {
     // Medium strings are copied eagerly. Don't forget to allocate
     // one extra Char for the null terminator.
     //    auto const allocSize = goodMallocSize((1 + rhs.ml_.size_) * sizeof(Char));
@@ -1223,25 +1223,25 @@ class basic_string
     operator std::basic_string_view<value_type, traits_type>() const noexcept { return {data(), size()}; }
 
     // C++11 21.4.3 iterators:
-    auto begin() noexcept -> iterator { return store_.mutableData(); }
+    auto begin() -> iterator { return store_.mutableData(); }
 
     [[nodiscard]] auto begin() const noexcept -> const_iterator { return store_.data(); }
 
     [[nodiscard]] auto cbegin() const noexcept -> const_iterator { return begin(); }
 
-    auto end() noexcept -> iterator { return store_.mutableData() + store_.size(); }
+    auto end() -> iterator { return store_.mutableData() + store_.size(); }
 
     [[nodiscard]] auto end() const noexcept -> const_iterator { return store_.data() + store_.size(); }
 
     [[nodiscard]] auto cend() const noexcept -> const_iterator { return end(); }
 
-    auto rbegin() noexcept -> reverse_iterator { return reverse_iterator(end()); }
+    auto rbegin() -> reverse_iterator { return reverse_iterator(end()); }
 
     [[nodiscard]] auto rbegin() const noexcept -> const_reverse_iterator { return const_reverse_iterator(end()); }
 
     [[nodiscard]] auto crbegin() const noexcept -> const_reverse_iterator { return rbegin(); }
 
-    auto rend() noexcept -> reverse_iterator { return reverse_iterator(begin()); }
+    auto rend() -> reverse_iterator { return reverse_iterator(begin()); }
 
     [[nodiscard]] auto rend() const noexcept -> const_reverse_iterator { return const_reverse_iterator(begin()); }
 
@@ -1255,13 +1255,13 @@ class basic_string
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    auto front() noexcept -> value_type& { return *begin(); }
-    auto back() noexcept -> value_type& {
+    auto front() -> value_type& { return *begin(); }
+    auto back() -> value_type& {
         Assert(!empty(), "back() called on empty string");
         // Should be begin()[size() - 1], but that branches twice
         return *(end() - 1);
     }
-    void pop_back() noexcept {
+    void pop_back() {
         Assert(!empty(), "pop_back() called on empty string");
         store_.shrink(1);
     }
@@ -1300,7 +1300,7 @@ class basic_string
     // C++11 21.4.5 element access:
     auto operator[](size_type pos) const noexcept -> const_reference { return *(begin() + pos); }
 
-    auto operator[](size_type pos) noexcept -> reference { return *(begin() + pos); }
+    auto operator[](size_type pos) -> reference { return *(begin() + pos); }
 
     [[nodiscard]] auto at(size_type n) const -> const_reference {
         enforce<std::out_of_range>(n < size(), "");
@@ -1908,10 +1908,11 @@ auto basic_string<E, T, A, S>::assign(const value_type* s, size_type n) -> basic
     } else {
         // If n is larger than size(), s cannot alias this string's
         // storage.
-        resize(0);
         // Do not use exponential growth here: assign() should be tight,
         // to mirror the behavior of the equivalent constructor.
-        string_detail::podCopy(s, s + n, store_.expandNoinit(n));
+        // expand first, to keep the content if it throws.
+        store_.expandNoinit(n - size());
+        string_detail::podCopy(s, s + n, store_.mutableData());
     }
 
     Assert(size() == n, "assign() failed to assign the string size to n");
@@ -2094,8 +2095,9 @@ inline auto basic_string<E, T, A, S>::replaceImplDiscr(iterator i1, iterator i2,
         std::fill(i1, i1 + n2, c);
         erase(i1 + n2, i2);
     } else {
-        std::fill(i1, i2, c);
-        insert(i2, n2 - n1, c);
+        // insert first, to keep the content if it throws.
+        auto const i = insert(i2, n2 - n1, c);
+        std::fill(i - n1, i, c);
     }
     Assert(isSane(), "replaceImplDiscr() failed to make the string is Sane");
     return *this;
@@ -2151,9 +2153,9 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
         std::copy(s1, s2, i1);
         erase(i1 + n2, i2);
     } else {
-        // grows
-        s1 = string_detail::copy_n(s1, n1, i1).first;
-        insert(i2, s1, s2);
+        // grows, insert first, to keep the content if it throws.
+        auto const i = insert(i2, std::next(s1, n1), s2);
+        string_detail::copy_n(s1, n1, i - n1);
     }
     Assert(isSane(), "after replaceImpl, the string was not Sane");
 }
-- 
2.43.0


From 676e08c6f5f82f22aa344f51772455fae55ce756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 25/59] fix: string insert and append from a range of the
 string itself

---
 string/string.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/string/string.hpp b/string/string.hpp
index 4885bc5..cf41aa2 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2052,6 +2052,15 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     auto n = std::distance(s1, s2);
     Assert(n >= 0, "insert input range is invalid");
 
+    // the range may refer to the content of this string, which will be moved.
+    if constexpr (std::is_pointer_v<FwdIterator>) {
+        std::less_equal<const void*> le{};
+        if (n > 0 && le(cbegin(), s1) && !le(cend(), s1)) {
+            const basic_string temp(s1, s2, get_allocator());
+            return insertImpl(cbegin() + pos, temp.cbegin(), temp.cend(), std::forward_iterator_tag{});
+        }
+    }
+
     auto oldSize = size();
     store_.expandNoinit(size_t(n), /* expGrowth = */ true);
     auto b = begin();
-- 
2.43.0


From ce2aae2808714d0003009529e60734d74a6679d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 26/59] fix: operator>> for string resets the width of the
 stream

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index cf41aa2..2e1ff56 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2534,7 +2534,6 @@ inline auto operator>>(
         for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
             if (got == T::eof()) {
                 err |= _istream_type::eofbit;
-                is.width(0);
                 break;
             }
             if (isspace(got)) {
@@ -2543,6 +2542,7 @@ inline auto operator>>(
             str.push_back(got);
             got = is.rdbuf()->snextc();
         }
+        is.width(0);
     }
     if (!extracted) {
         err |= _istream_type::failbit;
-- 
2.43.0


From f311682020b0e5daa160955db42674d6841ad2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 27/59] fix: operator<< for string passes the whole length

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 2e1ff56..da6dea0 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2580,7 +2580,7 @@ inline auto operator<<(
     // MSVC doesn't define __ostream_insert
     os.write(str.data(), static_cast<streamsize>(str.size()));
 #else
-    std::__ostream_insert(os, str.data(), int32_t(str.size()));
+    std::__ostream_insert(os, str.data(), static_cast<std::streamsize>(str.size()));
 #endif
     return os;
 }
-- 
2.43.0


From 8d9cb844c88f7e56966abcc658fe43fb13ebf587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 28/59] fix: string ranges through any iterator into the string
 itself

---
 string/string.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index da6dea0..09718e1 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2053,9 +2053,9 @@ inline auto basic_string<E, T, A, S>::insertImpl(const_iterator i, FwdIterator s
     Assert(n >= 0, "insert input range is invalid");
 
     // the range may refer to the content of this string, which will be moved.
-    if constexpr (std::is_pointer_v<FwdIterator>) {
+    if constexpr (std::is_lvalue_reference_v<decltype(*s1)>) {
         std::less_equal<const void*> le{};
-        if (n > 0 && le(cbegin(), s1) && !le(cend(), s1)) {
+        if (n > 0 && le(cbegin(), std::addressof(*s1)) && !le(cend(), std::addressof(*s1))) {
             const basic_string temp(s1, s2, get_allocator());
             return insertImpl(cbegin() + pos, temp.cbegin(), temp.cend(), std::forward_iterator_tag{});
         }
@@ -2126,8 +2126,8 @@ template <typename E, class T, class A, class S>
 template <class FwdIterator>
 inline auto basic_string<E, T, A, S>::replaceAliased(iterator i1, iterator i2, FwdIterator s1, FwdIterator s2,
                                                      std::true_type /*unused*/) -> bool {
-    std::less_equal<const value_type*> le{};
-    const bool aliased = le(&*begin(), &*s1) && le(&*s1, &*end());
+    std::less_equal<const void*> le{};
+    const bool aliased = s1 != s2 && le(cbegin(), std::addressof(*s1)) && le(std::addressof(*s1), cend());
     if (!aliased) {
         return false;
     }
@@ -2146,8 +2146,7 @@ inline void basic_string<E, T, A, S>::replaceImpl(iterator i1, iterator i2, FwdI
     Invariant checker(*this);
 
     // Handle aliased replace
-    using Sel = std::bool_constant<std::is_same<FwdIterator, iterator>::value ||
-                                   std::is_same<FwdIterator, const_iterator>::value>;
+    using Sel = std::bool_constant<std::is_lvalue_reference_v<decltype(*s1)>>;
     if (replaceAliased(i1, i2, s1, s2, Sel())) {
         return;
     }
-- 
2.43.0


From ce3916e031712bbc47d95530f791a79b1cdf3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 29/59] fix: getline into string respects the state and the
 exception mask of the stream

---
 string/string.hpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 09718e1..37c709f 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1924,30 +1924,26 @@ inline auto basic_string<E, T, A, S>::getlineImpl(istream_type& is, value_type d
   typename basic_string<E, T, A, S>::istream_type& {
     Invariant checker(*this);
 
+    // nothing is read from a failed stream, and the string keeps its content.
+    typename istream_type::sentry sentry(is, true);
+    if (!sentry) {
+        return is;
+    }
     clear();
-    size_t size = 0;
-    while (true) {
-        size_t avail = capacity() - size;
-        // string has 1 byte extra capacity for the null terminator,
-        // and getline null-terminates the read string.
-        is.getline(store_.expandNoinit(avail), avail + 1, delim);
-        size += is.gcount();
-
-        if (is.bad() || is.eof() || !is.fail()) {
-            // Done by either failure, end of file, or normal read.
-            if (!is.bad() && !is.eof()) {
-                --size;  // gcount() also accounts for the delimiter.
-            }
-            resize(size);
+    auto err = std::ios_base::goodbit;
+    for (auto got = is.rdbuf()->sgetc();; got = is.rdbuf()->snextc()) {
+        if (traits_type::eq_int_type(got, traits_type::eof())) {
+            err |= empty() ? (std::ios_base::eofbit | std::ios_base::failbit) : std::ios_base::eofbit;
             break;
         }
-
-        Assert(size == this->size(), "getlineImpl() failed to walk through the total str size");
-        Assert(size == capacity(), "getlineImpl() failed to walk through the total capacity");
-        // Start at minimum allocation 63 + terminator = 64.
-        reserve(std::max<size_t>(63, 3 * size / 2));
-        // Clear the error so we can continue reading.
-        is.clear();
+        if (traits_type::eq(traits_type::to_char_type(got), delim)) {
+            is.rdbuf()->sbumpc();
+            break;
+        }
+        push_back(traits_type::to_char_type(got));
+    }
+    if (err != std::ios_base::goodbit) {
+        is.setstate(err);
     }
     return is;
 }
-- 
2.43.0


From bf60f907a923fcf727d9a4e702f4bf351ea0c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 30/59] hook: STDB_VERIF_NO_WORD_COPY turns the word-wise small
 string copy off for sanitizer builds

---
 string/arena_string.hpp | 2 +-
 string/string.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index 81470ed..b597898 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -616,7 +616,7 @@ inline void arena_string_core<Char>::initSmall(const Char* const data, const siz
 // The word-wise path reads bytes which are outside the range of
 // the string, and makes ASan unhappy, so we disable it when
 // compiling with ASan.
-#ifdef NDEBUG
+#if defined(NDEBUG) && !defined(STDB_VERIF_NO_WORD_COPY)
     if ((reinterpret_cast<size_t>(data) & (sizeof(size_t) - 1)) == 0) {
         const size_t byteSize = size * sizeof(Char);
         constexpr size_t wordWidth = sizeof(size_t);
diff --git a/string/string.hpp b/string/string.hpp
index 37c709f..1ef4b49 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -786,7 +786,7 @@ inline void string_core<Char>::initSmall(const Char* const data, const size_t si
 // The word-wise path reads bytes which are outside the range of
 // the string, and makes ASan unhappy, so we disable it when
 // compiling with ASan.
-#ifdef NDEBUG
+#if defined(NDEBUG) && !defined(STDB_VERIF_NO_WORD_COPY)
     if ((reinterpret_cast<size_t>(data) & (sizeof(size_t) - 1)) == 0) {
         const size_t byteSize = size * sizeof(Char);
         constexpr size_t wordWidth = sizeof(size_t);
-- 
2.43.0


From 1de83591e844752fb22c0257092a9ffcd871f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 31/59] fix: blank option values are not left uninitialised

---
 optparse/optparse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 1437a65..ab86377 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -275,7 +275,8 @@ concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std:
 
 template <OptValue T>
 auto parse_string(const string& str) -> T {
-    T val;
+    // sst >> val does not touch val if str is blank.
+    T val{};
     std::stringstream sst(str.data());
     sst >> val;
     return val;
-- 
2.43.0


From 7cf51999e940d9c06b53f26a19dbf200186a2168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 32/59] fix: OptionParser(prefix, handler) checks the prefix
 and sets the long prefix

---
 optparse/optparse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index ab86377..b745d14 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -98,8 +98,9 @@ OptionParser::OptionParser(char prefix) : _prefix(prefix) {
 
 OptionParser::OptionParser(stdb::optparse::ConflictHandler handler) : _conflict_handler(handler) {}
 
-OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler)
-    : _prefix{prefix}, _conflict_handler{handler} {}
+OptionParser::OptionParser(char prefix, stdb::optparse::ConflictHandler handler) : OptionParser(prefix) {
+    _conflict_handler = handler;
+}
 
 auto OptionParser::extract_option_type(const string& opt) const -> OptionType {
     if (opt.size() > 2 and opt.substr(0, 2) == _long_prefix) {
-- 
2.43.0


From f805cc129b436b20b9b3da686f35e7fe0638d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 33/59] fix: options of a copied or moved parser do not refer
 to the old parser

---
 optparse/optparse.cc  | 8 +++++---
 optparse/optparse.hpp | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b745d14..31977ea 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -72,11 +72,13 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
     return tokens;
 }
 
-auto Option::validate() -> bool {
+auto Option::validate() -> bool { return validate(_parser); }
+
+auto Option::validate(const OptionParser& parser) -> bool {
     // if _dest is empty, we will use the first long option name as the _dest.
     if (_dest.empty()) {
         for (const auto& nnn : _names) {
-            if (_parser.extract_option_type(nnn) == OptionType::LongOpt) {
+            if (parser.extract_option_type(nnn) == OptionType::LongOpt) {
                 _dest = nnn.substr(2);
                 break;
             }
@@ -220,7 +222,7 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
     // once parse args, clear all invalid_args
     _invalid_args.clear();
     for (auto& opt : _options) {
-        if (not opt.validate()) {
+        if (not opt.validate(*this)) {
             throw std::logic_error(fmt::format("incomplete option: {}", opt.names().front()));
         }
     }
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index c5f3533..89bf568 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -185,6 +185,9 @@ class Option
 
     auto validate() -> bool;
 
+    // validate with the parser which owns the option now, the origin parser may be copied or moved, and gone.
+    auto validate(const OptionParser& parser) -> bool;
+
     [[nodiscard]] inline auto names() const -> const vector<string>& { return _names; }
 
     inline auto action(Action act) -> Option& {
-- 
2.43.0


From 07b1db8954ef3801a55b201893c1c421effb5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 34/59] fix: a rejected option leaves nothing behind in the
 parser

---
 optparse/optparse.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 31977ea..94cd1db 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -127,24 +127,34 @@ auto OptionParser::extract_arg_type(const string& arg) const -> OptionType {
 }
 
 auto OptionParser::add_option(stdb::optparse::Option option) -> Option& {
+    // check all names before registering any of them, a rejected option should leave nothing behind.
+    if (option.names().empty()) {
+        throw std::logic_error("option without any name");
+    }
+    std::set<string> checked_names;
+    for (const auto& name : option.names()) {
+        auto type = extract_option_type(name);
+        if (type == OptionType::InvalidOpt) {
+            throw std::logic_error(fmt::format("Invalid option name: {}", name));
+        }
+        const auto& option_map = type == OptionType::ShortOpt ? _short_option_map : _long_option_map;
+        if (_conflict_handler == ConflictHandler::Error and
+            (option_map.contains(name) or not checked_names.insert(name).second)) {
+            throw std::logic_error(fmt::format("{} option {} is already registered",
+                                               type == OptionType::ShortOpt ? "Short" : "Long", name));
+        }
+    }
+
     _options.emplace_back(std::move(option));
     // register all names for the option.
     for (const auto& name : _options.back().names()) {
         auto type = extract_option_type(name);
         if (type == OptionType::ShortOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _short_option_map.contains(name)) {
-                throw std::logic_error(fmt::format("Short option {} is already registered", name));
-            }
             // if the ConflictHandler is Replace, we will replace the old option with the new one.
             _short_option_map[name] = _options.size() - 1;
         } else if (type == OptionType::LongOpt) {
-            if (_conflict_handler == ConflictHandler::Error and _long_option_map.contains(name)) {
-                throw std::logic_error(fmt::format("Long option {} is already registered", name));
-            }
             // if the ConflictHandler is Replace, we will replace the old option with the new one.
             _long_option_map[name] = _options.size() - 1;
-        } else {
-            throw std::logic_error(fmt::format("Invalid option name: {}", name));
         }
     }
 
-- 
2.43.0


From 70f332077b453d620e6af683356f6d548c26b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 35/59] fix: format_help without options

---
 optparse/optparse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 94cd1db..4aa31a5 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -622,7 +622,7 @@ auto OptionParser::format_help() -> string {
       std::max_element(line_and_helps.begin(), line_and_helps.end(),
                        [](auto& lhs, auto& rhs) -> bool { return rhs.first.size() > lhs.first.size(); });
 
-    const auto align_size = max_line->first.size() + 1;
+    const auto align_size = max_line == line_and_helps.end() ? 0 : max_line->first.size() + 1;
     auto content = fmt::format("{} \n options: \n", format_usage());
     for (const auto& [line, help] : line_and_helps) {
         const int space_width = align_size - line.size();
-- 
2.43.0


From 651b4d0d6cf94efee248f312db221760f20f59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 36/59] fix: parse_args never indexes beyond the given
 arguments

---
 optparse/optparse.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 4aa31a5..ae63489 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -216,21 +216,22 @@ auto OptionParser::add_option(string name) -> Option& {
 }
 
 auto OptionParser::parse_args(int argc, const char** argv) -> ValueStore {
-    if (argc == 0) {
+    if (argc <= 0) {
         // do nothing if argc is 0
         throw std::logic_error("argc is 0");
     }
     if (_program.empty()) {
         _program.assign(argv[0]);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     }
-    _argc = argc;
-    _argv = argv;
     return parse_args({&argv[1], &argv[argc]}, argv);  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 }
 
 auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char** argv) -> ValueStore {
     // once parse args, clear all invalid_args
     _invalid_args.clear();
+    // argv is the program name and all args.
+    _argc = static_cast<int>(args.size()) + 1;
+    _argv = argv;
     for (auto& opt : _options) {
         if (not opt.validate(*this)) {
             throw std::logic_error(fmt::format("incomplete option: {}", opt.names().front()));
@@ -647,7 +648,7 @@ auto OptionParser::get_raw_argc() const -> int {
 auto OptionParser::get_raw_argv() const -> std::unique_ptr<const char*[]> {  // NOLINT
     auto new_argv_size = _invalid_args.size() + 1;
     auto rst = std::unique_ptr<const char*[]>(new const char*[new_argv_size]);  // NOLINT
-    rst[0] = _argv[0];  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+    rst[0] = _argv != nullptr ? _argv[0] : _program.c_str();  // NOLINT(cppcoreguidelines-pro-bounds-pointer-arithmetic)
     for (size_t i = 1; i < new_argv_size; ++i) {
         rst[i] = _invalid_args[i - 1];
     }
-- 
2.43.0


From 021594fe7e48bb94f6d796ddc682c120a6c894a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:40 +0000
Subject: [PATCH 37/59] fix: a counted option is set by the user, and its
 default is a number

---
 optparse/optparse.cc  | 38 +++++++++++++++++++++++---------------
 optparse/optparse.hpp |  1 +
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index ae63489..b6ca91c 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -215,6 +215,19 @@ auto OptionParser::add_option(string name) -> Option& {
     return add_option(std::move(option));
 }
 
+template <typename T>
+concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std::is_same_v<T, int64_t> or
+                   std::is_same_v<T, float> or std::is_same_v<T, double>;
+
+template <OptValue T>
+auto parse_string(const string& str) -> T {
+    // sst >> val does not touch val if str is blank.
+    T val{};
+    std::stringstream sst(str.data());
+    sst >> val;
+    return val;
+}
+
 auto OptionParser::parse_args(int argc, const char** argv) -> ValueStore {
     if (argc <= 0) {
         // do nothing if argc is 0
@@ -263,7 +276,11 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
         if (not opt.default_value().empty()) {
             auto dest = opt.dest();
             if (not store.user_set(dest)) {
-                process_opt(opt, store, opt.default_value());
+                if (opt.action() == Action::Count) {
+                    store.set(dest, parse_string<int>(opt.default_value()));
+                } else {
+                    process_opt(opt, store, opt.default_value());
+                }
             }
         }
     }
@@ -275,7 +292,11 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
                 // get the environment variable
                 auto* env_val = std::getenv(opt.env().data());
                 if (env_val != nullptr) {
-                    process_opt(opt, store, env_val);
+                    if (opt.action() == Action::Count) {
+                        store.set(dest, parse_string<int>(env_val));
+                    } else {
+                        process_opt(opt, store, env_val);
+                    }
                 }
             }
         }
@@ -283,19 +304,6 @@ auto OptionParser::parse_args(vector<stdb::optparse::string> args, const char**
 
     return store;
 }
-template <typename T>
-concept OptValue = std::is_same_v<T, bool> or std::is_same_v<T, int32_t> or std::is_same_v<T, int64_t> or
-                   std::is_same_v<T, float> or std::is_same_v<T, double>;
-
-template <OptValue T>
-auto parse_string(const string& str) -> T {
-    // sst >> val does not touch val if str is blank.
-    T val{};
-    std::stringstream sst(str.data());
-    sst >> val;
-    return val;
-}
-
 auto is_mutli_value(const string& val_str) -> bool { return val_str.find(',') != string::npos; }
 
 auto parse_value(string val, Type typ, const Option* option = nullptr) -> std::optional<Value> {
diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index 89bf568..34ebc8b 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -105,6 +105,7 @@ class ValueStore
         } else {
             _values[key] = std::get<int>(vit->second) + 1;
         }
+        _usr_set.insert(key);
     }
 
     template <typename T>
-- 
2.43.0


From 6b0f274f6efa2488f427e5f70b8fe8a27a591be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 38/59] fix: parsing keeps the version of the user, usage
 covers options added later

---
 optparse/optparse.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b6ca91c..612a157 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -198,7 +198,10 @@ auto OptionParser::add_usage_option(string usage_msg) -> void {
 }
 
 auto OptionParser::add_version_option(stdb::optparse::string version_msg) -> void {
-    _version = std::move(version_msg);
+    // every parse adds the version option without message, that should not drop the version of the user.
+    if (not version_msg.empty()) {
+        _version = std::move(version_msg);
+    }
     auto short_version_name = fmt::format("{}v", _prefix);
     auto long_version_name = fmt::format("{}version", _long_prefix);
     if (not _short_option_map.contains(short_version_name) and not _long_option_map.contains(long_version_name)) {
@@ -578,27 +581,28 @@ auto to_upper(string& input) -> void {
 
 auto OptionParser::format_usage() -> string {
     if (_usage.empty()) {
-        // enrich the _usage message.
-        _usage = fmt::format("usage: {}", _program);
+        // enrich the usage message, do not keep it, because more options may be added later.
+        auto usage_msg = fmt::format("usage: {}", _program);
         for (auto& opt : _options) {
             if (opt.type() == Type::Bool) {
                 auto upper_dest = opt.dest();
                 to_upper(upper_dest);
                 auto opt_msg = fmt::format(" [{} {}]", opt.names().front(), upper_dest);
-                _usage += std::string_view{opt_msg};
+                usage_msg += std::string_view{opt_msg};
             } else {
                 auto opt_msg = fmt::format(" [{}]", opt.names().front());
-                _usage += std::string_view{opt_msg};
+                usage_msg += std::string_view{opt_msg};
             }
         }
-        _usage += "\n";
+        usage_msg += "\n";
+        return usage_msg;
     }
     return _usage;
 }
 
 auto OptionParser::format_verison() -> string {
     if (_version.empty()) {
-        _version = fmt::format("{} : {}", _program, "0.0.0");
+        return fmt::format("{} : {}", _program, "0.0.0");
     }
     return _version;
 }
-- 
2.43.0


From f596adbf8079937c495234729d35a6d95c9b6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 39/59] fix: skip blank parts of a comma list

---
 optparse/optparse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index 612a157..b4f47ad 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -62,7 +62,9 @@ inline auto split(std::string_view str, std::string_view delimiter, bool skip_em
         if (pos_current == string::npos) pos_current = str.size();
 
         length = pos_current - pos_last;
-        if (!skip_empty || (length != 0)) tokens.emplace_back(trim_string(str.substr(pos_last, length)));
+        if (auto token = trim_string(str.substr(pos_last, length)); !skip_empty || !token.empty()) {
+            tokens.emplace_back(std::move(token));
+        }
 
         if (pos_current == str.size()) {
             break;
-- 
2.43.0


From f2cb4cc948cb51ed61d3241e10cbefb78f359c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 40/59] fix: ValueStore::get reports a type mismatch instead of
 terminating

---
 optparse/optparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index 34ebc8b..a578fe8 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -109,7 +109,7 @@ class ValueStore
     }
 
     template <typename T>
-    [[nodiscard]] auto get(string key) const noexcept -> std::optional<T> {
+    [[nodiscard]] auto get(string key) const -> std::optional<T> {
         if (auto vit = _values.find(key); vit != _values.end()) {
             return std::get<T>(vit->second);
         }
-- 
2.43.0


From 7f6f023660b6433bc9b2ce0b3e3f0480b2e9fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 41/59] fix: the arena init hook gets the place that creates
 the arena

---
 arena/arena.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 8e509bf..223a215 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -370,17 +370,19 @@ class Arena
 
     /*
      * Arena constructor copy version, copy the Options content to Arena
+     * the loc is the place that creates the arena, the on_arena_init hook will get it.
      */
-    explicit Arena(const Options& ops) : _options(ops), _last_block(nullptr), _cookie(nullptr), _space_allocated(0ULL) {
-        init(BOOST_CURRENT_LOCATION);
+    explicit Arena(const Options& ops, const boost::source_location& loc = BOOST_CURRENT_LOCATION)
+        : _options(ops), _last_block(nullptr), _cookie(nullptr), _space_allocated(0ULL) {
+        init(loc);
     }
 
     /*
      * Arena constructor move version, just support eXpire Options object.
      */
-    explicit Arena(Options&& ops) noexcept
+    explicit Arena(Options&& ops, const boost::source_location& loc = BOOST_CURRENT_LOCATION) noexcept
         : _options(ops), _last_block(nullptr), _cookie(nullptr), _space_allocated(0ULL) {
-        init(BOOST_CURRENT_LOCATION);
+        init(loc);
     }
 
     /*
-- 
2.43.0


From 940ad0f6cfacf5c5b795773a1f2c4c118cd982b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 42/59] fix: stdb_vector moves overlapping ranges without
 restrict pointers

---
 container/stdb_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index cce0da9..058ef4b 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -254,8 +254,7 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -521,19 +520,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0


From 4a5f664d9953a2fec3871d214070bb1aa08b56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 43/59] fix: string += string_view needs no temporary string

---
 string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/string.hpp b/string/string.hpp
index 1ef4b49..7f08ba1 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1315,7 +1315,7 @@ class basic_string
     // C++11 21.4.6 modifiers:
     auto operator+=(const basic_string& str) -> basic_string& { return append(str); }
 
-    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str); }
+    auto operator+=(std::basic_string_view<value_type> str) -> basic_string& { return append(str.data(), str.size()); }
 
     auto operator+=(const value_type* s) -> basic_string& { return append(s); }
 
-- 
2.43.0


From 625c9eadeab91ac64e82df522452315d243149ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 44/59] fix: stdb_vector fills with classes of one byte by copy
 construction

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 058ef4b..5083576 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -136,7 +136,7 @@ template <typename T>
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
     static_assert(std::is_copy_constructible_v<T>);
-    if constexpr (sizeof(T) == sizeof(char)) {
+    if constexpr (sizeof(T) == sizeof(char) and (std::is_integral_v<T> or std::is_enum_v<T>)) {
         std::memset(first, static_cast<int>(value), static_cast<size_t>(last - first) * sizeof(T));
     } else {
         auto* curr = first;
-- 
2.43.0


From 1ad5ca19f6a7eb48a4ea8b36bb18319cfe3c2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 45/59] fix: stdb_vector refuses counts that overflow the size
 type

---
 container/stdb_vector.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 5083576..3a01586 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -622,7 +622,6 @@ class stdb_vector : public core<T>
         int64_t size = std::distance(first, last);
         // if size == 0, then do nothing.and just for caller convenience.
         Assert(size >= 0, "stdb_vector should be constructed with non-negative size");
-        Assert((size_type)size <= this->max_size(), "stdb_vector size should be smaller than max_size");
         if (size > 0) [[likely]] {
             this->allocate((size_type)size);  // NOLINT
             this->_finish = this->_start;
@@ -956,7 +955,7 @@ class stdb_vector : public core<T>
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
             if (to_fill > this->capacity() - this->size()) [[unlikely]] {
-                this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
+                this->realloc_with_old_data(compute_new_capacity(size_with(to_fill)));
             }
             this->_finish += filler(this->_finish);
         } else {
@@ -971,7 +970,7 @@ class stdb_vector : public core<T>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
             if (buf_size > this->capacity() - this->size()) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size + size()));
+                this->realloc_with_old_data(compute_new_capacity(size_with(buf_size)));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
@@ -1341,9 +1340,9 @@ class stdb_vector : public core<T>
         // the value may be an element of this vector, copy it before the elements are moved.
         T copied_value(value);
         if constexpr (safety == Safety::Safe) {
-            if (size + count > this->capacity()) [[unlikely]] {
+            if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + count));
+                reserve(compute_new_capacity(size_with(count)));
                 pos_ptr = this->_start + pos_index;
             }
         }
@@ -1444,6 +1443,13 @@ class stdb_vector : public core<T>
     }
 
    private:
+    // the size with count more elements, if it can not be represented, throw std::length_error.
+    [[nodiscard, gnu::always_inline]] inline auto size_with(size_type count) const -> size_type {
+        if (count > this->max_size() - this->size()) [[unlikely]] {
+            throw std::length_error("stdb_vector: size is larger than max_size");
+        }
+        return this->size() + count;
+    }
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From 55a58dbdf319c3f28e0ed09ba81b96a6bbcb9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 46/59] fix: stdb_vector aligns the storage of over-aligned
 elements

---
 container/stdb_vector.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 3a01586..99aa131 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -35,6 +35,7 @@
 #include <fmt/ranges.h>
 
 #include <concepts>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
@@ -291,7 +292,13 @@ template <typename T>
     if (cap > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
         throw std::length_error("stdb_vector: capacity is larger than max_size");
     }
-    auto* ptr = static_cast<T*>(std::malloc(cap * sizeof(T)));
+    T* ptr = nullptr;
+    if constexpr (alignof(T) > alignof(std::max_align_t)) {
+        // the memory of malloc is not aligned enough. it will be freed by free too.
+        ptr = static_cast<T*>(std::aligned_alloc(alignof(T), cap * sizeof(T)));
+    } else {
+        ptr = static_cast<T*>(std::malloc(cap * sizeof(T)));
+    }
     if (ptr == nullptr) [[unlikely]] {
         throw std::bad_alloc();
     }
-- 
2.43.0


From 396314dcef6e93a7b1bca922115dbe1f311883ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 47/59] fix: new elements that are pointers to members are null

---
 container/stdb_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 99aa131..115294d 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -114,8 +114,10 @@ template <typename T>
 [[gnu::always_inline]] inline void construct_range(T* __restrict__ first, T* __restrict__ last) {
     Assert(first != nullptr and last != nullptr, "first and last can not be nullptr");
     Assert(first < last, "first should always before last");
-    if constexpr (IsZeroInitable<T>) {
+    if constexpr (ZeroInitable<T>::value) {
         // set zero to all bytes.
+        // notice: the compiler does the same for the types of which zero is all bytes zero (not for pointers to
+        // members).
         std::memset(first, 0, static_cast<size_t>(last - first) * sizeof(T));
     } else {
         auto* curr = first;
-- 
2.43.0


From aef663873ab2cb7e3af1b19e498d0fe1ba4e2c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 48/59] fix: size literals accept digit separators

---
 memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memory.hpp b/memory.hpp
index d98f509..bca3d56 100644
--- a/memory.hpp
+++ b/memory.hpp
@@ -37,8 +37,11 @@ namespace stdb::memory::literals {
 constexpr auto is_digit(char chr) noexcept -> bool { return chr <= '9' && chr >= '0'; }
 
 constexpr auto stoi_impl(const char* str, uint64_t value = 0) -> uint64_t {
+    // skip the digit separators, 1'000_KB is the same as 1000_KB.
     // NOLINTNEXTLINE
-    return (*str != '\0') ? is_digit(*str)
+    return (*str == '\'') ? stoi_impl(str + 1, value)
+         // NOLINTNEXTLINE
+         : (*str != '\0') ? is_digit(*str)
                               ? stoi_impl(str + 1, static_cast<uint64_t>(*str - '0') + value * 10)  // NOLINT
                               : throw "compile-time-error: not a digit"  // NOLINT: can not be throw in real world.
                           : value;
-- 
2.43.0


From b91b0e0bdb4630007b805b6a09bd621f6d1b6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 49/59] fix: a cleanup may allocate and register other cleanups
 in its arena

---
 arena/arena.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 223a215..a5bde6a 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -306,14 +306,12 @@ class Arena
         }
 
         void run_cleanups() noexcept {
-            // NOLINTNEXTLINE
-            auto* node = reinterpret_cast<CleanupNode*>(reinterpret_cast<char*>(this) + _limit);
-            // NOLINTNEXTLINE
-            auto* last = reinterpret_cast<CleanupNode*>(reinterpret_cast<char*>(this) + _size);
-
-            // NOLINTNEXTLINE
-            for (; node < last; ++node) {
-                node->cleanup(node->element);
+            // a cleanup may allocate or register other cleanups in the block, so take it off before it runs.
+            while (_limit < _size) {
+                // NOLINTNEXTLINE
+                CleanupNode node = *reinterpret_cast<CleanupNode*>(CleanupPos());
+                _limit += kCleanupNodeSize;
+                node.cleanup(node.element);
             }
         }
 
@@ -655,13 +653,18 @@ class Arena
      * run all cleanups of all blocks, from the last block to the first one, and return the remains size of all blocks.
      * no block can be deallocated before that, because an object in an older block may still use the memory in a newer
      * block, such as a pmr container that had grown.
+     * a cleanup may allocate or register other cleanups in the arena, even in a new block, so go on until none is left.
      */
     auto run_all_cleanups() noexcept -> uint64_t {
         uint64_t remain_size = 0;
         for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
             remain_size += curr->remain();
-            curr->run_cleanups();
         }
+        do {
+            for (Block* curr = _last_block; curr != nullptr; curr = curr->prev()) {
+                curr->run_cleanups();
+            }
+        } while (cleanups() != 0);
         return remain_size;
     }
 
@@ -669,9 +672,9 @@ class Arena
      * free all blocks and return all remains size of all blocks that was freed.
      */
     auto free_all_blocks() noexcept -> uint64_t {
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = run_all_cleanups();
 
         while (curr != nullptr) {
             prev = curr->prev();
@@ -686,9 +689,9 @@ class Arena
      * free all blocks except the first block.
      */
     auto free_blocks_except_head() noexcept -> uint64_t {
+        uint64_t remain_size = run_all_cleanups();
         Block* curr = _last_block;
         Block* prev = nullptr;
-        uint64_t remain_size = run_all_cleanups();
 
         while (curr != nullptr && curr->prev() != nullptr) {
             prev = curr->prev();
-- 
2.43.0


From d207eeb5fd12af7d3eb0b6737839a79e4f9a8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 50/59] fix: vector iterators take a signed subscript

it[-1] on an iterator of stdb_vector converted the subscript to size_t and
overflowed the pointer arithmetic.
---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 115294d..b5b50b9 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -882,7 +882,7 @@ class stdb_vector : public core<T>
 
         [[nodiscard, gnu::always_inline]] constexpr inline auto operator->() const noexcept -> pointer { return _ptr; }
 
-        [[nodiscard, gnu::always_inline]] constexpr inline auto operator[](std::size_t pos) const noexcept
+        [[nodiscard, gnu::always_inline]] constexpr inline auto operator[](difference_type pos) const noexcept
           -> reference {
             return *(_ptr + pos);
         }
-- 
2.43.0


From 319b836a2567850a315931f2c1b749e5976ce911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 51/59] fix: arena strings of wide characters compile

arena_smartRealloc gave the buffer back as a char*, which an allocator of
another character type does not take.
---
 string/arena_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index b597898..e56f4d3 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -59,7 +59,7 @@ inline auto arena_smartRealloc(pmr::polymorphic_allocator<Char>& allocator, void
         std::memcpy(result, ptr, currentSize);
         if (allocator == pmr::polymorphic_allocator<Char>()) {
             // do dealloc while use std::pmr::polymorphism_allocator<Char>();
-            allocator.deallocate(static_cast<char*>(ptr), currentCapacity);
+            allocator.deallocate(static_cast<Char*>(ptr), currentCapacity);
         }
         return result;
     }
-- 
2.43.0


From 18a3c160b0c6ec8229eda1bdcc57325c704d44d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 52/59] fix: the hash of a wide string covers the whole string

XXH takes the length in bytes, so only the first half or quarter of the
characters was hashed.
---
 string/arena_string.hpp | 12 ++++++------
 string/string.hpp       | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/string/arena_string.hpp b/string/arena_string.hpp
index e56f4d3..b8a8cce 100644
--- a/string/arena_string.hpp
+++ b/string/arena_string.hpp
@@ -897,9 +897,9 @@ struct hash<::stdb::memory::arena_basic_string<char16_t>>
 {
     auto operator()(const ::stdb::memory::arena_basic_string<char16_t>& str) const -> size_t {
         if constexpr (std::is_same_v<size_t, uint64_t>) {
-            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(char16_t));
+            return XXH3_64bits_withSeed(str.data(), str.size() * sizeof(char16_t), str.size() * sizeof(char16_t));
         } else {
-            return XXH32(str.data(), str.size(), str.size() * sizeof(char16_t));
+            return XXH32(str.data(), str.size() * sizeof(char16_t), str.size() * sizeof(char16_t));
         }
     }
 };
@@ -908,9 +908,9 @@ struct hash<::stdb::memory::arena_basic_string<char32_t>>
 {
     auto operator()(const ::stdb::memory::arena_basic_string<char32_t>& str) const -> size_t {
         if constexpr (std::is_same_v<size_t, uint64_t>) {
-            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(char32_t));
+            return XXH3_64bits_withSeed(str.data(), str.size() * sizeof(char32_t), str.size() * sizeof(char32_t));
         } else {
-            return XXH32(str.data(), str.size(), str.size() * sizeof(char32_t));
+            return XXH32(str.data(), str.size() * sizeof(char32_t), str.size() * sizeof(char32_t));
         }
     }
 };
@@ -919,9 +919,9 @@ struct hash<::stdb::memory::arena_basic_string<wchar_t>>
 {
     auto operator()(const ::stdb::memory::arena_basic_string<wchar_t>& str) const -> size_t {
         if constexpr (std::is_same_v<size_t, uint64_t>) {
-            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(wchar_t));
+            return XXH3_64bits_withSeed(str.data(), str.size() * sizeof(wchar_t), str.size() * sizeof(wchar_t));
         } else {
-            return XXH32(str.data(), str.size(), str.size() * sizeof(wchar_t));
+            return XXH32(str.data(), str.size() * sizeof(wchar_t), str.size() * sizeof(wchar_t));
         }
     }
 };
diff --git a/string/string.hpp b/string/string.hpp
index 7f08ba1..78e72a7 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -2727,9 +2727,9 @@ struct hash<::stdb::memory::basic_string<char16_t>>
 {
     auto operator()(const ::stdb::memory::basic_string<char16_t>& str) const noexcept -> size_t {
         if constexpr (std::is_same_v<size_t, uint64_t>) {
-            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(char16_t));
+            return XXH3_64bits_withSeed(str.data(), str.size() * sizeof(char16_t), str.size() * sizeof(char16_t));
         } else {
-            return XXH32(str.data(), str.size(), str.size() * sizeof(char16_t));
+            return XXH32(str.data(), str.size() * sizeof(char16_t), str.size() * sizeof(char16_t));
         }
     }
 };
@@ -2738,9 +2738,9 @@ struct hash<::stdb::memory::basic_string<char32_t>>
 {
     auto operator()(const ::stdb::memory::basic_string<char32_t>& str) const noexcept -> size_t {
         if constexpr (std::is_same_v<size_t, uint64_t>) {
-            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(char32_t));
+            return XXH3_64bits_withSeed(str.data(), str.size() * sizeof(char32_t), str.size() * sizeof(char32_t));
         } else {
-            return XXH32(str.data(), str.size(), str.size() * sizeof(char32_t));
+            return XXH32(str.data(), str.size() * sizeof(char32_t), str.size() * sizeof(char32_t));
         }
     }
 };
@@ -2749,9 +2749,9 @@ struct hash<::stdb::memory::basic_string<wchar_t>>
 {
     auto operator()(const ::stdb::memory::basic_string<wchar_t>& str) const noexcept -> size_t {
         if constexpr (std::is_same_v<size_t, uint64_t>) {
-            return XXH3_64bits_withSeed(str.data(), str.size(), str.size() * sizeof(wchar_t));
+            return XXH3_64bits_withSeed(str.data(), str.size() * sizeof(wchar_t), str.size() * sizeof(wchar_t));
         } else {
-            return XXH32(str.data(), str.size(), str.size() * sizeof(wchar_t));
+            return XXH32(str.data(), str.size() * sizeof(wchar_t), str.size() * sizeof(wchar_t));
         }
     }
 };
-- 
2.43.0


From bcb5f347cd7c76bc482522e0ec2d81b3f19469bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 53/59] fix: operator>> of wide strings read outside the table
 of isspace

---
 string/string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index 78e72a7..ae56079 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -17,7 +17,6 @@
 
 #pragma once
 
-#include <ctype.h>     // for isspace
 #include <fmt/core.h>  // for string_view, formatter, formatter<>...
 #include <fmt/format.h>
 #include <stdint.h>  // for uint8_t, int64_t, int32_t
@@ -35,6 +34,7 @@
 #include <istream>           // for basic_istream, basic_ostream, __ost...
 #include <iterator>          // for forward_iterator_tag, input_iterato...
 #include <limits>            // for numeric_limits
+#include <locale>            // for ctype, use_facet
 #include <memory>            // for allocator_traits
 #include <new>               // for bad_alloc, operator new
 #include <optional>
@@ -2526,12 +2526,15 @@ inline auto operator>>(
             n = int64_t(str.max_size());
         }
         str.erase();
+        // ::isspace takes single bytes only, the stream knows its own characters.
+        const auto& ctype =
+          std::use_facet<std::ctype<typename basic_string<E, T, A, S>::value_type>>(is.getloc());
         for (auto got = is.rdbuf()->sgetc(); extracted != static_cast<size_t>(n); ++extracted) {
             if (got == T::eof()) {
                 err |= _istream_type::eofbit;
                 break;
             }
-            if (isspace(got)) {
+            if (ctype.is(std::ctype_base::space, T::to_char_type(got))) {
                 break;
             }
             str.push_back(got);
-- 
2.43.0


From 95a0d4f7204faff26edbd16b53e6586187f69aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 54/59] fix: default_value of floating options kept six digits
 after the point only

---
 optparse/optparse.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.hpp b/optparse/optparse.hpp
index a578fe8..3478b01 100644
--- a/optparse/optparse.hpp
+++ b/optparse/optparse.hpp
@@ -33,6 +33,8 @@
 #pragma once
 #include <fmt/format.h>
 
+#include <array>
+#include <charconv>
 #include <iterator>
 #include <map>
 #include <optional>
@@ -225,7 +227,16 @@ class Option
 
     template <typename T>
     inline auto default_value(T dft) -> Option& {
-        _default = std::to_string(dft);
+        if constexpr (std::is_floating_point_v<T>) {
+            // std::to_string keeps six digits after the point only, and the default would be another value.
+            std::array<char, 512> text{};
+            using Narrow = std::conditional_t<std::is_same_v<T, float>, float, double>;
+            const auto end = std::to_chars(text.data(), text.data() + text.size(), static_cast<Narrow>(dft),
+                                           std::chars_format::fixed);
+            _default.assign(text.data(), end.ptr);
+        } else {
+            _default = std::to_string(dft);
+        }
         return *this;
     }
 
-- 
2.43.0


From d61e5218d845d4d6eb7e3a378b90266133dcb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 55/59] fix: an arena without a logger crashed when its memory
 resource could not be allocated

---
 arena/arena.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index a5bde6a..69e3b23 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -581,7 +581,9 @@ class Arena
             _resource = new memory_resource{this};
         } catch (std::bad_alloc& ex) {
             _resource = nullptr;
-            _options.logger_func("new memory resource failed while Arena::init");
+            if (_options.logger_func != nullptr) {
+                _options.logger_func("new memory resource failed while Arena::init");
+            }
         }
         if (_options.on_arena_init != nullptr) [[likely]] {
             _cookie = _options.on_arena_init(this, loc);
-- 
2.43.0


From 99eab119a4069eed72d14a19842c7d051111d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 56/59] fix: a throwing comparison or predicate left destroyed
 elements in the vector

---
 container/stdb_vector.hpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index b5b50b9..b965d12 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -569,6 +569,21 @@ class core
         }
     }
 
+    // the elements of [dst, src) are destroyed, move the others over them finally, also if a comparison or a predicate
+    // has thrown.
+    struct gap_closer
+    {
+        core& owner;
+        T*& dst;
+        T*& src;
+        ~gap_closer() {
+            if (dst != src) {
+                move_range_forward(dst, src, owner._finish);
+                owner._finish -= (src - dst);
+            }
+        }
+    };
+
     // construct the element by a temporary value, the value will not be used any more.
     [[gnu::always_inline]] void construct_from_temporary(T* __restrict__ ptr, T& value) {
         if constexpr (std::is_move_constructible_v<T>) {
@@ -1114,7 +1129,9 @@ class stdb_vector : public core<T>
         } else if constexpr (std::is_move_constructible_v<T>) {
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            const typename core<T>::gap_closer closer{*this, dst, src};
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1130,13 +1147,14 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         } else {
             static_assert(std::is_copy_constructible_v<T>, "Cannot erase from a vector of non-copyable types");
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            const typename core<T>::gap_closer closer{*this, dst, src};
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (*src != value) {
                     if (dst != src) {
@@ -1153,7 +1171,6 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         }
     }
@@ -1185,7 +1202,9 @@ class stdb_vector : public core<T>
         } else if constexpr (std::is_move_constructible_v<T>) {
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            const typename core<T>::gap_closer closer{*this, dst, src};
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1201,13 +1220,14 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         } else {
             static_assert(std::is_copy_constructible_v<T>, "Cannot erase from a vector of non-copyable types");
             size_t erased = 0;
             T* dst = this->_start;
-            for (T* src = this->_start; src != this->_finish;) {
+            T* src = this->_start;
+            const typename core<T>::gap_closer closer{*this, dst, src};
+            while (src != this->_finish) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
                 if (!pred(*src)) {
                     if (dst != src) {
@@ -1223,7 +1243,6 @@ class stdb_vector : public core<T>
                 }
                 ++src;
             }
-            this->_finish -= erased;
             return erased;
         }
     }
-- 
2.43.0


From 16a5eeebe44b8ce82b4869c962ce2090760a5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 57/59] fix: an element was leaked if moving the iterator of an
 inserted range threw

---
 container/stdb_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index b965d12..bfe3cea 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -217,7 +217,8 @@ template <typename T, typename Iterator>
     } else {
         auto* curr = dst;
         try {
-            for (; first != last; ++first, ++curr) {
+            // the last constructed element is counted first, moving the iterator may throw too.
+            for (; first != last; ++curr, (void)++first) {
                 new (curr) T(*first);
             }
         } catch (...) {
-- 
2.43.0


From 6f2ffc9dfc17ebad830d727122b476843f844cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:56 +0000
Subject: [PATCH 58/59] fix: find compares characters with the string's
 character traits

---
 string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/string/string.hpp b/string/string.hpp
index ae56079..fe06970 100644
--- a/string/string.hpp
+++ b/string/string.hpp
@@ -1978,7 +1978,7 @@ inline auto basic_string<E, T, A, S>::find(const value_type* needle, const size_
 
     while (i < iEnd) {
         // Boyer-Moore: match the last element in the needle
-        while (i[nsize_1] != lastNeedle) {
+        while (!traits_type::eq(i[nsize_1], lastNeedle)) {
             if (++i == iEnd) {
                 // not found
                 return npos;
@@ -1988,12 +1988,12 @@ inline auto basic_string<E, T, A, S>::find(const value_type* needle, const size_
         // Continue in pedestrian mode
         for (size_t j = 0;;) {
             Assert(j < nsize, "find index can not overflow the size");
-            if (i[j] != needle[j]) {
+            if (!traits_type::eq(i[j], needle[j])) {
                 // Not found, we can skip
                 // Compute the skip value lazily
                 if (skip == 0) {
                     skip = 1;
-                    while (skip <= nsize_1 && needle[nsize_1 - skip] != lastNeedle) {
+                    while (skip <= nsize_1 && !traits_type::eq(needle[nsize_1 - skip], lastNeedle)) {
                         ++skip;
                     }
                 }
-- 
2.43.0


From f480b8e99ad8cdbeadfc6b821e9ee9bc3645ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 59/59] fix: an option named by the bare long prefix is found
 again

---
 optparse/optparse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optparse/optparse.cc b/optparse/optparse.cc
index b4f47ad..8731119 100644
--- a/optparse/optparse.cc
+++ b/optparse/optparse.cc
@@ -443,7 +443,8 @@ auto OptionParser::has_value_to_process(string current_arg, const ArgList& args)
 }
 
 auto OptionParser::find_opt(string opt_name) -> Option* {
-    if (opt_name.starts_with(_long_prefix)) {
+    // the bare long prefix is registered as a short name, see extract_option_type.
+    if (opt_name.size() > _long_prefix.size() and opt_name.starts_with(_long_prefix)) {
         if (auto opt_it = _long_option_map.find(opt_name); opt_it != _long_option_map.end()) [[likely]] {
             return &_options[opt_it->second];
         }
-- 
2.43.0

