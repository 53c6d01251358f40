From 12c6342fb017bd539cbbaa19404978111742b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:10 +0000
Subject: [PATCH 01/27] fix: account for pending reservations when creating or
 recycling handles

---
 include/co_ecs/detail/handle.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..194be5a 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,8 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        // handles reserved since the last flush must not be handed out again
+        flush();
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -99,6 +101,8 @@ public:
         if (!alive(handle)) {
             return;
         }
+        // account for the handles reserved since the last flush before changing the list of free ids
+        flush();
         _generations[handle.id()]++;
         _free_ids.push_back(handle.id());
         _free_cursor.fetch_add(1, std::memory_order::relaxed);
-- 
2.43.0


From 33aed3ed54b5fb5913a6ad1f4c4883941200ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 02/27] fix: align component blocks inside chunks and keep them
 within the chunk buffer

---
 include/co_ecs/archetype.hpp   | 43 +++++++++++++++-------------------
 include/co_ecs/chunk.hpp       | 19 +++++++++------
 include/co_ecs/detail/bits.hpp |  8 +++++++
 3 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..660595b 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -185,14 +185,11 @@ private:
     }
 
     auto add_block(std::size_t offset, const component_meta& meta) -> std::size_t {
-        const std::size_t size_in_bytes = _max_size * meta.type->size;
-        const std::size_t align = meta.type->align;
+        offset = detail::align_up(offset, meta.type->align);
 
         _blocks.emplace(meta.id, offset, meta);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
-
-        return offset;
+        return offset + _max_size * meta.type->size;
     }
 
     // Calculates the maximum size of individual components this chunk buffer can hold
@@ -206,7 +203,7 @@ private:
         //     ...
         // };
         //
-        auto aligned_size = aligned_components_size(components_meta);
+        auto aligned_size = blocks_size(components_meta, 1);
 
         // handle subtraction overflow - chunk size is insufficient to hold at least one such entity
         if (aligned_size > chunk::chunk_bytes) [[unlikely]] {
@@ -220,7 +217,13 @@ private:
         auto remaining_elements_count = remaining_space / packed_components_size(components_meta);
 
         // The maximum amount of entities we can hold is grater by 1 for which we calculated aligned_size
-        return remaining_elements_count + 1;
+        auto max_size = remaining_elements_count + 1;
+
+        // Padding between blocks depends on the amount of elements in a block, so it may not fit
+        while (blocks_size(components_meta, max_size) > chunk::chunk_bytes) {
+            max_size--;
+        }
+        return max_size;
     }
 
     // Calculate size of packed structure of components
@@ -231,23 +234,15 @@ private:
             [](const auto& res, const auto& meta) { return res + meta.type->size; });
     }
 
-    // Calculate size of properly aligned structure of components
-    static auto aligned_components_size(auto&& components_meta) noexcept -> std::size_t {
-        auto begin = chunk::alloc_alignment;
-        auto end = begin;
-
-        // Add single component element size accounting for its alignment
-        auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
-            end += meta.type->size;
-        };
-
-        add_elements(component_meta::of<entity>());
-        for (const auto& meta : components_meta) {
-            add_elements(meta);
-        }
-
-        return end - begin;
+    // Calculate size of properly aligned blocks holding count elements each
+    static auto blocks_size(auto&& components_meta, std::size_t count) noexcept -> std::size_t {
+        const auto* entity_type = component_meta::of<entity>().type;
+        return std::accumulate(components_meta.begin(),
+            components_meta.end(),
+            entity_type->size * count,
+            [count](const auto& res, const auto& meta) {
+                return detail::align_up(res, meta.type->align) + meta.type->size * count;
+            });
     }
 
     template<component_reference ComponentRef>
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..c2f86c6 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -42,17 +42,13 @@ public:
     /// @brief Block allocation alignment
     static constexpr std::size_t alloc_alignment = alignof(entity);
 
-    /// @brief Chunk buffer type
-    struct alignas(alloc_alignment) chunk_buffer {
-        std::byte data[chunk_bytes];
-    };
-
     /// @brief Construct a new chunk object
     ///
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size),
+        _buffer(static_cast<std::byte*>(::operator new(chunk_bytes, buffer_alignment(blocks)))) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +90,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -255,6 +251,15 @@ public:
 private:
     friend class base_registry;
 
+    // Strictest alignment among the blocks, the buffer has to be aligned accordingly
+    static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        auto alignment = alloc_alignment;
+        for (const auto& [id, block] : blocks) {
+            alignment = std::max(alignment, block.meta.type->align);
+        }
+        return std::align_val_t{ alignment };
+    }
+
     constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
diff --git a/include/co_ecs/detail/bits.hpp b/include/co_ecs/detail/bits.hpp
index a7f4651..8553e6e 100644
--- a/include/co_ecs/detail/bits.hpp
+++ b/include/co_ecs/detail/bits.hpp
@@ -11,6 +11,14 @@ constexpr auto mod_2n(auto value, auto divisor) noexcept -> decltype(auto) {
     return value & (divisor - 1U);
 }
 
+/// @brief Round value up to a multiple of alignment
+/// @param value Value to round up
+/// @param alignment Alignment, should be a power of two
+/// @return The smallest multiple of alignment that is not less than value
+constexpr auto align_up(auto value, auto alignment) noexcept -> decltype(value) {
+    return (value + alignment - 1U) & ~(alignment - 1U);
+}
+
 /// @brief Check if value is a power of 2
 /// @param value Power of two value
 /// @return True if power of two, false otherwise
-- 
2.43.0


From ac1ec32e1d356eea61df25b1a5de1713821b3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 03/27] fix: fill the gap left in a non-last chunk when its
 last entity is erased

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index c2f86c6..1d077b9 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -122,7 +122,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == std::addressof(other) && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From 375f9865a9d60c3049b79ee83b48fb3bcc79558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 04/27] fix: destroy the slot vacated by hash_table::erase

---
 include/co_ecs/detail/hash_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..6456cb9 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -731,6 +731,9 @@ private:
             info = n_info;
         }
 
+        // The last slot of the shifted sequence is vacated now
+        allocator_traits::destroy(_buckets.allocator(), ptr);
+
         const size_type threshold = approx_40_percent(bucket_size);
         if (_size > default_bucket_count && _size < threshold) {
             const auto new_size = bucket_size >> size_type{ 1 };
-- 
2.43.0


From 5890920c7f7bc8dbf03841e813145a8ccf9dbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 05/27] fix: give every bucket its info when a hash_table is
 built from a range

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 6456cb9..0951fd0 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,7 +326,7 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
+        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
             emplace_or_assign_impl(std::move(*first));
-- 
2.43.0


From d86eb420cb408d3b08f7360c43d8e0349ff4ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 06/27] fix: keep the number of buckets a power of two in
 hash_table::reserve

---
 include/co_ecs/detail/hash_table.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 0951fd0..5e1b79d 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+#include <bit>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
@@ -612,6 +614,9 @@ public:
             return;
         }
 
+        // The number of buckets has to be a power of two
+        new_size = std::max(std::bit_ceil(new_size), size_type{ 2 });
+
         hash_table h_table(new_size, _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
-- 
2.43.0


From 3c0111ef1744a5cdfa8113c81acf2b364f52cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 07/27] fix: do not wrap the size of a sparse_table at the
 range of its key type

---
 include/co_ecs/detail/sparse_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..cdf86a9 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -215,7 +215,7 @@ public:
         } else {
             _dense.emplace_back(key);
         }
-        _sparse[key] = _size;
+        _sparse[key] = static_cast<key_type>(_size);
         ++_size;
         return std::pair(_dense.begin() + _sparse[key], true);
     }
@@ -306,8 +306,8 @@ private:
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-    key_type _size{};
-    size_t _sparse_capacity{};
+    size_type _size{};
+    size_type _sparse_capacity{};
 };
 
 } // namespace co_ecs::detail
-- 
2.43.0


From 3e49466c90366fc97de1623f3c0793956707f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 08/27] fix: leave a moved-from sparse_table empty

---
 include/co_ecs/detail/sparse_table.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index cdf86a9..189e81f 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -2,6 +2,7 @@
 
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace co_ecs::detail {
@@ -38,7 +39,12 @@ public:
     /// @brief Move constructor
     ///
     /// @param rhs Sparse container to move from
-    constexpr sparse_table(sparse_table&& rhs) noexcept = default;
+    constexpr sparse_table(sparse_table&& rhs) noexcept :
+        _dense(std::move(rhs._dense)), _sparse(std::move(rhs._sparse)), _size(std::exchange(rhs._size, 0)),
+        _sparse_capacity(std::exchange(rhs._sparse_capacity, 0)) {
+        rhs._dense.clear();
+        rhs._sparse.clear();
+    }
 
     /// @brief Copy constructor
     ///
@@ -49,7 +55,17 @@ public:
     ///
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
-    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& = default;
+    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
+        if (this != &rhs) {
+            _dense = std::move(rhs._dense);
+            _sparse = std::move(rhs._sparse);
+            _size = std::exchange(rhs._size, 0);
+            _sparse_capacity = std::exchange(rhs._sparse_capacity, 0);
+            rhs._dense.clear();
+            rhs._sparse.clear();
+        }
+        return *this;
+    }
 
     /// @brief Copy assignment
     ///
-- 
2.43.0


From 1462271c566926aeb5628c7893594754564c3132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 09/27] fix: do not store the initial empty blocks of a
 dynamic_bitset

---
 include/co_ecs/detail/dynamic_bitset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/dynamic_bitset.hpp b/include/co_ecs/detail/dynamic_bitset.hpp
index 4bcacdd..0cdc611 100644
--- a/include/co_ecs/detail/dynamic_bitset.hpp
+++ b/include/co_ecs/detail/dynamic_bitset.hpp
@@ -24,9 +24,11 @@ public:
 
     /// @brief Construct a new dynamic bitset object
     ///
-    /// @param initial_blocks Initial size of the bitset
+    /// @param initial_blocks Number of blocks to reserve storage for
     explicit dynamic_bitset(std::size_t initial_blocks = 1) {
-        _blocks.resize(initial_blocks);
+        _blocks.reserve(initial_blocks);
+        // Trailing empty blocks are never stored, except for the first one
+        _blocks.resize(1);
     }
 
     /// @brief Check if bit at given position is set
-- 
2.43.0


From 6f935928ca4ced50aceefa108d8818fe0cf70497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 10/27] fix: refuse stack allocations that leave no space for
 the header

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..fbd6d13 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -52,6 +52,11 @@ public:
         assert(is_power_of_2(alignment) && "Alignment must be a power of two");
         assert((alignment <= std::numeric_limits<padding_t>::max()) && "Alignment is out of range");
 
+        // There should be enough space for at least an allocation header
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
+
         // Get the top of the stack
         char* top = _start + _offset;
         // Get the pointer to the top + 1 allocation header
-- 
2.43.0


From 48e4ca226ddc13cb53a3d1301720c53393b88815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 11/27] fix: transfer the offset when a stack_allocator is
 moved

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index fbd6d13..22b97b4 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
-- 
2.43.0


From 318f3512df8d668c0cc554bddd47826961a5921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 12/27] fix: accept releasing an empty block at the end of a
 stack_allocator

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index 22b97b4..8e0bc62 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -85,7 +85,7 @@ public:
     /// @brief Deallocate by pointer (should be top of the stack)
     /// @param ptr Pointer to deallocate
     void deallocate(void* ptr) noexcept {
-        assert((ptr < _start + _size) && (ptr >= _start) && "Outside allocation range");
+        assert((ptr <= _start + _size) && (ptr >= _start) && "Outside allocation range");
 
         // Fetch header
         auto* hdr = reinterpret_cast<alloc_header*>(static_cast<char*>(ptr) - sizeof(alloc_header));
-- 
2.43.0


From acd06bb6f1491e9bdf45559600e51d825eff46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 13/27] fix: do not leave an empty entry in archetypes when an
 archetype cannot be created

---
 include/co_ecs/archetype.hpp | 40 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 660595b..ff423f7 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -299,13 +299,10 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
-        if (!archetype) {
-            archetype = create_archetype(components);
-        }
+        auto* archetype = find_or_create(components.ids(), [&] { return create_archetype(components); });
         assert((archetype->components().ids() == components.ids())
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -317,13 +314,11 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
-        }
+        auto* archetype = find_or_create(
+            _search_component_set, [] { return create_archetype(component_meta_set::create<Components...>()); });
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -336,13 +331,11 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
-        }
+        auto* archetype = find_or_create(
+            _search_component_set, [&] { return create_archetype_added<Components...>(anchor_archetype); });
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -355,13 +348,11 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
-        }
+        auto* archetype = find_or_create(
+            _search_component_set, [&] { return create_archetype_removed<Components...>(anchor_archetype); });
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -400,6 +391,15 @@ public:
     }
 
 private:
+    // Creating an archetype may fail, the map must not be left with an empty entry in such case
+    auto find_or_create(const component_set& components, auto&& create) -> archetype* {
+        if (auto iter = _archetypes.find(components); iter != _archetypes.end()) {
+            return iter->second.get();
+        }
+        auto created = create();
+        return _archetypes.emplace(components, std::move(created)).first->second.get();
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
-- 
2.43.0


From 3963d1cdd439531b08be124a9b69815b8a314f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 14/27] fix: do not allocate an entity when its components
 cannot be stored

---
 include/co_ecs/base_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..9942af9 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -142,8 +142,8 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
+        auto entity = allocate();
         auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
         set_location(entity.id(), location);
         return entity;
-- 
2.43.0


From f6700a2aad654f081b21e2d715aa8a543725d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 15/27] fix: do not allocate an entity when the one to clone,
 copy or move does not exist

---
 include/co_ecs/base_registry.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 9942af9..9fc3fe0 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -208,10 +208,12 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
+        ensure_alive(ent);
         return move(ent, dest, dest.allocate());
     }
 
     entity copy(entity ent, base_registry& dest) const {
+        ensure_alive(ent);
         return copy(ent, dest, dest.allocate());
     }
 
@@ -257,6 +259,7 @@ protected:
     }
 
     entity clone(entity ent) {
+        ensure_alive(ent);
         return copy(ent, *this, allocate());
     }
 
-- 
2.43.0


From b2096751c661f155e3b09d7449deb002ec170f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 16/27] fix: let entity references report entity_not_found
 instead of terminating

---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..e0f3042 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -368,7 +368,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -392,7 +392,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From be5ede44512d33305fe27b3c3d4dae6a22f61b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 17/27] fix: conflicting systems could share a batch depending
 on their order

allows() missed a registry writer joining a batch of systems without registry
access, and a registry reader next to component writers; a batch starts with
any system so that none is left out forever.
---
 include/co_ecs/system/access.hpp | 9 ++++++++-
 include/co_ecs/system/stage.hpp  | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index f3dc4b5..f1834a1 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -42,7 +42,8 @@ public:
     /// @param other The other access pattern to check against.
     /// @return True if this access pattern allows the other, false otherwise.
     [[nodiscard]] auto allows(const access_pattern_t& other) const noexcept -> bool {
-        if ((writes_all() && other.reads_all()) || (reads_all() && !other.reads_all())) {
+        // A registry writer may touch anything, also what the other pattern does not name
+        if (writes_all() || other.writes_all()) {
             return false;
         }
 
@@ -52,6 +53,12 @@ public:
             }
         }
 
+        for (auto [component_id, access] : other._component_access) {
+            if (access == access_type::write && reads(component_id)) {
+                return false;
+            }
+        }
+
         return true;
     }
 
diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..eed2b65 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -82,7 +82,7 @@ public:
                 auto executor = _systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
-                if (!access_pattern.allows(system_access_pattern)) {
+                if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
                     ++i;
                     continue;
                 }
-- 
2.43.0


From fcedc6d95aba7b01b0bdc33e582fe205d353f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 18/27] fix: main thread systems ran once per batch and along
 with conflicting systems

A stage without other systems did not run them at all.
---
 include/co_ecs/system/stage.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index eed2b65..df9658f 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -150,8 +150,14 @@ public:
 
     /// @brief Runs all systems in the stage.
     void run() {
+        auto main_thread_executor = _main_thread_executors.begin();
         for (auto& executors : _executor_set) {
-            execute_batch(executors);
+            execute_batch(executors, main_thread_executor);
+        }
+
+        // execute main thread systems that could not run along with any batch
+        for (; main_thread_executor != _main_thread_executors.end(); ++main_thread_executor) {
+            (*main_thread_executor)->run();
         }
     }
 
@@ -160,10 +166,16 @@ private:
     ///
     /// @tparam WorkBatch Type of the work batch.
     /// @param work_batch The batch of work to be executed.
+    /// @param main_thread_executor The next main thread system to be executed.
     template<typename WorkBatch>
-    void execute_batch(WorkBatch&& work_batch) {
+    void execute_batch(WorkBatch&& work_batch, vector_of_executors_t::iterator& main_thread_executor) {
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
+        access_pattern_t access_pattern;
+
+        for (auto& work_item : work_batch) {
+            access_pattern &= work_item->access_pattern();
+        }
 
         for (auto& work_item : work_batch) {
             auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
@@ -172,9 +184,11 @@ private:
             }
         }
 
-        // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
-            executor->run();
+        // in the meantime execute main thread systems that do not conflict with the batch
+        for (; main_thread_executor != _main_thread_executors.end()
+               && access_pattern.allows((*main_thread_executor)->access_pattern());
+             ++main_thread_executor) {
+            (*main_thread_executor)->run();
         }
 
         if (parent) {
-- 
2.43.0


From 2853aed612a6304a15ac4f480495b0df11307f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 19/27] fix: creating a second executor from a schedule left
 out all its systems

---
 include/co_ecs/system/stage.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index df9658f..f5816a4 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -74,13 +74,17 @@ public:
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
         std::vector<vector_of_executors_t> executors{};
 
-        while (!_systems.empty()) {
+        vector_of_executors_t pending;
+        for (auto& system : _systems) {
+            pending.emplace_back(system->create_executor(registry, user_context));
+        }
+
+        while (!pending.empty()) {
             access_pattern_t access_pattern;
             vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
-                auto system_access_pattern = executor->access_pattern();
+            for (size_t i = 0; i < pending.size();) {
+                auto system_access_pattern = pending[i]->access_pattern();
 
                 if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
                     ++i;
@@ -88,8 +92,8 @@ public:
                 }
 
                 access_pattern &= system_access_pattern;
-                executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                executor_set.emplace_back(std::move(pending[i]));
+                pending.erase(pending.begin() + i);
             }
         }
 
-- 
2.43.0


From a6e7b19641dac9e9d4f01878b55aa75ba4c1fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 20/27] fix: a task could complete its parent twice, and
 without publishing its writes

The decrement and the check for completion were separate steps, so that two
threads could both observe completion; neither ordered the writes of a task
before the return of a wait for it.
---
 include/co_ecs/thread_pool/task.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..50cba24 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,11 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
+        // The task may be gone as soon as it is completed
+        auto* parent = _parent;
 
-        if (is_completed() && _parent) {
-            _parent->finish();
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From 78a00db499cb173523df94d8ad8c06e6359e450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 21/27] fix: a thief could read a grown queue before its
 contents were published

---
 include/co_ecs/detail/work_stealing_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..1fd98d0 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,7 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
-- 
2.43.0


From 5c1c21f5a864622ddc3579e140b0b005da6a0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 22/27] fix: commands of ended threads were lost and their
 buffers used after free

---
 include/co_ecs/command.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..ee9fd5e 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -4,6 +4,7 @@
 #include <co_ecs/registry.hpp>
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <variant>
 
@@ -18,8 +19,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local std::shared_ptr<command_buffer> buf = create();
+        return *buf;
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,22 +29,31 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // Let go of the buffers whose threads have ended
+        std::erase_if(_command_buffers, [](const auto& command_buffer) {
+            return command_buffer.use_count() == 1 && command_buffer->_commands.empty();
+        });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
-        _command_buffers; ///< Vector containing all thread-local command buffers.
+    static inline std::vector<std::shared_ptr<command_buffer>>
+        _command_buffers; ///< Vector containing all thread-local command buffers, they may outlive their threads.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
+    command_buffer() = default;
+
+    static auto create() -> std::shared_ptr<command_buffer> {
+        std::shared_ptr<command_buffer> buf{ new command_buffer };
         std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
+        _command_buffers.push_back(buf);
+        return buf;
     }
 
     template<typename T>
-- 
2.43.0


From 6ced8a572413a27565de9b4db665112e27960fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 23/27] fix: components staged by a set command were never
 released

---
 include/co_ecs/command.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index ee9fd5e..a7ea1a1 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -178,8 +178,10 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                auto staged = staging_registry.get_entity(staging_entity);
+                auto component = std::move(staged.template get<C>());
+                staged.destroy();
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(component));
             });
         return *this;
     }
-- 
2.43.0


From e24d2f29243723a319ad4d3e5cb0459c9b676fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 24/27] fix: a flush applied commands recorded for other
 registries

---
 include/co_ecs/command.hpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index a7ea1a1..d023e51 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -57,8 +57,8 @@ private:
     }
 
     template<typename T>
-    void push(auto&&... args) {
-        _commands.emplace_back(T{ std::forward<decltype(args)>(args)... });
+    void push(registry& registry, auto&&... args) {
+        _commands.emplace_back(&registry, T{ std::forward<decltype(args)>(args)... });
     }
 
     auto staging() noexcept -> registry& {
@@ -66,9 +66,14 @@ private:
     }
 
     void play_commands(registry& registry) {
-        while (!_commands.empty()) {
-            auto command = std::move(_commands.front());
-            _commands.pop_front();
+        for (std::size_t i = 0; i < _commands.size();) {
+            // Leave the commands recorded for other registries
+            if (_commands[i].first != &registry) {
+                ++i;
+                continue;
+            }
+            auto command = std::move(_commands[i].second);
+            _commands.erase(_commands.begin() + i);
 
             std::visit([&](auto&& cmd) { cmd.execute(_staging, registry); }, command);
         }
@@ -157,8 +162,9 @@ private:
         command_destroy>;
 
 private:
-    registry _staging;             ///< Staging registry for intermediate command processing.
-    std::deque<command> _commands; ///< Deque containing the commands to be executed.
+    registry _staging; ///< Staging registry for intermediate command processing.
+    std::deque<std::pair<registry*, command>>
+        _commands; ///< Deque containing the commands to be executed and the registries they are meant for.
 };
 
 
@@ -175,7 +181,8 @@ public:
     template<component C, typename... Args>
     auto set(Args&&... args) -> command_entity_ref& {
         auto staging_entity = _commands.staging().template create<C>(C{ std::forward<Args>(args)... });
-        _commands.push<command_buffer::command_set>(staging_entity,
+        _commands.push<command_buffer::command_set>(_registry,
+            staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
                 auto staged = staging_registry.get_entity(staging_entity);
@@ -191,21 +198,22 @@ public:
     /// @return A reference to the command_entity_ref for chaining.
     template<component C>
     auto remove() -> command_entity_ref& {
-        _commands.push<command_buffer::command_remove>(
-            _entity, [](auto& registry, auto entity) { registry.get_entity(entity).template remove<C>(); });
+        _commands.push<command_buffer::command_remove>(_registry, _entity, [](auto& registry, auto entity) {
+            registry.get_entity(entity).template remove<C>();
+        });
         return *this;
     }
 
     /// @brief Destroys the entity.
     void destroy() {
-        _commands.push<command_buffer::command_destroy>(_entity);
+        _commands.push<command_buffer::command_destroy>(_registry, _entity);
     }
 
     /// @brief Clones the entity.
     /// @return A reference to the cloned command_entity_ref.
     auto clone() const -> command_entity_ref {
         auto entity = _registry.reserve();
-        _commands.push<command_buffer::command_clone>(_entity, entity);
+        _commands.push<command_buffer::command_clone>(_registry, _entity, entity);
         return command_entity_ref{ _commands, _registry, entity.get_entity() };
     }
 
@@ -266,14 +274,14 @@ public:
     auto create(Args&&... args) -> command_entity_ref {
         auto entity = _reg.reserve();
         auto staging_entity = _cmds.staging().template create<Args...>(std::forward<Args>(args)...);
-        _cmds.push<command_buffer::command_create>(staging_entity, entity);
+        _cmds.push<command_buffer::command_create>(_reg, staging_entity, entity);
         return command_entity_ref{ _cmds, _reg, entity.get_entity() };
     }
 
     /// @brief Destroys an existing entity.
     /// @param ent The entity to be destroyed.
     void destroy(entity ent) {
-        _cmds.push<command_buffer::command_destroy>(ent);
+        _cmds.push<command_buffer::command_destroy>(_reg, ent);
     };
 
 private:
-- 
2.43.0


From a84145a077b0ceb4a702a1ff88dad6f44ec51f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 25/27] fix: arguments of set and get_or_insert were used after
 the components they may refer to had been relocated

---
 include/co_ecs/base_registry.hpp |  5 ++++-
 include/co_ecs/entity_ref.hpp    | 11 +++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 9fc3fe0..12d254d 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -150,7 +150,7 @@ protected:
     }
 
     template<component C>
-    constexpr auto set_impl(entity ent) -> std::pair<bool, C*> {
+    constexpr auto set_impl(entity ent, auto&&... args) -> std::pair<bool, C*> {
         auto& location = get_location(ent);
         auto*& archetype = location.archetype;
 
@@ -158,9 +158,12 @@ protected:
             return { false, std::addressof(archetype->template get<C>(location)) };
         } else {
             auto new_archetype = _archetypes.ensure_archetype_added<C>(archetype);
+            // arguments may refer to a component that is about to be relocated, so they are to be used before that
+            auto value = C(std::forward<decltype(args)>(args)...);
             auto [new_location, moved] = archetype->move(location, *new_archetype);
 
             auto ptr = std::addressof(new_archetype->template get<C>(new_location));
+            std::construct_at(ptr, std::move(value));
 
             if (moved) {
                 set_location(moved->id(), location);
diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index e0f3042..a22f448 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,10 +148,7 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
-        }
+        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity, std::forward<decltype(args)>(args)...);
         return *ptr;
     }
 
@@ -175,10 +172,8 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
-        } else {
+        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity, std::forward<Args>(args)...);
+        if (!inserted) {
             *ptr = C{ std::forward<Args>(args)... };
         }
         return *this;
-- 
2.43.0


From ad1b2582e48f85947ce6f9163006efdf248b9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 26/27] fix: hash_table used references to its own elements
 after growing

---
 include/co_ecs/detail/hash_table.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 5e1b79d..6aabab4 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -748,6 +748,8 @@ private:
 
     template<typename... Args>
     constexpr auto emplace_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // arguments may refer to an element of this table, so they are to be used before it grows
+        value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
@@ -755,18 +757,20 @@ private:
             reserve(new_size);
         }
 
-        return _emplace_impl(std::forward<Args>(args)...);
+        return _emplace_impl(std::move(value));
     }
 
     template<typename... Args>
     constexpr auto emplace_or_assign_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // arguments may refer to an element of this table, so they are to be used before it grows
+        value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
         }
-        return _emplace_or_assign_impl(std::forward<Args>(args)...);
+        return _emplace_or_assign_impl(std::move(value));
     }
 
     template<typename... Args>
-- 
2.43.0


From af1fe66afcb0ea6ae21ccd5405a02e97e69c0b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 27/27] fix: constructing a hash_table from a range emptied the
 elements of the range

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 6aabab4..ebf1f20 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -331,7 +331,7 @@ public:
         _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
-            emplace_or_assign_impl(std::move(*first));
+            emplace_or_assign_impl(*first);
         }
     }
 
-- 
2.43.0

