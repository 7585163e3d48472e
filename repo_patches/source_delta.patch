From 560371c833cfc0d8aa408980cd054340fff5154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 01/23] fix: apply the pool resource's size cut-off to the
 cached block actually chosen

---
 .../details/pool_memory_resource_impl.cpp     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..c3c2326 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -119,16 +119,6 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             auto it = std::lower_bound(m_cached_oversized.begin(),
                                        m_cached_oversized.end(), oversized);
 
-            // If the size is bigger than the requested size by a factor
-            // bigger than or equal to the specified cutoff for size,
-            // allocate a new block.
-            if (it != m_cached_oversized.end()) {
-                const std::size_t size_factor = it->size / bytes;
-                if (size_factor >= m_options.cached_size_cutoff_factor) {
-                    it = m_cached_oversized.end();
-                }
-            }
-
             // Make sure that the alignment of the cached block is appropriate.
             if ((it != m_cached_oversized.end()) &&
                 (it->alignment < alignment)) {
@@ -140,6 +130,16 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 ;
             }
 
+            // If the size is bigger than the requested size by a factor
+            // bigger than or equal to the specified cutoff for size,
+            // allocate a new block.
+            if (it != m_cached_oversized.end()) {
+                const std::size_t size_factor = it->size / bytes;
+                if (size_factor >= m_options.cached_size_cutoff_factor) {
+                    it = m_cached_oversized.end();
+                }
+            }
+
             // If the alignment is bigger than the requested one by a factor
             // bigger than or equal to the specified cutoff for alignment,
             // allocate a new block.
-- 
2.43.0


From 2cf57e66cc262ce1dda75fb14121ab8a7d10a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:48 +0000
Subject: [PATCH 02/23] fix: reject pool resource options that allow empty or
 overflowing chunks

---
 .../details/pool_memory_resource_impl.cpp     | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index c3c2326..64ec643 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -34,8 +34,10 @@ namespace {
 /// Function checking whether a given set of options are valid/consistent
 ///
 /// @param opts The options to check
+/// @return The same options, if they are valid
 ///
-void check_valid(const pool_memory_resource::options& opts) {
+const pool_memory_resource::options& check_valid(
+    const pool_memory_resource::options& opts) {
 
     CHECK_VALID(!vecmem::details::is_power_of_2(opts.smallest_block_size));
     CHECK_VALID(!vecmem::details::is_power_of_2(opts.largest_block_size));
@@ -51,17 +53,22 @@ void check_valid(const pool_memory_resource::options& opts) {
 
     CHECK_VALID(opts.smallest_block_size > opts.largest_block_size);
 
-    CHECK_VALID((opts.min_blocks_per_chunk * opts.smallest_block_size) >
-                opts.max_bytes_per_chunk);
-    CHECK_VALID((opts.min_blocks_per_chunk * opts.largest_block_size) >
-                opts.max_bytes_per_chunk);
+    // (Written without multiplications, as those could overflow. What holds
+    // for the largest/smallest block size, holds for all the others as well.)
+    CHECK_VALID(opts.min_blocks_per_chunk >
+                (opts.max_bytes_per_chunk / opts.largest_block_size));
+    CHECK_VALID(opts.max_blocks_per_chunk <
+                ((opts.min_bytes_per_chunk / opts.smallest_block_size) +
+                 (opts.min_bytes_per_chunk % opts.smallest_block_size ? 1u
+                                                                      : 0u)));
 
-    CHECK_VALID((opts.max_blocks_per_chunk * opts.largest_block_size) <
-                opts.min_bytes_per_chunk);
-    CHECK_VALID((opts.max_blocks_per_chunk * opts.smallest_block_size) <
-                opts.min_bytes_per_chunk);
+    // Every chunk must be able to hold at least one block.
+    CHECK_VALID((opts.min_blocks_per_chunk == 0) &&
+                (opts.min_bytes_per_chunk < opts.largest_block_size));
 
     CHECK_VALID(opts.alignment > opts.smallest_block_size);
+
+    return opts;
 }
 
 }  // namespace
@@ -69,11 +76,10 @@ void check_valid(const pool_memory_resource::options& opts) {
 pool_memory_resource_impl::pool_memory_resource_impl(
     memory_resource& upstream, const pool_memory_resource::options& opts)
     : m_upstream(upstream),
-      m_options(opts),
+      m_options(check_valid(opts)),
       m_smallest_block_log2(
           vecmem::details::log2_ri(opts.smallest_block_size)) {
 
-    check_valid(opts);
     m_pools.resize(vecmem::details::log2_ri(m_options.largest_block_size) -
                    m_smallest_block_log2 + 1);
     VECMEM_DEBUG_MSG(5, "Created %lu pools", m_pools.size());
-- 
2.43.0


From 912f028cacdb425404d4bd2fe1b90c37c5419674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 03/23] fix: binary page resource refuses requests above the
 largest power of two

---
 .../details/binary_page_memory_resource_impl.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..6c11dc3 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -15,7 +15,9 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +29,14 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * Requests that no power of two can hold can never be satisfied.
+     */
+    if (size > (static_cast<std::size_t>(1UL)
+                << (std::numeric_limits<std::size_t>::digits - 1))) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
-- 
2.43.0


From edb6ec21a208a2da03cae9cbbccff57de3ad9c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 04/23] fix: arena resource serves big requests, keeps
 superblocks apart and returns them as obtained

---
 .../details/arena_memory_resource_impl.cpp    | 39 +++++++++++--------
 .../details/arena_memory_resource_impl.hpp    |  4 +-
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..5ad281c 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,8 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
+#include <new>
 
 namespace {
 
@@ -109,16 +111,18 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
         deallocate(aux->pointer(), aux->size());
     }
 
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+    for (block const& superblock : superblocks_) {
+        mm_.deallocate(superblock.pointer(), superblock.size());
     }
 }
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
+    // the rounding up below would overflow
+    if (bytes > std::numeric_limits<std::size_t>::max() - 255u) {
+        throw std::bad_alloc();
+    }
+
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
@@ -175,12 +179,15 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
 
     // find the right place (in ascending address order) to insert the block
     auto const next = free_blocks.lower_bound(b);
-    auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
+    bool const has_previous = next != free_blocks.cbegin();
+    auto const previous = has_previous ? std::prev(next) : next;
 
-    // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
-    bool const merge_next =
-        next != free_blocks.cend() && b.is_contiguous_before(*next);
+    // coalesce with neighboring blocks, but never across superblocks
+    bool const merge_prev = has_previous && previous->is_contiguous_before(b) &&
+                            superblocks_.count(b) == 0;
+    bool const merge_next = next != free_blocks.cend() &&
+                            b.is_contiguous_before(*next) &&
+                            superblocks_.count(*next) == 0;
 
     block merged{};
     if (merge_prev && merge_next) {
@@ -222,8 +229,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
         }
     }
 
-    auto const superblock = expand_arena(size);
-    coalesce_block(this->free_blocks_, superblock);
+    expand_arena(size);
     return first_fit(this->free_blocks_, size);
 }
 
@@ -231,15 +237,16 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    block const superblock{mm_.allocate(size), size};
+    superblocks_.insert(superblock);
+    free_blocks_.insert(superblock);
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..8a71173 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -118,7 +118,7 @@ private:
     };
 
     static block first_fit(std::set<block>& free_blocks, std::size_t size);
-    static block coalesce_block(std::set<block>& free_blocks, block const& b);
+    block coalesce_block(std::set<block>& free_blocks, block const& b);
 
     // @brief Get an available memory block of at least `size` bytes.
     //
@@ -146,6 +146,8 @@ private:
     std::size_t maximum_size_;
     // The current size of the arena
     std::size_t current_size_{};
+    // Superblocks obtained from upstream
+    std::set<block> superblocks_;
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
-- 
2.43.0


From 735b9bee73ed97675ef279b811d38bb5a634fe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:26 +0000
Subject: [PATCH 05/23] fix: host resource refuses sizes whose rounding up
 overflows

---
 core/src/memory/host_memory_resource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..5a749d3 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -37,6 +37,9 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
     const std::size_t size = bytes + (align - (bytes % align));
+    if (size < bytes) {
+        throw std::bad_alloc();
+    }
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
     if (ptr == nullptr) {
@@ -48,6 +51,9 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // pointer to the beginning of the unaligned memory blob before
     // the aligned pointer.
     std::size_t alloc_bytes = bytes + alignment + sizeof(void *) - 1;
+    if (alloc_bytes < bytes) {
+        throw std::bad_alloc();
+    }
     void *unaligned_ptr = std::malloc(alloc_bytes);
     // If the alignment failed for some reason, throw an exception.
     if (unaligned_ptr == nullptr) {
-- 
2.43.0


From f4f44f80391e6dac11eb80c60c44276c204e2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 06/23] fix: unique pointers allocate over-aligned types with
 their alignment

---
 core/include/vecmem/memory/unique_ptr.hpp | 52 +++++++++++++++++------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..db352a5 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include <cstddef>
 #include <memory>
 #include <type_traits>
 
@@ -54,6 +55,22 @@ using unique_obj_ptr = std::unique_ptr<T, details::unique_obj_deleter<T>>;
 template <typename T>
 using unique_alloc_ptr = std::unique_ptr<T, details::unique_alloc_deleter<T>>;
 
+namespace details {
+/**
+ * @brief The alignment to use for allocating (an array of) a given type.
+ *
+ * This is the default alignment of the memory resources, unless the type needs
+ * a stricter one.
+ *
+ * @tparam T The type to allocate, which may be an array type.
+ */
+template <typename T>
+inline constexpr std::size_t unique_ptr_alignment =
+    (alignof(std::remove_extent_t<T>) > alignof(std::max_align_t)
+         ? alignof(std::remove_extent_t<T>)
+         : alignof(std::max_align_t));
+}  // namespace details
+
 /**
  * @brief Create a unique object pointer to a newly constructed object.
  *
@@ -79,7 +96,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    T* p = static_cast<T*>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -90,7 +107,8 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -121,7 +139,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Use placement-new to default-construct each of our elements.
@@ -133,7 +152,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_ptr_alignment<T>, n));
 }
 
 /**
@@ -186,12 +206,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -247,12 +269,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -319,14 +343,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -396,13 +422,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 }  // namespace vecmem
-- 
2.43.0


From 02da3f6f11a78d788244c04fd9c7259d150890b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 07/23] fix: object allocations refuse element counts whose
 byte size overflows

---
 core/include/vecmem/memory/impl/allocator.ipp |  9 +++++++
 core/include/vecmem/memory/unique_ptr.hpp     | 25 ++++++++++++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..0861719 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -9,10 +9,19 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
+#include <new>
 
 namespace vecmem {
 template <typename T>
 T *allocator::allocate_object(std::size_t n) {
+    /*
+     * Make sure that the size of the allocation can be represented.
+     */
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+
     /*
      * Since we know the object being allocated here, we can multiply the
      * number of objects to allocate with the size of that class. We can
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index db352a5..c5ab265 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -9,7 +9,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <type_traits>
 
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
@@ -69,6 +71,23 @@ inline constexpr std::size_t unique_ptr_alignment =
     (alignof(std::remove_extent_t<T>) > alignof(std::max_align_t)
          ? alignof(std::remove_extent_t<T>)
          : alignof(std::max_align_t));
+
+/**
+ * @brief The number of bytes needed for an array of a given type.
+ *
+ * @tparam T The type of the array elements.
+ *
+ * @param n The number of elements in the array.
+ *
+ * @throws std::bad_array_new_length If the size can not be represented.
+ */
+template <typename T>
+std::size_t unique_ptr_array_size(std::size_t n) {
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+    return n * sizeof(T);
+}
 }  // namespace details
 
 /**
@@ -138,7 +157,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_ptr_array_size<std::remove_extent_t<T>>(n);
     pointer_t p =
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
@@ -268,7 +287,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_ptr_array_size<std::remove_extent_t<T>>(n);
     pointer_t p =
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
@@ -421,7 +440,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_ptr_array_size<std::remove_extent_t<T>>(n);
     pointer_t p =
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
-- 
2.43.0


From 4dd7a67cb1861b45383b88e56b4aefd5d661de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 08/23] fix: object allocations give everything back when a
 constructor throws

---
 core/include/vecmem/memory/impl/allocator.ipp | 12 ++++++---
 core/include/vecmem/memory/unique_ptr.hpp     | 26 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 0861719..15dc626 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -48,15 +48,21 @@ T *allocator::new_object(Args &&... args) {
      * constructing. We use the allocate_object method for this, with the
      * default argument of 1 for a single object.
      */
-    void *p = allocate_object<T>();
+    T *p = allocate_object<T>();
 
     /*
      * Next, we use the placement new operation to construct the object in
      * the memory which we have just allocated. For this, we also need to
      * forward the arguments passed to this method so they can be used to
-     * call the constructor of the class.
+     * call the constructor of the class. If that fails, the memory is given
+     * back.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(p);
+        throw;
+    }
 }
 
 template <typename T>
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index c5ab265..b4cdcc0 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -119,9 +119,14 @@ make_unique_obj(memory_resource& m, Args&&... a) {
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
-     * object.
+     * object. If that fails, give the memory back.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, details::unique_ptr_alignment<T>);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -162,10 +167,21 @@ make_unique_obj(memory_resource& m, std::size_t n) {
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
-     * Use placement-new to default-construct each of our elements.
+     * Use placement-new to default-construct each of our elements. If that
+     * fails, destroy the elements made so far and give the memory back.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    using storage_t = typename unique_obj_ptr<T>::deleter_type::storage_t;
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) storage_t();
+        }
+    } catch (...) {
+        while (i > 0) {
+            p[--i].~storage_t();
+        }
+        m.deallocate(p, s, details::unique_ptr_alignment<T>);
+        throw;
     }
 
     /*
-- 
2.43.0


From a6c135b49bfc066f4057bc19afbdec89a0593e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:54 +0000
Subject: [PATCH 09/23] fix: static_vector's filling constructor does not
 destroy elements that do not exist

---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From f91ea735f56821fcf2c5bb162eed8b03f21f8dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:23 +0000
Subject: [PATCH 10/23] fix: static_vector assignment copies its elements
 instead of their bytes

---
 .../vecmem/containers/impl/static_vector.ipp     | 16 ++++++++++++++++
 core/include/vecmem/containers/static_vector.hpp |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..f1957ac 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -36,6 +36,22 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     }
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>&
+static_vector<TYPE, MAX_SIZE>::operator=(const static_vector& rhs) {
+
+    // Avoid a self-assignment.
+    if (this == &rhs) {
+        return *this;
+    }
+
+    // Replace all elements with copies of the other vector's elements.
+    assign(rhs.begin(), rhs.end());
+
+    // Return this object.
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
 
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..93b02ca 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -92,6 +92,9 @@ public:
     /// Copy constructor
     VECMEM_HOST_AND_DEVICE
     static_vector(const static_vector& parent);
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
 
     /// Destructor
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From 5f948a8862ba24fe4d47fc55a79ffdbcc8d5a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:51 +0000
Subject: [PATCH 11/23] fix: static_vector aligns its storage for its element
 type

---
 core/include/vecmem/containers/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 93b02ca..243d2c8 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -319,7 +319,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) alignas(array_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From e15ae3e33b0d6a759a8ab5e2060534c48cba9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:46 +0000
Subject: [PATCH 12/23] fix: static_vector inserts values that are its own
 elements correctly

---
 .../vecmem/containers/impl/static_vector.ipp  | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index f1957ac..d0b25f9 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -178,22 +178,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Make sure that one more position is available.
     assert(m_size < array_max_size);
 
-    // Find the index of this iterator inside of the vector.
-    auto id = element_id(pos);
-
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
-
-    // Instantiate the new value.
-    construct(id.m_index, value);
-
-    // Increment the size.
-    ++m_size;
-
-    // Return an iterator to the inserted element.
-    return id.m_ptr;
+    return emplace(pos, value);
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
@@ -206,6 +191,9 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
+    // Make a copy of the value, as it may be one of the elements getting moved.
+    const value_type copy(value);
+
     // Move the payload of the existing elements after "pos".
     memmove(static_cast<void*>(id.m_ptr + count),
             static_cast<const void*>(id.m_ptr),
@@ -213,7 +201,7 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        construct(id.m_index + i, copy);
     }
 
     // Increment the size.
@@ -234,13 +222,23 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
-
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    // Instantiate the new value behind the existing elements. They must not be
+    // moved before this, as the arguments may refer to one of them.
+    pointer const new_ptr = reinterpret_cast<pointer>(m_elements) + m_size;
+    new (new_ptr) value_type(std::forward<Args>(args)...);
+
+    // Move the payload of the new element to "pos", and of the existing
+    // elements after it.
+    if (new_ptr != id.m_ptr) {
+        alignas(value_type) char payload[value_size];
+        memcpy(static_cast<void*>(payload), static_cast<const void*>(new_ptr),
+               value_size);
+        memmove(static_cast<void*>(id.m_ptr + 1),
+                static_cast<const void*>(id.m_ptr),
+                (m_size - id.m_index) * value_size);
+        memcpy(static_cast<void*>(id.m_ptr), static_cast<const void*>(payload),
+               value_size);
+    }
 
     // Increment the size.
     ++m_size;
-- 
2.43.0


From 9728a24a7d34c6850e8efb27bd207c3d34724da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:16 +0000
Subject: [PATCH 13/23] fix: constant vecmem::array::front() compiles

---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From d9d181acb8063d5740e56e8a8160e5948e93a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 14/23] fix: fixed-size jagged buffers align their elements

---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 42116543f69d5dcb67f65f7b4bfaa11e08bdcec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:36 +0000
Subject: [PATCH 15/23] fix: jagged device vector iterators convert to constant
 iterators

---
 .../containers/details/jagged_device_vector_iterator.hpp      | 4 ++++
 .../vecmem/containers/impl/jagged_device_vector_iterator.ipp  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..444430e 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -173,6 +173,10 @@ public:
     /// @}
 
 private:
+    /// Make all iterator types friends of each other
+    template <typename T>
+    friend class jagged_device_vector_iterator;
+
     /// Pointer to the data (in an array)
     data_pointer m_ptr;
 
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..a6bbe84 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -62,7 +62,7 @@ template <typename T>
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    : jagged_device_vector_iterator(parent.m_ptr) {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From 592c0ea869e443f88460c3a094c309dbbc0dd536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:50 +0000
Subject: [PATCH 16/23] fix: copying into a jagged std::vector compiles

---
 core/include/vecmem/utils/impl/copy.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..9fff9cf 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -263,8 +263,10 @@ copy::event_type copy::operator()(
         to_vec[i].resize(sizes[i]);
     }
 
-    // Perform the memory copy.
-    return operator()(from_view, vecmem::get_data(to_vec), cptype);
+    // Perform the memory copy. The description of the target is only needed (in
+    // host memory) for the duration of this call.
+    host_memory_resource host_mr;
+    return operator()(from_view, vecmem::get_data(to_vec, &host_mr), cptype);
 }
 
 template <typename TYPE>
-- 
2.43.0


From 85852f5a766793486c69970b960457046b8a5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:50 +0000
Subject: [PATCH 17/23] fix: copying an empty vector empties a resizable target

---
 core/include/vecmem/utils/impl/copy.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 9fff9cf..a1c6e65 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -494,8 +494,8 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
+    // If it's zero, and the target has no size to set, don't do an actual copy.
+    if ((size == 0u) && (to_view.size_ptr() == nullptr)) {
         return false;
     }
 
@@ -536,7 +536,9 @@ bool copy::copy_view_impl(
     }
 
     // Copy the payload.
-    do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    if (size != 0u) {
+        do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    }
     return true;
 }
 
-- 
2.43.0


From 998ce19f86139b618d23d56c17d9b153f7c987a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 18/23] fix: memset on an empty jagged vector does nothing

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index a1c6e65..bbb817f 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,6 +176,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
-- 
2.43.0


From 1d691c0de7b15b2db9973fbb0ea5c766775eb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:19 +0000
Subject: [PATCH 19/23] fix: buffers are made from resizable jagged vectors in
 device memory

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index bbb817f..f15124a 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -222,9 +222,10 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
     const data::jagged_vector_view<TYPE>& data, memory_resource& resource,
     memory_resource* host_access_resource, type::copy_type cptype) const {
 
-    // Create the result buffer object.
+    // Create the result buffer object. Don't assume that the sizes of the inner
+    // vectors would be host-accessible.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From fcc4457f0dc8f53e2f53790c98180b93fc3b4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:15 +0000
Subject: [PATCH 20/23] fix: views of containers with only scalar variables are
 initialized

---
 core/include/vecmem/edm/impl/host.ipp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/edm/impl/host.ipp b/core/include/vecmem/edm/impl/host.ipp
index fd4a616..6717794 100644
--- a/core/include/vecmem/edm/impl/host.ipp
+++ b/core/include/vecmem/edm/impl/host.ipp
@@ -207,8 +207,9 @@ VECMEM_HOST edm::data<edm::schema<VARTYPES...>> get_data(
     edm::host<edm::schema<VARTYPES...>, INTERFACE>& host,
     memory_resource* resource) {
 
-    // Create the result object.
-    edm::data<edm::schema<VARTYPES...>> result;
+    // Create the result object. Making sure that it is initialized, even if
+    // the container has no vector variables.
+    edm::data<edm::schema<VARTYPES...>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
@@ -273,8 +274,9 @@ VECMEM_HOST edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>>
 get_data(const edm::host<edm::schema<VARTYPES...>, INTERFACE>& host,
          memory_resource* resource) {
 
-    // Create the result object.
-    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result;
+    // Create the result object. Making sure that it is initialized, even if
+    // the container has no vector variables.
+    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
-- 
2.43.0


From 5410dce4773984a3c18186b5d1750a97676aadef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 21/23] fix: payloads too large for a memory view are not
 described by one

---
 core/include/vecmem/edm/details/buffer_traits.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/edm/details/buffer_traits.hpp b/core/include/vecmem/edm/details/buffer_traits.hpp
index 117b98a..9605a9f 100644
--- a/core/include/vecmem/edm/details/buffer_traits.hpp
+++ b/core/include/vecmem/edm/details/buffer_traits.hpp
@@ -17,6 +17,7 @@
 
 // System include(s).
 #include <array>
+#include <limits>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
@@ -252,8 +253,16 @@ find_payload_view(
         reinterpret_cast<typename result_type::pointer>(find_last_pointer(
             payloads, sizes, std::index_sequence_for<TYPES...>()));
 
+    // A payload that is too large for the memory view's size type, can not be
+    // described by it. In that case the variables need to be handled one by
+    // one by the code using the view.
+    const std::size_t size = static_cast<std::size_t>(end_ptr - ptr);
+    if (size > std::numeric_limits<typename result_type::size_type>::max()) {
+        return {0u, nullptr};
+    }
+
     // Construct the result.
-    return {static_cast<typename result_type::size_type>(end_ptr - ptr), ptr};
+    return {static_cast<typename result_type::size_type>(size), ptr};
 }
 
 }  // namespace vecmem::edm::details
-- 
2.43.0


From dfe1e3a4191206eb8e8f16391a526446ffa83433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:45 +0000
Subject: [PATCH 22/23] fix: structures of arrays are copied in one go only
 when laid out alike

---
 core/include/vecmem/utils/copy.hpp      |  6 +++
 core/include/vecmem/utils/impl/copy.ipp | 59 ++++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..cb3c9ab 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -232,6 +232,12 @@ private:
     template <typename TYPE>
     static bool is_contiguous(const data::vector_view<TYPE>* data,
                               std::size_t size);
+    /// Check if two SoA containers have the same layout in their payload
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool is_same_layout(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c memset function
     template <std::size_t INDEX, typename... VARTYPES>
     void memset_impl(edm::view<edm::schema<VARTYPES...>> data, int value) const;
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index f15124a..c732381 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -390,10 +390,11 @@ copy::event_type copy::operator()(
     edm::view<edm::schema<VARTYPES...>> to_view, type::copy_type cptype) const {
 
     // First, handle the simple case, when both views have a contiguous memory
-    // layout.
+    // layout, with every variable at the same place in it.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        is_same_layout<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -752,6 +753,60 @@ bool copy::is_contiguous(const data::vector_view<TYPE>* data,
     return true;
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::is_same_layout(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // The type of the variable being checked.
+    using var_type =
+        typename std::tuple_element<INDEX, std::tuple<VARTYPES...>>::type;
+
+    // Check if two pointers are at the same offset in the two payloads.
+    auto same_offset = [&from_view, &to_view](const void* from,
+                                              const void* to) -> bool {
+        return ((static_cast<const char*>(from) - from_view.payload().ptr()) ==
+                (static_cast<const char*>(to) - to_view.payload().ptr()));
+    };
+    // Check if two vectors are at the same place in the two payloads.
+    [[maybe_unused]] auto same_vector = [&same_offset](const auto& from,
+                                                       const auto& to) -> bool {
+        return ((from.capacity() == to.capacity()) &&
+                ((from.capacity() == 0u) || same_offset(from.ptr(), to.ptr())));
+    };
+
+    // Check this variable.
+    const auto& from = from_view.template get<INDEX>();
+    const auto& to = to_view.template get<INDEX>();
+    if constexpr (edm::type::details::is_scalar<var_type>::value) {
+        if (same_offset(from, to) == false) {
+            return false;
+        }
+    } else if constexpr (edm::type::details::is_jagged_vector<
+                             var_type>::value) {
+        if (from.size() != to.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from.size(); ++i) {
+            if (same_vector(from.host_ptr()[i], to.host_ptr()[i]) == false) {
+                return false;
+            }
+        }
+    } else {
+        if (same_vector(from, to) == false) {
+            return false;
+        }
+    }
+
+    // Check the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return is_same_layout<INDEX + 1>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                        int value) const {
-- 
2.43.0


From 4d4a481413a76d1b9152f5efa6c2075c8702eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 23/23] fix: the size of an empty resizable structure of arrays
 is set up

---
 core/include/vecmem/utils/impl/copy.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index c732381..a7d4464 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -338,13 +338,15 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
+    // For empty containers, which do not have any "size variable(s)" either,
+    // nothing needs to be done.
+    if ((data.capacity() == 0) && (data.size().capacity() == 0)) {
         return vecmem::copy::create_event();
     }
 
     // Copy the data layout to the device, if needed.
-    if (data.layout().ptr() != data.host_layout().ptr()) {
+    if ((data.capacity() != 0) &&
+        (data.layout().ptr() != data.host_layout().ptr())) {
         assert(data.layout().capacity() > 0u);
         [[maybe_unused]] bool did_copy =
             copy_view_impl(data.host_layout(), data.layout(), type::unknown);
-- 
2.43.0

