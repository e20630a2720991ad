From ded0ab524d4106b0cb213797e3fe412ea2efedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 01/57] fix: uninitialized_copy_a destroys the constructed
 output range when a copy throws

---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From 947085d246174f8d6a4200896450ed36885f26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 02/57] fix: Array constructs elements in new storage and
 destroys the old ones when it reallocates

---
 include/xme/container/array.hpp | 48 ++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..a35cb24 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -286,7 +286,7 @@ private:
         const auto old_size = this->size();
         pointer new_begin   = m_allocator.allocate(n);
 
-        std::ranges::move(*this, new_begin);
+        relocate_all(old_size, new_begin, n);
         if(m_data.begin)
             m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
@@ -298,32 +298,66 @@ private:
         size_type elements_to_move = std::min(this->size(), n);
         pointer new_begin          = m_allocator.allocate(n);
 
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
+        relocate_all(elements_to_move, new_begin, n);
         m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
         m_data.end         = new_begin + elements_to_move;
         m_data.storage_end = new_begin + n;
     }
 
+    //! Constructs [first, last) at `out`, which must be uninitialized memory.
+    //! Elements are moved, unless that could throw and they can be copied.
+    //! @returns a pointer past the last constructed element.
+    constexpr auto uninitialized_relocate(pointer first, pointer last, pointer out) -> pointer {
+        pointer curr = out;
+        try {
+            for(; first != last; ++first, (void)++curr)
+                alloc_traits::construct(m_allocator, curr, std::move_if_noexcept(*first));
+        }
+        catch(...) {
+            ranges::destroy_a(out, curr, m_allocator);
+            throw;
+        }
+        return curr;
+    }
+
+    //! Relocates the first `count` elements to `new_begin`, a storage for `n` elements,
+    //! and destroys all the old ones.
+    constexpr void relocate_all(size_type count, pointer new_begin, size_type n) {
+        try {
+            uninitialized_relocate(m_data.begin, m_data.begin + count, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        ranges::destroy_a(m_data.begin, m_data.end, m_allocator);
+    }
+
     template<typename... Args>
     constexpr auto realloc_insert(iterator pos, Args&&... args) -> iterator {
         const size_type elements_before = pos - begin();
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
         const size_type curr_size       = this->size();
         pointer new_start               = m_allocator.allocate(new_size);
+        pointer first_built             = new_start + elements_before;
+        pointer last_built              = first_built;
         try {
             alloc_traits::construct(
               m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            ++last_built;
+            uninitialized_relocate(m_data.begin, m_data.begin + elements_before, new_start);
+            first_built = new_start;
+            uninitialized_relocate(m_data.begin + elements_before, m_data.end, last_built);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
+            ranges::destroy_a(first_built, last_built, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
+        ranges::destroy_a(m_data.begin, m_data.end, m_allocator);
+        if(m_data.begin)
+            m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_start;
         m_data.end         = new_start + (curr_size + 1);
         m_data.storage_end = new_start + new_size;
-- 
2.43.0


From acb780b281bf00d885ac3f783006ac6b86f15c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 03/57] fix: Array insertions accept a value that is an element
 of the same array

---
 include/xme/container/array.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index a35cb24..e5f4e65 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,11 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        T tmp(std::forward<U>(value));  // value may be an element of this array
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
@@ -253,7 +254,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From 2c4b6055799f92e2e8aed6d54de920180c9b8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 04/57] fix: Array::erase moves elements down before destroying
 the vacated tail

---
 include/xme/container/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index e5f4e65..6d89324 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -265,9 +265,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::ranges::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -276,9 +276,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
+        if(elements == 0)
+            return p;
+        std::ranges::move(p + elements, m_data.end, p);
         m_data.end -= elements;
+        ranges::destroy_n_a(m_data.end, elements, m_allocator);
         return p;
     }
 
-- 
2.43.0


From e330b97e46cc1ee1ec4b392cabc21cf8892c7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 05/57] fix: Array range insert no longer constructs over live
 elements or assigns to raw memory

---
 include/xme/container/array.hpp | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 6d89324..2645e3c 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -180,31 +180,11 @@ public:
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
-        auto p             = const_cast<pointer>(pos.operator->());
-        size_type elements = std::ranges::distance(first, last);
-        if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
-
-            // Must be constructed first, so if it throws we don't break the original
-            // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
-            std::ranges::swap(m_data, tmp.m_data);
-
-            return begin() + elements_before;
-        }
-
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
-        return p;
+        const size_type elements_before = pos - ::ranges::cbegin(*this);
+        const size_type old_size        = this->size();
+        push_back(first, last);
+        std::rotate(m_data.begin + elements_before, m_data.begin + old_size, m_data.end);
+        return begin() + elements_before;
     }
 
     //! Inserts [begin(range), end(range)) in a specified position..
-- 
2.43.0


From 31824412515192e19000e8798181a3701568d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 06/57] fix: Array accepts single-pass input iterators without
 consuming them for a distance

---
 include/xme/container/array.hpp | 34 +++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2645e3c..6dae195 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -63,10 +63,14 @@ public:
 
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
-      Array(std::ranges::distance(first, last), alloc) {
-        auto&& [_, out] = xme::ranges::uninitialized_copy_a(
-          first, last, m_data.begin, m_data.storage_end, m_allocator);
-        m_data.end = out;
+      Array(distance_if_multipass(first, last), alloc) {
+        if constexpr(std::forward_iterator<Iter>) {
+            auto&& [_, out] = xme::ranges::uninitialized_copy_a(
+              first, last, m_data.begin, m_data.storage_end, m_allocator);
+            m_data.end = out;
+        }
+        else
+            push_back(std::move(first), std::move(last));
     }
 
     template<::ranges::input_range R>
@@ -182,7 +186,7 @@ public:
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
         const size_type elements_before = pos - ::ranges::cbegin(*this);
         const size_type old_size        = this->size();
-        push_back(first, last);
+        push_back(std::move(first), std::move(last));
         std::rotate(m_data.begin + elements_before, m_data.begin + old_size, m_data.end);
         return begin() + elements_before;
     }
@@ -206,13 +210,14 @@ public:
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
-        size_type new_capacity = this->size() + std::ranges::distance(first, last);
-        if(new_capacity > capacity()) {
-            grow_storage(new_capacity);
+        if constexpr(std::forward_iterator<Iter>) {
+            size_type new_capacity = this->size() + std::ranges::distance(first, last);
+            if(new_capacity > capacity()) {
+                grow_storage(new_capacity);
+            }
         }
         for(; first != last; ++first) {
-            alloc_traits::construct(m_allocator, m_data.end, *first);
-            ++m_data.end;
+            emplace_back(*first);
         }
     }
 
@@ -265,6 +270,15 @@ public:
     }
 
 private:
+    //! A single-pass range can't be measured without being consumed.
+    template<typename Iter, typename Sent>
+    static constexpr auto distance_if_multipass(const Iter& first, const Sent& last) -> size_type {
+        if constexpr(std::forward_iterator<Iter>)
+            return std::ranges::distance(first, last);
+        else
+            return 0;
+    }
+
     constexpr void grow_storage(size_type n) {
         const auto old_size = this->size();
         pointer new_begin   = m_allocator.allocate(n);
-- 
2.43.0


From 97f1502bf9f6accc90a68287b4f4d6ef18cd3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 07/57] fix: container headers name range-v3 as ::ranges so
 that they compile next to xme::ranges

---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 8d04b8cfcf017897514e1316cc0b74fe6993afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 08/57] fix: ArrayView::subview precondition no longer wraps
 around

---
 include/xme/container/array_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 050049a..30ccffe 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -168,7 +168,7 @@ public:
     [[nodiscard]]
     constexpr auto subview(size_type offset,
                            size_type count) const noexcept -> ArrayView<T, dynamic_size> {
-        assert(count + offset <= size());
+        assert(count <= size() && offset <= size() - count);
         return ArrayView<T, dynamic_size>(m_view + offset, count);
     }
 
-- 
2.43.0


From 49f8b96b17127afd1ed21dc274ce368179bde711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 09/57] fix: LinkedList constructors release their nodes when
 an element constructor throws

---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From 73638ec0d47fbc101269af9eba02d0463a39a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 10/57] fix: ReverseIterator orders positions in the direction
 it iterates

---
 include/xme/core/iterators/reverse_iterator.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..c867d8a 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -121,18 +121,22 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
     friend constexpr bool operator==(const ReverseIterator<It>& lhs,
                                      const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+        return lhs.m_current == rhs.m_current;
     }
 
     template<typename U>
     friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
                                       const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+        return rhs.m_current <=> lhs.m_current;
     }
 
 private:
-- 
2.43.0


From f67eb6750cc02f39e2b64a49793ee1c4163111de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 11/57] fix: find loads unaligned vectors, elements need not be
 aligned to 16 or 32 bytes

---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From 6b00ec54fbf204c5d8a50fc4d2f02b6ee193393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 12/57] fix: find compares bits only for types whose equality
 is bitwise

---
 include/xme/core/algorithm/find.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 67d5115..18f101d 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -9,6 +9,10 @@
 
 namespace xme {
 namespace detail {
+//! Types for which two values are equal exactly when their bits are equal.
+template<typename T>
+concept CSimdFindable = (std::is_integral_v<T> || std::is_pointer_v<T>) && sizeof(T) <= 8;
+
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
@@ -74,9 +78,8 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
+    if constexpr(::ranges::contiguous_iterator<I> && detail::CSimdFindable<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
         while(compare + readable_bytes <= s) {
-- 
2.43.0


From ad4773b080d3878ea3f13530d5517ada0b271562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 13/57] fix: find never forms an iterator past the end of the
 range

---
 include/xme/core/algorithm/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 18f101d..1fae832 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -82,7 +82,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        while(static_cast<std::size_t>(s - compare) >= readable_bytes) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
-- 
2.43.0


From a9df846f245b2ef644224ccf12624d6fae27909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 14/57] fix: reverse uses SIMD only for the element size it
 handles

---
 include/xme/core/algorithm/reverse.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..1a7afc5 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -28,7 +28,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -46,11 +45,11 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+                 && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From 174b486e6ff998cc9dbaa5971bd37ffa0f66d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 15/57] fix: Delegate can be copied

---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..2e18238 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -197,8 +197,8 @@ public:
 
 private:
     AnyData m_storage{};
-    R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    R (*m_callable)(const AnyData&, Args...)                = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From 66a14bb0e03b71d04176787aa161e4adf4e714a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 16/57] fix: Delegate stores a decayed copy of the callable, so
 that lvalues are accepted

---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 2e18238..e98408d 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
-- 
2.43.0


From 9a0a7a02e6c090af2f207f8cd8f540929358e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 17/57] fix: Delegate keeps functors that are not trivially
 copyable out of the local storage

---
 include/xme/core/functional/delegate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e98408d..779c656 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -55,8 +55,10 @@ public:
     struct FunctorManager {
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
+        // Moving and swapping a Delegate relocates local functors bytewise
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 86324d7284e36f5cd838dfc1873c98d27fb03d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 18/57] fix: Delegate::handle returns the functor when it is
 not in the local storage

---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 779c656..cd77e17 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -192,7 +192,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From ddbcc8e8cc9b6689f1e08e9c237fc61c46a95d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 19/57] fix: AlignedData default construction never needs a
 default T, and copies are copies

---
 include/xme/container/aligned_data.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index cf4dabd..6d258f8 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -2,6 +2,8 @@
 #include <array>
 #include <bit>
 #include <concepts>
+#include <memory>
+#include <type_traits>
 #include <xme/setup.hpp>
 
 namespace xme {
@@ -22,11 +24,11 @@ public:
     using pointer         = T*;
     using const_pointer   = const T*;
 
-    constexpr AlignedData() noexcept
-        requires std::default_initializable<T>
-    = default;
+    constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
+        requires(sizeof...(Args) > 0)
+                && (!(std::same_as<AlignedData, std::remove_cvref_t<Args>> && ...))
     constexpr AlignedData(Args&&... args) noexcept {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
-- 
2.43.0


From 3e4a56ecfcbff8eda7e7c8d1328e1efe590f3326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 20/57] fix: rvalue access to a tuple or pair element that is
 an rvalue reference

---
 include/xme/container/pair.hpp   | 4 ++--
 private/container/tuple_base.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..46fe8b2 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -43,7 +43,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
     }
 
     [[nodiscard]]
@@ -58,7 +58,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
     }
 #endif
 
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..317a2be 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,7 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
     }
 #endif
 
-- 
2.43.0


From d3c4ac196c1e3b193e16976e8ec4c048d0fb4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 21/57] fix: perspective selects the left-handed matrix under
 XME_MATH_CLIP_LH

---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..e539afe 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From 038b1503514c1b9f390dbc36901a14e9e7ca3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 22/57] fix: frustum matrices divide the horizontal offset by
 the width

---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index e539afe..7deae05 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From 01279940e1d309a3276399b22584bb9013a1aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 23/57] fix: ortho matrices scale the depth and place the
 translation in the last column

---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 7deae05..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From b0570f776a4c33cd469586eef5e7c4684a615d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 24/57] fix: environment functions pass terminated strings, a
 string_view is not one

---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From fcfeff718e37ba8baf16332414b9e34e222aa053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 25/57] fix: SharedLibrary passes terminated strings, a
 string_view is not one

---
 include/xme/hal/shared_library.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..ffbe83e 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,5 +1,7 @@
 #pragma once
+#include <string>
 #include <string_view>
+#include <utility>
 #include "platform_macros.hpp"
 
 #if XME_PLATFORM_WINDOWS
@@ -40,7 +42,7 @@ public:
     constexpr void open(std::string_view lib_name) {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -56,7 +58,7 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> void* {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From 527977f68ab8323e010739ac823300d09b3c2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 26/57] fix: SharedLibrary closes each library it opened
 exactly once

---
 include/xme/hal/shared_library.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index ffbe83e..cb02d6b 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,7 +1,7 @@
 #pragma once
 #include <string>
 #include <string_view>
-#include <utility>
+#include <concepts>
 #include "platform_macros.hpp"
 
 #if XME_PLATFORM_WINDOWS
@@ -40,6 +40,7 @@ public:
     }
 
     constexpr void open(std::string_view lib_name) {
+        close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
@@ -49,7 +50,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From a5b50ca089f3e9fa4c63007ce3b5f89d2c6f8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 27/57] fix: SharedLibrary::proc_address returns the requested
 type

---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index cb02d6b..2b61307 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -58,7 +58,7 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         return (T)dlsym(m_library, std::string(function).c_str());
-- 
2.43.0


From 4ad4ce08eee1d7d42e606c1f2456567d2089a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 28/57] fix: ConstIterator converts from a ConstIterator over a
 convertible iterator

---
 include/xme/core/iterators/const_iterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..a1858d0 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -33,12 +33,15 @@ public:
       std::conditional_t<std::forward_iterator<It>, typename traits::iterator_category, void>;
     using iterator_concept = decltype(get_iterator_concept());
 
+    template<std::input_iterator>
+    friend class ConstIterator;
+
     constexpr ConstIterator() noexcept = default;
 
     constexpr ConstIterator(It it) noexcept : m_current(it) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current(other.m_current) {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
-- 
2.43.0


From 34969dd365a9080bff1249eb647ff3a80981b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 29/57] fix: bind_front and bind_back let exceptions of copied
 arguments through

---
 include/xme/core/functional/bind.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..aef48a6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,19 +12,19 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From bd8caa7a6ed532ba460fda368ac9bcf688e5d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 30/57] fix: Delegate assignment lets exceptions of the copied
 callable through

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index cd77e17..91692ac 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -151,7 +151,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -171,7 +171,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From 56645233e764f250b670408fc72478d059323430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 31/57] fix: AlignedData construction lets exceptions of the
 element through

---
 include/xme/container/aligned_data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index 6d258f8..eb6162b 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -29,7 +29,8 @@ public:
     template<typename... Args>
         requires(sizeof...(Args) > 0)
                 && (!(std::same_as<AlignedData, std::remove_cvref_t<Args>> && ...))
-    constexpr AlignedData(Args&&... args) noexcept {
+    constexpr AlignedData(Args&&... args)
+      noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From 7be1180880de50c4fa9a73383e8b2c13d5296ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 32/57] fix: Pair assignment lets exceptions of the element
 assignments through

---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 46fe8b2..696f720 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(noexcept(std::declval<T&>() = get<0>(std::forward<P>(p)))
+               && noexcept(std::declval<U&>() = get<1>(std::forward<P>(p)))) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From 3b1aa020e707406d2b2d4ce6e0b35e7434fc64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 33/57] fix: ScopedDelegate construction lets exceptions of the
 callable through

---
 include/xme/core/functional/scoped_delegate.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/scoped_delegate.hpp b/include/xme/core/functional/scoped_delegate.hpp
index 0060a19..2556550 100644
--- a/include/xme/core/functional/scoped_delegate.hpp
+++ b/include/xme/core/functional/scoped_delegate.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <concepts>
+#include <type_traits>
 #include <utility>
 
 namespace xme {
@@ -8,9 +10,11 @@ namespace xme {
 template<std::invocable F>
 class ScopedDelegate {
 public:
-    constexpr ScopedDelegate(F& func) noexcept : m_callable(func) {}
+    constexpr ScopedDelegate(F& func) noexcept(std::is_nothrow_constructible_v<F, F&>) :
+      m_callable(func) {}
 
-    constexpr ScopedDelegate(F&& func) noexcept : m_callable(std::move(func)) {}
+    constexpr ScopedDelegate(F&& func) noexcept(std::is_nothrow_move_constructible_v<F>) :
+      m_callable(std::move(func)) {}
 
     constexpr ~ScopedDelegate() noexcept { m_callable(); }
 
-- 
2.43.0


From 1fd305c13acdcb75b79021d7f6099d6b1a7de286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 34/57] fix: to_unsigned accepts 128-bit integers

---
 include/xme/core/utility/to_unsigned.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/utility/to_unsigned.hpp b/include/xme/core/utility/to_unsigned.hpp
index cf55848..74f1b01 100644
--- a/include/xme/core/utility/to_unsigned.hpp
+++ b/include/xme/core/utility/to_unsigned.hpp
@@ -8,7 +8,7 @@ XME_INLINE constexpr auto to_unsigned(T n) {
     return static_cast<std::make_unsigned_t<T>>(n);
 }
 
-#ifdef __sizeof_int128__
+#ifdef __SIZEOF_INT128__
 XME_INLINE constexpr auto to_unsigned(__int128 n) -> unsigned __int128 {
     return static_cast<unsigned __int128>(n);
 }
-- 
2.43.0


From 4d4c7aa9f6399026780d24ef01836f9da9868ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 35/57] fix: Matrix 4x4 converts from a matrix of another
 element type

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..0e48752 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -65,7 +65,7 @@ public:
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data({column_type(m[0]), column_type(m[1]), column_type(m[2]), column_type(m[3])}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
-- 
2.43.0


From 990431ac8289b1a8519345d992ee5f998cfbc911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 36/57] fix: Matrix products accept operands of another element
 type

---
 include/xme/math/matrices/matrix4x4.hpp | 10 +++++-----
 include/xme/math/matrix.hpp             |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 0e48752..dca0f1d 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -90,10 +90,10 @@ public:
     [[nodiscard]]
     constexpr auto operator*(const Vector<U, 4>& v) const noexcept -> column_type {
         return {
-            math::dot(row(0), v),
-            math::dot(row(1), v),
-            math::dot(row(2), v),
-            math::dot(row(3), v),
+            math::dot(row(0), row_type(v)),
+            math::dot(row(1), row_type(v)),
+            math::dot(row(2), row_type(v)),
+            math::dot(row(3), row_type(v)),
         };
     }
 
@@ -104,7 +104,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < 4; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..9aa9c5e 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -90,7 +90,7 @@ public:
     constexpr auto operator*(const Vector<U, Cols>& v) const noexcept -> column_type {
         column_type result;
         for(std::size_t i = 0; i < Rows; ++i)
-            result[i] = math::dot(this->row(i), v);
+            result[i] = math::dot(this->row(i), row_type(v));
         return result;
     }
     template<typename U, std::size_t Rows2>
@@ -101,7 +101,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < Rows; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = math::dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = math::dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
-- 
2.43.0


From 07129be5a5e69113fe4e2b34d92e5cb750399bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 37/57] fix: rotate does not round 1 - cos to the element type
 of the axis

---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..15c22be 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>{n} * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From c049c8bdddbc0de988051f89effecf1841096541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 38/57] fix: Matrix converts columns of another element type,
 as its deduction guide promises

---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index dca0f1d..93436a1 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,7 +61,7 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({column_type(args)...}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index 9aa9c5e..f266612 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({column_type(args)...}) {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From 2afbd3ae9a5709330ac34263d27e9f6fad1a6e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 39/57] fix: qualify forward_as_tuple in tuple_cat, which was
 ambiguous for elements from namespace std

---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..36a4707 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -146,7 +146,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From 6a730d433f3f1947798d01a0141bf607574e214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 40/57] fix: find vectorises 64-bit elements only where SSE4.1
 is enabled

With XME_SIMD_ENABLE_SSE2 (or SSE3, SSSE3) find over 64-bit elements used
_mm_cmpeq_epi64, an SSE4.1 instruction: it did not compile for the target
the switch names, and would not have run on it.
---
 include/xme/core/algorithm/find.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 1fae832..a84fde1 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -10,8 +10,10 @@
 namespace xme {
 namespace detail {
 //! Types for which two values are equal exactly when their bits are equal.
+//! Comparing 64-bit elements takes SSE4.1.
 template<typename T>
-concept CSimdFindable = (std::is_integral_v<T> || std::is_pointer_v<T>) && sizeof(T) <= 8;
+concept CSimdFindable = (std::is_integral_v<T> || std::is_pointer_v<T>)
+                        && sizeof(T) <= (XME_SIMD_USE_SSE41 ? 8 : 4);
 
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
-- 
2.43.0


From 8475d53b520743a4ba99a4345a71870ba1e7bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 41/57] fix: Tuple elements are reachable where explicit object
 parameters exist

With them operator[] deduced the whole tuple as its object, so that the
member 'value' was ambiguous for every tuple of two or more elements.
The overloads of the other language versions serve all of them.
---
 private/container/tuple_base.hpp | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 317a2be..5507219 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -16,14 +16,6 @@ constexpr auto operator+(TypeList<T...>, TypeList<U...>) {
 
 template<std::size_t I, typename T>
 struct TupleElement {
-#if defined(__cpp_explicit_this_parameter)
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, I>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).value;
-    }
-#else
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) & noexcept -> T& {
         return value;
@@ -38,7 +30,6 @@ struct TupleElement {
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
         return static_cast<T&&>(value);
     }
-#endif
 
     XME_CONSTEXPR20 auto operator<=>(const TupleElement&) const = default;
 
-- 
2.43.0


From 1cbc3429e68a0e5a22fccd9c6ad2a0d597611033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 42/57] fix: bindFront and bindBack of a constant function
 compile and bind the right end

They named the non-existing forwardLike, and bindBack passed its bound
arguments before the call arguments.
---
 include/xme/core/functional/bind.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index aef48a6..bb94ad9 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -149,7 +149,7 @@ constexpr auto bindFront(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);
     };
 }
 #endif
@@ -173,7 +173,7 @@ constexpr auto bindBack(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, std::forward<T>(call_args)..., xme::forward_like<Self>(bound_args)...);
     };
 }
 #endif
-- 
2.43.0


From f11d93bcc0b737d981a03fb21ad8b5a630224414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 43/57] fix: Heap can be built from ranges that do not know
 their size

The constructor takes every input range and asked each for its size, so
a forward_list, a LinkedList or a take_while view did not compile.
---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From 00e973f214d00f1d448c41df48c2654541a63683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 44/57] fix: element access of a const rvalue Tuple or Pair
 keeps the value category

---
 include/xme/container/pair.hpp   | 18 ++++++++++++++++++
 include/xme/container/tuple.hpp  |  5 +++++
 private/container/tuple_base.hpp |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 696f720..a1b4178 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -47,6 +47,12 @@ public:
         return static_cast<T&&>(first);
     }
 
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 0>) const&& noexcept
+      -> const T&& {
+        return static_cast<const T&&>(first);
+    }
+
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) & noexcept -> U& {
         return second;
@@ -61,6 +67,12 @@ public:
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
         return static_cast<U&&>(second);
     }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 1>) const&& noexcept
+      -> const U&& {
+        return static_cast<const U&&>(second);
+    }
 #endif
 
     [[nodiscard]]
@@ -102,6 +114,12 @@ constexpr auto get(Pair<T, U>&& p) noexcept -> decltype(auto) {
     return std::move(p)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename T, typename U>
+[[nodiscard]]
+constexpr auto get(const Pair<T, U>&& p) noexcept -> decltype(auto) {
+    return std::move(p)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename T, typename U>
 constexpr void swap(Pair<T, U>& lhs, Pair<T, U>& rhs) noexcept(noexcept(lhs.swap(rhs))) {
     lhs.swap(rhs);
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 36a4707..3aced81 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -69,6 +69,11 @@ constexpr auto get(Tuple<T...>&& tup) noexcept -> decltype(auto) {
     return std::move(tup)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename... T>
+constexpr auto get(const Tuple<T...>&& tup) noexcept -> decltype(auto) {
+    return std::move(tup)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename... T>
 constexpr void swap(Tuple<T...>& lhs, Tuple<T...>& rhs)
   noexcept((std::is_nothrow_swappable_v<T> && ...)) {
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 5507219..3ec2c93 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -31,6 +31,12 @@ struct TupleElement {
         return static_cast<T&&>(value);
     }
 
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, I>) const&& noexcept
+      -> const T&& {
+        return static_cast<const T&&>(value);
+    }
+
     XME_CONSTEXPR20 auto operator<=>(const TupleElement&) const = default;
 
     XME_CONSTEXPR20 bool operator==(const TupleElement&) const = default;
-- 
2.43.0


From 1ad4c1f5805c5360be6f97cdefc8f9c8c4ad757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 45/57] fix: Tuple and Pair comparisons let exceptions of
 element comparisons through

---
 include/xme/container/pair.hpp  | 4 ++--
 include/xme/container/tuple.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index a1b4178..ea392ab 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -76,10 +76,10 @@ public:
 #endif
 
     [[nodiscard]]
-    XME_CONSTEXPR20 bool operator==(const Pair&) const noexcept = default;
+    XME_CONSTEXPR20 bool operator==(const Pair&) const = default;
 
     [[nodiscard]]
-    XME_CONSTEXPR20 auto operator<=>(const Pair&) const noexcept = default;
+    XME_CONSTEXPR20 auto operator<=>(const Pair&) const = default;
 
     constexpr void swap(Pair& p)
       noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) {
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 3aced81..d7e7fd9 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -30,9 +30,9 @@ public:
         return convert(*this, std::make_index_sequence<size>{});
     }
 
-    XME_CONSTEXPR20 bool operator==(const self&) const noexcept = default;
+    XME_CONSTEXPR20 bool operator==(const self&) const = default;
 
-    XME_CONSTEXPR20 auto operator<=>(const self&) const noexcept = default;
+    XME_CONSTEXPR20 auto operator<=>(const self&) const = default;
 
     constexpr void swap(Tuple& other) noexcept((std::is_nothrow_swappable_v<T> && ...)) {
         swap(other, std::make_index_sequence<size>{});
-- 
2.43.0


From 56c23f026213f903b55856a210e6d5ff3ea0d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 46/57] fix: find over a range lets exceptions of comparisons
 through

---
 include/xme/core/algorithm/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index a84fde1..a32a3f8 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -103,7 +103,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #endif
 }
 template<typename ExecutionPolicy = std::execution::unsequenced_policy, ::ranges::input_range R>
-XME_INLINE constexpr auto find(R&& range, const ::ranges::range_value_t<R>& value) noexcept {
+XME_INLINE constexpr auto find(R&& range, const ::ranges::range_value_t<R>& value) {
     return xme::find<ExecutionPolicy>(::ranges::begin(range), ::ranges::end(range), value);
 }
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From ea2391d919422e72a48b5d02c60235a4b2255c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 47/57] fix: reverse lets exceptions of element exchanges
 through

---
 include/xme/core/algorithm/reverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 1a7afc5..a76c89b 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -44,7 +44,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 }  // namespace detail
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
-XME_INLINE constexpr auto reverse(I i, S s) noexcept {
+XME_INLINE constexpr auto reverse(I i, S s) {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
@@ -69,7 +69,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #endif
 }
 template<::ranges::input_range R>
-XME_INLINE constexpr auto reverse(R&& range) noexcept {
+XME_INLINE constexpr auto reverse(R&& range) {
     return xme::reverse(::ranges::begin(range), ::ranges::end(range));
 }
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From aa5b12a00da56c8f2e71e78a2e295aedeb4f6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 48/57] fix: Heap lets exceptions of comparisons and element
 moves through

---
 include/xme/container/heap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 5bb9321..3855fbc 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -60,7 +60,7 @@ public:
 
     //! Pop the front element and rearrange elements to keep a week sort.
     //! O(log(N)) operation
-    constexpr void pop() noexcept {
+    constexpr void pop() {
         assert(m_array.size() > 0);
         std::ranges::swap(m_array.front(), m_array.back());
         m_array.pop_back();
@@ -101,7 +101,7 @@ private:
         return index * 2 + 2;
     }
 
-    constexpr void heapfy_up(size_type index) noexcept {
+    constexpr void heapfy_up(size_type index) {
         for(auto parent_heap = parent(index); index != 0;) {
             if(!m_compare(m_array[parent_heap], m_array[index]))
                 return;
@@ -112,7 +112,7 @@ private:
         }
     }
 
-    constexpr void heapfy_down(size_type index) noexcept {
+    constexpr void heapfy_down(size_type index) {
         const auto lidx = left_child(index);
         const auto ridx = right_child(index);
 
-- 
2.43.0


From 507ef36154d75d6be851e9ac0349baf4511f2a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 49/57] fix: find and reverse accept contiguous ranges whose
 sentinel is not an iterator in vectorised builds

---
 include/xme/core/algorithm/find.hpp    | 3 ++-
 include/xme/core/algorithm/reverse.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index a32a3f8..36fa924 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -80,7 +80,8 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && detail::CSimdFindable<T>
+    if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
+                 && detail::CSimdFindable<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index a76c89b..baa381c 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -48,7 +48,7 @@ XME_INLINE constexpr auto reverse(I i, S s) {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+    if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S> && sizeof(T) == 1
                  && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
-- 
2.43.0


From 08ea770795da23893b3236c685dc2640a593b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 50/57] fix: tuple_element keeps the constness of scalar
 elements

---
 include/xme/container/tuple.hpp  | 7 ++++---
 private/container/tuple_base.hpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index d7e7fd9..f6f3ea0 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -121,8 +121,8 @@ template<typename T, typename OuterIdx, typename InnerIdx, std::size_t Next, typ
 struct TupleCat;
 template<typename T, std::size_t... OuterIdx, std::size_t... InnerIdx, std::size_t Next>
 struct TupleCat<T, std::index_sequence<OuterIdx...>, std::index_sequence<InnerIdx...>, Next> {
-    using return_t = Tuple<
-      std::tuple_element_t<OuterIdx, std::remove_cvref_t<std::tuple_element_t<InnerIdx, T>>>...>;
+    using return_t = Tuple<std::remove_const_t<
+      std::tuple_element_t<OuterIdx, std::remove_cvref_t<std::tuple_element_t<InnerIdx, T>>>>...>;
     using outer_indices = std::index_sequence<OuterIdx...>;
     using inner_indices = std::index_sequence<InnerIdx...>;
 };
@@ -162,7 +162,8 @@ struct tuple_size<xme::Tuple<T...>> : integral_constant<size_t, sizeof...(T)> {}
 
 template<size_t I, typename... T>
 struct tuple_element<I, xme::Tuple<T...>> {
-    using type = decltype(xme::Tuple<T...>::declval(integral_constant<size_t, I>{}));
+    using type =
+      typename decltype(xme::Tuple<T...>::declval(integral_constant<size_t, I>{}))::type;
 };
 
 template<typename... T, typename... U, template<class> class TQual, template<class> class UQual>
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 3ec2c93..7fb56fb 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -41,7 +41,8 @@ struct TupleElement {
 
     XME_CONSTEXPR20 bool operator==(const TupleElement&) const = default;
 
-    static constexpr T declval(std::integral_constant<std::size_t, I>);
+    // A const T returned by value would lose its const
+    static constexpr std::type_identity<T> declval(std::integral_constant<std::size_t, I>);
 
     [[no_unique_address]]
     T value;
-- 
2.43.0


From 8d7ae3d8aa924bc314e0febc168f954664055b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 51/57] fix: Array grows geometrically when ranges are appended

---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 6dae195..2dd7cc4 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -213,7 +213,7 @@ public:
         if constexpr(std::forward_iterator<Iter>) {
             size_type new_capacity = this->size() + std::ranges::distance(first, last);
             if(new_capacity > capacity()) {
-                grow_storage(new_capacity);
+                grow_storage(std::max(new_capacity, 2 * this->size()));
             }
         }
         for(; first != last; ++first) {
-- 
2.43.0


From ff9a0c55c9bae3502324725d4ae045d9e25215f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 52/57] fix: ArrayView::subview<Offset, Count> precondition no
 longer wraps around

---
 include/xme/container/array_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 30ccffe..6904df8 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -158,9 +158,9 @@ public:
     [[nodiscard]]
     constexpr auto subview() const noexcept -> ArrayView<T, Count> {
         if constexpr(Size == dynamic_size)
-            assert(Count + Offset <= size());
+            assert(Count <= size() && Offset <= size() - Count);
         else
-            static_assert(Count + Offset <= Size);
+            static_assert(Count <= Size && Offset <= Size - Count);
         return ArrayView<T, Count>(m_view + Offset, Count);
     }
 
-- 
2.43.0


From c710964d746a54b28058ffde2ebb852ea6bda1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:43 +0000
Subject: [PATCH 53/57] fix: lerp by an unsigned factor above one no longer
 wraps around

---
 include/xme/math/vectors/functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/vectors/functions.hpp b/include/xme/math/vectors/functions.hpp
index 538800b..b87a147 100644
--- a/include/xme/math/vectors/functions.hpp
+++ b/include/xme/math/vectors/functions.hpp
@@ -17,7 +17,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
     if constexpr(std::is_same_v<std::remove_cv_t<U>, bool>) {
         return percent ? v2 : v1;
     }
-    return v2 * percent + v1 * (1 - percent);
+    return v2 * percent + v1 * (T(1) - percent);
 }
 
 //! Linearly interpolates `v1` and `v2`.
@@ -32,7 +32,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
             result[i] = percent[i] ? v2[i] : v1[i];
         }
         else {
-            result[i] = v2[i] * percent[i] + v1[i] * (1 - percent[i]);
+            result[i] = v2[i] * percent[i] + v1[i] * (T(1) - percent[i]);
         }
     }
     return result;
-- 
2.43.0


From 3d486d029c3e0a1104b1ebabc3ce9687b172cce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 54/57] fix: LinkedList moves take the allocator along with the
 nodes

---
 include/xme/container/linked_list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index a443b28..58f9973 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -79,7 +79,8 @@ public:
     }
 
     //! Constructs a LinkedList by transfering elements from other
-    explicit constexpr LinkedList(LinkedList&& other) noexcept {
+    explicit constexpr LinkedList(LinkedList&& other) noexcept
+      : m_allocator(std::move(other.m_allocator)) {
         m_head.next       = other.m_head.next;
         other.m_head.next = nullptr;
     }
@@ -96,6 +97,8 @@ public:
     constexpr auto operator=(LinkedList&& other) noexcept -> LinkedList& {
         clear();
         ::ranges::swap(m_head.next, other.m_head.next);
+        if constexpr(std::allocator_traits<allocator_type>::propagate_on_container_swap::value)
+            ::ranges::swap(m_allocator, other.m_allocator);
         return *this;
     }
 
-- 
2.43.0


From a7d1a61e4d5972b362e891e2d9e09ed2a4ab3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 55/57] fix: SharedLibrary finds no address when it holds no
 library

---
 include/xme/hal/shared_library.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 2b61307..352d8d5 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -61,7 +61,8 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, std::string(function).c_str());
+        // dlsym would search the whole program for a null handle
+        return (T)(m_library ? dlsym(m_library, std::string(function).c_str()) : nullptr);
 #endif
     }
 
-- 
2.43.0


From e130ec894f7f2475bb41098ca86d06d39a230521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 56/57] fix: Delegate does not build list-constructible
 functors from a list

---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 91692ac..a7db5d7 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -75,7 +75,7 @@ public:
         template<bool local = is_local_storage, typename Fn>
         static constexpr void create_functor(AnyData& f, Fn&& fn) {
             if constexpr(local) {
-                ::new(f.access()) Functor{std::forward<Fn>(fn)};
+                ::new(f.access()) Functor(std::forward<Fn>(fn));
             }
             else {
                 f.template access<Functor*>() = new Functor(std::forward<Fn>(fn));
-- 
2.43.0


From 55a7092d01b5c43eafe0c534a928536ab03cbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 57/57] fix: a tuple can be an element of another tuple

---
 include/xme/container/tuple.hpp  |  5 ++++-
 private/container/tuple_base.hpp | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index f6f3ea0..e1ca8c4 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -22,7 +22,10 @@ public:
 
     template<typename U>
         requires(CTupleLike<U> || std::is_aggregate_v<std::remove_reference_t<U>>)
-                && (!std::same_as<Tuple, U>) && requires(T... args) { U{args...}; }
+                && (!std::same_as<Tuple, U>)
+                // Otherwise a tuple can't be the first element of another one
+                && (!detail::starts_with<std::remove_cvref_t<U>, Tuple>)
+                && requires(T... args) { U{args...}; }
     constexpr operator U() const {
         auto convert = []<typename Tup, std::size_t... I>(Tup&& tup, std::index_sequence<I...>) {
             return U{get<I>(std::forward<Tup>(tup))...};
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 7fb56fb..a13d580 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -66,6 +66,16 @@ struct GetTupleBase<std::index_sequence<I...>, T...> {
     using type = TypeMap<TupleElement<I, T>...>;
 };
 
+// Whether Base is the part of a tuple that starts with an element of type T
+template<typename Base, typename T>
+inline constexpr bool starts_with = false;
+
+template<std::size_t I, typename U, typename T>
+inline constexpr bool starts_with<TupleElement<I, U>, T> = std::is_same_v<std::remove_cvref_t<U>, T>;
+
+template<typename First, typename... Rest, typename T>
+inline constexpr bool starts_with<TypeMap<First, Rest...>, T> = starts_with<First, T>;
+
 template<typename... T>
 using tuple_base = typename GetTupleBase<std::make_index_sequence<sizeof...(T)>, T...>::type;
 }  // namespace xme::detail
-- 
2.43.0

