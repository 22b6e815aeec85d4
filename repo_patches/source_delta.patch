From 5ac582fbb3587469ccbe1024cd2d8731b6b48f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 01/29] fix: qualify range-v3 names so that spsc_queue.hpp and
 container.hpp compile

Once xme/ranges/*.hpp has opened namespace xme::ranges, an unqualified
'ranges::' inside namespace xme no longer finds range-v3. container.hpp,
spsc_queue.hpp, and linked_list.hpp included after array.hpp, did not compile.
---
 include/xme/container/array_view.hpp  | 11 ++++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..c05730b 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,13 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept :
+      ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +223,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 1c652da1397a77b4c094bbc1945004d232f37e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 02/29] fix: uninitialized_copy_a destroys the objects it
 built, not the source

---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From bfa4ee8c089daba060e1c516a1e5edb0463ca3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 03/29] fix: Array moves its elements into new storage by
 construction, and destroys the old ones

---
 include/xme/container/array.hpp | 66 ++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..f5fa4a8 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -286,24 +286,52 @@ private:
         const auto old_size = this->size();
         pointer new_begin   = m_allocator.allocate(n);
 
-        std::ranges::move(*this, new_begin);
-        if(m_data.begin)
-            m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_begin;
-        m_data.end         = new_begin + old_size;
-        m_data.storage_end = new_begin + n;
+        try {
+            uninitialized_move(m_data.begin, m_data.end, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        replace_storage(new_begin, old_size, n);
     }
 
     constexpr void shrink_storage(size_type n) {
         size_type elements_to_move = std::min(this->size(), n);
         pointer new_begin          = m_allocator.allocate(n);
 
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
-        m_allocator.deallocate(m_data.begin, capacity());
+        try {
+            uninitialized_move(m_data.begin, m_data.begin + elements_to_move, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        replace_storage(new_begin, elements_to_move, n);
+    }
+
+    //! Move constructs [first, last) in the uninitialized memory at `out`.
+    //! If a constructor throws, the objects built are destroyed.
+    constexpr void uninitialized_move(pointer first, pointer last, pointer out) {
+        pointer curr = out;
+        try {
+            for(; first != last; ++first, (void)++curr)
+                alloc_traits::construct(m_allocator, curr, std::move(*first));
+        }
+        catch(...) {
+            ranges::destroy_a(out, curr, m_allocator);
+            throw;
+        }
+    }
+
+    //! Destroys the elements, releases the storage, and takes the new one.
+    constexpr void replace_storage(pointer new_begin, size_type size, size_type capacity) noexcept {
+        ranges::destroy_a(*this, m_allocator);
+        if(m_data.begin)
+            m_allocator.deallocate(m_data.begin, this->capacity());
         m_data.begin       = new_begin;
-        m_data.end         = new_begin + elements_to_move;
-        m_data.storage_end = new_begin + n;
+        m_data.end         = new_begin + size;
+        m_data.storage_end = new_begin + capacity;
     }
 
     template<typename... Args>
@@ -312,21 +340,23 @@ private:
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
         const size_type curr_size       = this->size();
         pointer new_start               = m_allocator.allocate(new_size);
+        // The objects built so far are [first, last)
+        pointer first = new_start + elements_before;
+        pointer last  = first;
         try {
             alloc_traits::construct(
               m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            ++last;
+            uninitialized_move(m_data.begin, m_data.begin + elements_before, new_start);
+            first = new_start;
+            uninitialized_move(m_data.begin + elements_before, m_data.end, last);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
+            ranges::destroy_a(first, last, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_start;
-        m_data.end         = new_start + (curr_size + 1);
-        m_data.storage_end = new_start + new_size;
+        replace_storage(new_start, curr_size + 1, new_size);
         return begin() + elements_before;
     }
 
-- 
2.43.0


From 8bef3641d979b54cc8c5c6e1a1c687c093680eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 04/29] fix: Array::erase moves the following elements down
 before destroying the last ones

---
 include/xme/container/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index f5fa4a8..7b69e41 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -264,9 +264,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::ranges::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -275,9 +275,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
+        if(elements == 0)
+            return p;
+        std::ranges::move(p + elements, m_data.end, p);
         m_data.end -= elements;
+        ranges::destroy_n_a(m_data.end, elements, m_allocator);
         return p;
     }
 
-- 
2.43.0


From c49e9648fc39a159ece9f7ea758a00f5ac9bdcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 05/29] fix: Array append and insert accept one of their own
 elements

---
 include/xme/container/array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 7b69e41..f4ff647 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,12 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        // `value` may be an element of this array, so it's taken before any of them moves
+        T element(std::forward<U>(value));
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(element);
         return p;
     }
 
@@ -253,7 +255,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From 4c941a82decca03c56b790743ecfa07fb2a5cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 06/29] fix: Array range insert constructs only raw storage and
 keeps its allocator

---
 include/xme/container/array.hpp | 45 ++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index f4ff647..7aaf9f0 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -2,6 +2,7 @@
 #include "concepts.hpp"
 #include "range/v3/iterator/traits.hpp"
 #include "xme/container/icontainer.hpp"
+#include <algorithm>
 #include <cassert>
 #include <xme/core/iterators/reverse_iterator.hpp>
 #include <xme/ranges/destroy.hpp>
@@ -183,28 +184,48 @@ public:
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
+        if(elements == 0)
+            return p;
         if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
+            Array tmp(capacity() == 0 ? elements : capacity() + elements, m_allocator);
+            size_type elements_before = std::ranges::distance(begin(), iterator(p));
 
             // Must be constructed first, so if it throws we don't break the original
             // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
+            pointer new_first = tmp.m_data.begin + elements_before;
+            pointer new_last  = new_first;
+            try {
+                for(; first != last; ++first, (void)++new_last)
+                    alloc_traits::construct(m_allocator, new_last, *first);
+
+                uninitialized_move(m_data.begin, p, tmp.m_data.begin);
+                new_first = tmp.m_data.begin;
+                uninitialized_move(p, m_data.end, new_last);
+            }
+            catch(...) {
+                ranges::destroy_a(new_first, new_last, m_allocator);
+                throw;
+            }
             tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
             std::ranges::swap(m_data, tmp.m_data);
 
             return begin() + elements_before;
         }
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
+        // The new elements are built after the last one, so if it throws we don't break
+        // the original array
+        const pointer old_end = m_data.end;
+        pointer new_end       = old_end;
+        try {
+            for(; first != last; ++first, (void)++new_end)
+                alloc_traits::construct(m_allocator, new_end, *first);
+        }
+        catch(...) {
+            ranges::destroy_a(old_end, new_end, m_allocator);
+            throw;
+        }
+        m_data.end = new_end;
+        std::rotate(p, old_end, new_end);
         return p;
     }
 
-- 
2.43.0


From 4040b28576e122f28737185cf5c3690cbc830141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 07/29] fix: LinkedList constructors release the nodes already
 built when one throws

---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From e95aff6929e245c7f199a5e016e37d1dd0364a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 08/29] fix: Delegate compiles when copied or made from an
 lvalue

---
 include/xme/core/functional/delegate.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..5dffbdf 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,9 +92,9 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
-            case EOperation::copy:    create_functor(dest, *handle(source)); break;
+            case EOperation::copy:    create_functor(dest, std::as_const(*handle(source))); break;
             case EOperation::destroy: destroy(dest); break;
             }
         }
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
@@ -198,7 +198,7 @@ public:
 private:
     AnyData m_storage{};
     R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From be4ea3b9105080acd61f0b8f2b7f2cb86c6d513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 09/29] fix: Delegate keeps functors that cannot be moved as
 bytes outside its local storage

---
 include/xme/core/functional/delegate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 5dffbdf..7f427fd 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,8 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          && std::is_trivially_copyable_v<Functor>;  // moved and swapped as bytes
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From a5af257beeff4d39cc545bd4a6e1d91aa8eeedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 10/29] fix: Delegate::handle denotes the functor also when it
 is stored outside the Delegate

---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 7f427fd..e2d195c 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -191,7 +191,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From b5e8b0440012cf1cd731646aae5896a9b9bbd3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:23 +0000
Subject: [PATCH 11/29] fix: Delegate assignment lets failures of copying the
 callable through

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e2d195c..ff6de38 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -150,7 +150,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -170,7 +170,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From 9534301ac1bd353e578a1da06588121b66e613b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 12/29] fix: ScopedDelegate constructors let failures of
 copying the callable through

---
 include/xme/core/functional/scoped_delegate.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/scoped_delegate.hpp b/include/xme/core/functional/scoped_delegate.hpp
index 0060a19..2556550 100644
--- a/include/xme/core/functional/scoped_delegate.hpp
+++ b/include/xme/core/functional/scoped_delegate.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <concepts>
+#include <type_traits>
 #include <utility>
 
 namespace xme {
@@ -8,9 +10,11 @@ namespace xme {
 template<std::invocable F>
 class ScopedDelegate {
 public:
-    constexpr ScopedDelegate(F& func) noexcept : m_callable(func) {}
+    constexpr ScopedDelegate(F& func) noexcept(std::is_nothrow_constructible_v<F, F&>) :
+      m_callable(func) {}
 
-    constexpr ScopedDelegate(F&& func) noexcept : m_callable(std::move(func)) {}
+    constexpr ScopedDelegate(F&& func) noexcept(std::is_nothrow_move_constructible_v<F>) :
+      m_callable(std::move(func)) {}
 
     constexpr ~ScopedDelegate() noexcept { m_callable(); }
 
-- 
2.43.0


From ce406a19b8190dd616c45ffbc4fa7c7704262466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 13/29] fix: SharedLibrary::proc_address returns the requested
 pointer type

---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..352e516 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -53,7 +53,7 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         return (T)dlsym(m_library, function.data());
-- 
2.43.0


From 8158ac4ecfde2bdc92125907e778c30cf2a826c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 14/29] fix: SharedLibrary::close forgets the handle and
 releases nothing when nothing is held

---
 include/xme/hal/shared_library.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 352e516..180a763 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -47,7 +47,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From 078924d9dd1d0d6c73e82d2518ff8c5cc8201038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 15/29] fix: SharedLibrary passes exactly the characters of its
 views to the system

---
 include/xme/hal/shared_library.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 180a763..9a742a0 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include "platform_macros.hpp"
 
@@ -25,7 +26,7 @@ public:
         return *this;
     }
 
-    constexpr SharedLibrary(std::string_view lib_name) noexcept { open(lib_name); }
+    constexpr SharedLibrary(std::string_view lib_name) { open(lib_name); }
 
     constexpr ~SharedLibrary() {
         if(m_library)
@@ -40,7 +41,8 @@ public:
     constexpr void open(std::string_view lib_name) {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        // The view may not be null-terminated
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -55,10 +57,10 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> T {
+    constexpr auto proc_address(std::string_view function) const -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From 56cc9f19ad56cbb0261759b1b6d8f10ab17d36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 16/29] fix: SharedLibrary::open releases the library it
 already holds

---
 include/xme/hal/shared_library.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 9a742a0..b8643d6 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -42,7 +42,9 @@ public:
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         // The view may not be null-terminated
-        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
+        const std::string name(lib_name);
+        close();
+        m_library = dlopen(name.c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
-- 
2.43.0


From ec006464d3f5917f510996bb79c04fb1f1b3492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 17/29] fix: environment functions pass exactly the characters
 of their views to the system

---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From 0f102cf54822392104cb09a45614fcba7ebe9dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 18/29] fix: reverse uses the byte shuffle only for one-byte
 elements

---
 include/xme/core/algorithm/reverse.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..b2bdf19 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -49,8 +48,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From f4275ecec7dfe7183acbe8966b161be2a40ea8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 19/29] fix: find loads ranges of any alignment

---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From 1f4f76d68c3cb4c310ce769040d02b7d7cd4cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 20/29] fix: bound callables let failures of copying their
 arguments through

---
 include/xme/core/functional/bind.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..aef48a6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,19 +12,19 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From 5df05684643ac6d821b8833695ccfa64b61aefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 21/29] fix: Pair assignment lets failures of assigning its
 members through

---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..2e01cd8 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(noexcept(first = get<0>(std::forward<P>(p)))
+               && noexcept(second = get<1>(std::forward<P>(p)))) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From 4297b11608f8afb51e972ab7d541bd327fe75727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 22/29] fix: rvalue Pair and Tuple give access to members that
 are rvalue references

---
 include/xme/container/pair.hpp   | 4 ++--
 private/container/tuple_base.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2e01cd8..c310385 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -44,7 +44,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
     }
 
     [[nodiscard]]
@@ -59,7 +59,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
     }
 #endif
 
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..317a2be 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,7 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
     }
 #endif
 
-- 
2.43.0


From e9efe36028b43538e7d7d54bedf6ecf70eac2c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 23/29] fix: tuple_cat compiles for elements whose namespace
 has a forward_as_tuple

---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..36a4707 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -146,7 +146,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From ff9648fb4253aefef070480ac3472253b8f7f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 24/29] fix: delegate.hpp includes <utility> for std::as_const

---
 include/xme/core/functional/delegate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index ff6de38..1056afe 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -3,6 +3,7 @@
 #include <memory>
 #include <array>
 #include <concepts>
+#include <utility>
 #include <xme/core/concepts/different_from.hpp>
 
 namespace xme {
-- 
2.43.0


From 458c2f950ee553aca647af72662a4113be94189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 25/29] fix: Array took only one element of a single-pass range
 and inserted raw storage for the others

---
 include/xme/container/array.hpp | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 7aaf9f0..ca2569c 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -63,6 +63,13 @@ public:
       Array(list.begin(), list.end(), alloc) {}
 
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
+      Array(alloc) {
+        for(; first != last; ++first)
+            emplace_back(*first);
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
       Array(std::ranges::distance(first, last), alloc) {
         auto&& [_, out] = xme::ranges::uninitialized_copy_a(
@@ -181,6 +188,15 @@ public:
     //! It is recommended to never throw on move construcor/assignment.
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
+        const size_type elements_before = const_cast<pointer>(pos.operator->()) - m_data.begin;
+        const size_type old_size        = this->size();
+        push_back(std::move(first), std::move(last));
+        std::rotate(m_data.begin + elements_before, m_data.begin + old_size, m_data.end);
+        return begin() + elements_before;
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
@@ -247,6 +263,26 @@ public:
 
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr void push_back(Iter first, Sent last) {
+        const size_type old_size = this->size();
+        try {
+            for(; first != last && m_data.end != m_data.storage_end; ++first)
+                emplace_back(*first);
+            // How many are left is known only after they were read
+            Array rest(std::move(first), std::move(last), m_allocator);
+            if(!rest.empty())
+                grow_storage(this->size() + rest.size());
+            uninitialized_move(rest.m_data.begin, rest.m_data.end, m_data.end);
+            m_data.end += rest.size();
+        }
+        catch(...) {
+            ranges::destroy_a(m_data.begin + old_size, m_data.end, m_allocator);
+            m_data.end = m_data.begin + old_size;
+            throw;
+        }
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
         size_type new_capacity = this->size() + std::ranges::distance(first, last);
         if(new_capacity > capacity()) {
-- 
2.43.0


From e4f7c1172a74ccaa14118b987f5c4caa7025a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 26/29] fix: Heap could not be made from a range of unknown
 size

---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From b7c6b5cdd7aee21cf165847eac689108a182f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 27/29] fix: Array range insert lost an element when advancing
 the source threw

---
 include/xme/container/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index ca2569c..fd43d37 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -211,7 +211,7 @@ public:
             pointer new_first = tmp.m_data.begin + elements_before;
             pointer new_last  = new_first;
             try {
-                for(; first != last; ++first, (void)++new_last)
+                for(; first != last; ++new_last, (void)++first)
                     alloc_traits::construct(m_allocator, new_last, *first);
 
                 uninitialized_move(m_data.begin, p, tmp.m_data.begin);
@@ -233,7 +233,7 @@ public:
         const pointer old_end = m_data.end;
         pointer new_end       = old_end;
         try {
-            for(; first != last; ++first, (void)++new_end)
+            for(; first != last; ++new_end, (void)++first)
                 alloc_traits::construct(m_allocator, new_end, *first);
         }
         catch(...) {
-- 
2.43.0


From 0c499af15621edafa7b4dc289c07383995b6b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 28/29] fix: elements of const rvalue Pair and Tuple are const
 rvalues

---
 include/xme/container/pair.hpp   | 18 ++++++++++++++++++
 include/xme/container/tuple.hpp  |  5 +++++
 private/container/tuple_base.hpp |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index c310385..ea090b4 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -47,6 +47,12 @@ public:
         return static_cast<T&&>(first);
     }
 
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 0>) const&& noexcept
+      -> const T&& {
+        return static_cast<const T&&>(first);
+    }
+
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) & noexcept -> U& {
         return second;
@@ -61,6 +67,12 @@ public:
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
         return static_cast<U&&>(second);
     }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 1>) const&& noexcept
+      -> const U&& {
+        return static_cast<const U&&>(second);
+    }
 #endif
 
     [[nodiscard]]
@@ -102,6 +114,12 @@ constexpr auto get(Pair<T, U>&& p) noexcept -> decltype(auto) {
     return std::move(p)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename T, typename U>
+[[nodiscard]]
+constexpr auto get(const Pair<T, U>&& p) noexcept -> decltype(auto) {
+    return std::move(p)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename T, typename U>
 constexpr void swap(Pair<T, U>& lhs, Pair<T, U>& rhs) noexcept(noexcept(lhs.swap(rhs))) {
     lhs.swap(rhs);
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 36a4707..3aced81 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -69,6 +69,11 @@ constexpr auto get(Tuple<T...>&& tup) noexcept -> decltype(auto) {
     return std::move(tup)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename... T>
+constexpr auto get(const Tuple<T...>&& tup) noexcept -> decltype(auto) {
+    return std::move(tup)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename... T>
 constexpr void swap(Tuple<T...>& lhs, Tuple<T...>& rhs)
   noexcept((std::is_nothrow_swappable_v<T> && ...)) {
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 317a2be..e1aef3b 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -38,6 +38,12 @@ struct TupleElement {
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
         return static_cast<T&&>(value);
     }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, I>) const&& noexcept
+      -> const T&& {
+        return static_cast<const T&&>(value);
+    }
 #endif
 
     XME_CONSTEXPR20 auto operator<=>(const TupleElement&) const = default;
-- 
2.43.0


From a4c78052f3b2993225d0e36d3589188de2cf5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 29/29] fix: converting an rvalue Tuple moves its members

---
 include/xme/container/tuple.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 3aced81..aa40db4 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -23,11 +23,16 @@ public:
     template<typename U>
         requires(CTupleLike<U> || std::is_aggregate_v<std::remove_reference_t<U>>)
                 && (!std::same_as<Tuple, U>) && requires(T... args) { U{args...}; }
-    constexpr operator U() const {
-        auto convert = []<typename Tup, std::size_t... I>(Tup&& tup, std::index_sequence<I...>) {
-            return U{get<I>(std::forward<Tup>(tup))...};
-        };
-        return convert(*this, std::make_index_sequence<size>{});
+    constexpr operator U() const& {
+        return convert<U>(*this, std::make_index_sequence<size>{});
+    }
+
+    template<typename U>
+        requires(CTupleLike<U> || std::is_aggregate_v<std::remove_reference_t<U>>)
+                && (!std::same_as<Tuple, U>)
+                && requires(T&&... args) { U{std::forward<T>(args)...}; }
+    constexpr operator U() && {
+        return convert<U>(std::move(*this), std::make_index_sequence<size>{});
     }
 
     XME_CONSTEXPR20 bool operator==(const self&) const noexcept = default;
@@ -39,6 +44,11 @@ public:
     }
 
 private:
+    template<typename U, typename Tup, std::size_t... I>
+    static constexpr auto convert(Tup&& tup, std::index_sequence<I...>) -> U {
+        return U{get<I>(std::forward<Tup>(tup))...};
+    }
+
     template<typename Tup, std::size_t... I>
     constexpr void assign_tuple_index(Tup&& tup, std::index_sequence<I...>) {
         (void(detail::TupleElement<I, T>::value = get<I>(std::forward<Tup>(tup))), ...);
-- 
2.43.0

