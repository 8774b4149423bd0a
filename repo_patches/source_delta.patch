From 5ccb6678a200fb059a01b80eee1c04153b8f8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 01/12] fix: devector: deallocate storage from its beginning
 when resetting

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..eb279db 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1394,7 +1394,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From 0c61719b93e0ec0b62482c4cd1880bf411d6e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 02/12] fix: segmented_devector: do not form an iterator before
 the first segment in range insert

---
 include/sfl/segmented_devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..a2e72ca 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2421,10 +2421,11 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
+
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0


From 679609d8a1643ec619b7e7b6a17a3f158fc1b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 03/12] fix: devector: destroy elements constructed in front
 when a shifting insert throws

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index eb279db..f0a965d 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2743,7 +2743,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
-- 
2.43.0


From 104afa9ef4f49ab32583bb624805b108f8309a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 04/12] fix: devector: do not destroy live elements when a
 shifting insert throws

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index f0a965d..80e1cfa 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -3673,7 +3673,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From edd1be1f1ade59a7d6807556f46bf39639edafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 05/12] fix: compact_vector: deallocate the right amount of
 storage when assign throws

---
 include/sfl/compact_vector.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..72889ed 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1205,7 +1205,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
@@ -1266,7 +1275,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From f5ba8f616d7ea6e7482daa3a59d9d12322951c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 06/12] fix: static flat containers: keep order and uniqueness
 in operator=(initializer_list)

---
 include/sfl/static_flat_map.hpp           | 4 +++-
 include/sfl/static_flat_multimap.hpp      | 4 +++-
 include/sfl/static_flat_multiset.hpp      | 4 +++-
 include/sfl/static_flat_set.hpp           | 4 +++-
 include/sfl/static_unordered_flat_map.hpp | 4 +++-
 include/sfl/static_unordered_flat_set.hpp | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..d106e17 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,9 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..786d5e9 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,9 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..66f1831 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,9 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..691a774 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,9 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..d284579 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,9 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..1e66380 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,9 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From 5a267a8aa5e4951a9637ebf1e008d97754bdeb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:22 +0000
Subject: [PATCH 07/12] fix: unordered flat containers: remove the new element
 when the key comparison throws in emplace

---
 include/sfl/small_unordered_flat_map.hpp  | 7 +++++++
 include/sfl/small_unordered_flat_set.hpp  | 7 +++++++
 include/sfl/static_unordered_flat_map.hpp | 7 +++++++
 include/sfl/static_unordered_flat_set.hpp | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..ffdc644 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1733,8 +1733,15 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            pop_back();
+        });
+
         const auto it2 = find(it1->first);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..41e0c9d 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1486,8 +1486,15 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            pop_back();
+        });
+
         const auto it2 = find(*it1);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index d284579..36143c6 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1023,8 +1023,15 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            pop_back();
+        });
+
         const auto it2 = find(it1->first);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 1e66380..f739021 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -765,8 +765,15 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
+
+        const auto guard = sfl::dtl::make_scope_guard([&](){
+            pop_back();
+        });
+
         const auto it2 = find(*it1);
 
+        guard.dismiss();
+
         const bool is_unique = it1 == it2;
 
         if (!is_unique)
-- 
2.43.0


From 9fc9dd77875ce91f8bdcdda0734de017c80c59aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:15 +0000
Subject: [PATCH 08/12] fix: segmented containers: swap exchanges propagated
 allocators once, not twice

---
 include/sfl/segmented_devector.hpp | 7 ++++++-
 include/sfl/segmented_vector.hpp   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index a2e72ca..7caa361 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,12 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Allocators are swapped above, if needed. Swap everything else.
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..bbbc09f 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,12 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Allocators are swapped above, if needed. Swap everything else.
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From b61d7a818467516e980700c1613b30bcb25206ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:06 +0000
Subject: [PATCH 09/12] fix: devector, compact_vector: value argument of
 insert(n) and resize may refer to an own element

---
 include/sfl/compact_vector.hpp |  5 ++++-
 include/sfl/devector.hpp       | 21 ++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 72889ed..95910e4 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,6 +842,9 @@ public:
         {
             if (n > size())
             {
+                // Argument "value" may refer to an element of this container.
+                const value_type tmp(value);
+
                 new_last = sfl::dtl::uninitialized_move_if_noexcept_a
                 (
                     data_.ref_to_alloc(),
@@ -855,7 +858,7 @@ public:
                     data_.ref_to_alloc(),
                     new_last,
                     n - size(),
-                    value
+                    tmp
                 );
             }
             else if (n < size())
diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 80e1cfa..13cad25 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,9 @@ public:
                 }
                 else
                 {
+                    // Argument "value" may refer to an element of this container.
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1024,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1032,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1096,6 +1099,9 @@ public:
         }
         else
         {
+            // Argument "value" may refer to an element of this container.
+            const value_type tmp(value);
+
             const size_type available_front = this->available_front();
 
             if (n > size + available_front)
@@ -1110,7 +1116,7 @@ public:
                 data_.ref_to_alloc(),
                 new_first,
                 data_.first_,
-                value
+                tmp
             );
 
             data_.first_ = new_first;
@@ -1171,6 +1177,9 @@ public:
         }
         else
         {
+            // Argument "value" may refer to an element of this container.
+            const value_type tmp(value);
+
             const size_type available_back = this->available_back();
 
             if (n > size + available_back)
@@ -1183,7 +1192,7 @@ public:
                 data_.ref_to_alloc(),
                 data_.last_,
                 n - size,
-                value
+                tmp
             );
         }
     }
@@ -4049,7 +4058,9 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        // Argument "value" may refer to an element of this container.
+        const value_type tmp(value);
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From e76975d2d06e308609684d26ed527459d2324a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:59 +0000
Subject: [PATCH 10/12] fix: segmented containers: do not let max_size() -
 capacity() wrap around

Storage grows by whole segments, so capacity() can pass a max_size() that is
no whole number of segments; from then on the subtraction wrapped around and
no length was ever refused.
---
 include/sfl/segmented_devector.hpp | 4 ++--
 include/sfl/segmented_vector.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 7caa361..2b6594c 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1331,7 +1331,7 @@ private:
     //
     void grow_storage_front(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (max_size() < capacity() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_front");
         }
@@ -1419,7 +1419,7 @@ private:
     //
     void grow_storage_back(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (max_size() < capacity() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_back");
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index bbbc09f..c0de97e 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -960,7 +960,7 @@ private:
     //
     void grow_storage(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (max_size() < capacity() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_vector::grow_storage");
         }
-- 
2.43.0


From 086dde41368f1e0a92158361fbac44e108c06baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:43 +0000
Subject: [PATCH 11/12] fix: small containers: compile with allocators whose
 size_type is not std::size_t

std::max(N, ...) deduced two different types, so no insertion compiled.
---
 include/sfl/small_flat_map.hpp                | 4 ++--
 include/sfl/small_flat_multimap.hpp           | 4 ++--
 include/sfl/small_flat_multiset.hpp           | 4 ++--
 include/sfl/small_flat_set.hpp                | 4 ++--
 include/sfl/small_unordered_flat_map.hpp      | 4 ++--
 include/sfl/small_unordered_flat_multimap.hpp | 4 ++--
 include/sfl/small_unordered_flat_multiset.hpp | 4 ++--
 include/sfl/small_unordered_flat_set.hpp      | 4 ++--
 include/sfl/small_vector.hpp                  | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..a734854 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1514,11 +1514,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..bd535bd 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1332,11 +1332,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..013edb2 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1259,11 +1259,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..76ad558 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1280,11 +1280,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index ffdc644..dd1b0ab 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1435,11 +1435,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..0978e22 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1294,11 +1294,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..43c19ec 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1208,11 +1208,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 41e0c9d..143a97d 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1188,11 +1188,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..8d56c7b 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1562,11 +1562,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
-- 
2.43.0


From a0a496f3f0bd09e214ada92417d9f4fe5b9189a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:59 +0000
Subject: [PATCH 12/12] fix: small containers: max_size() is at least N

The elements stored inside need no allocator. With an allocator whose
max_size() is less than N the container held more than max_size() elements
and max_size - size wrapped around, so that no length was refused.
---
 include/sfl/small_flat_map.hpp                | 10 +++++++---
 include/sfl/small_flat_multimap.hpp           | 10 +++++++---
 include/sfl/small_flat_multiset.hpp           | 10 +++++++---
 include/sfl/small_flat_set.hpp                | 10 +++++++---
 include/sfl/small_unordered_flat_map.hpp      | 10 +++++++---
 include/sfl/small_unordered_flat_multimap.hpp | 10 +++++++---
 include/sfl/small_unordered_flat_multiset.hpp | 10 +++++++---
 include/sfl/small_unordered_flat_set.hpp      | 10 +++++++---
 include/sfl/small_vector.hpp                  | 10 +++++++---
 9 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index a734854..26ce72c 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -596,10 +596,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index bd535bd..5d71f43 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -596,10 +596,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 013edb2..5c7433f 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -543,10 +543,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 76ad558..761d55d 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -543,10 +543,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index dd1b0ab..b09eb65 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -565,10 +565,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 0978e22..c4939da 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -564,10 +564,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 43c19ec..4ad6213 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -499,10 +499,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 143a97d..2e50b46 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -499,10 +499,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 8d56c7b..fa40cb6 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -432,10 +432,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
-- 
2.43.0

