From b1c028d00ccc60b09f7bf530bbfe92e30b6d22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 01/81] fix: group15/16_flat_map::insert(first, last) inserted
 *first repeatedly instead of every element

---
 src/jstd/hashmap/group15_flat_map.hpp | 2 +-
 src/jstd/hashmap/group16_flat_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..475d41e 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -458,7 +458,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..6180de4 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -455,7 +455,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From f2ef1738b9ebb54095dbf93e250d1260e9cda496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 02/81] fix: group15/16_flat_map::insert_or_assign() did not
 compile (private access, ->first on a pair) and moved from lvalue keys

---
 src/jstd/hashmap/group15_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++----
 src/jstd/hashmap/group16_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group16_flat_table.hpp |  8 ++++----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 475d41e..2e3a999 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..38c21d0 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -922,25 +922,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 6180de4..a257749 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..81606f3 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -870,25 +870,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From caf03523bda66420291cc14a3f1637c82bd16e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 03/81] fix: group15/16_flat_map::try_emplace(hint, ...) did
 not compile (pair returned as iterator)

---
 src/jstd/hashmap/group15_flat_map.hpp | 10 +++++-----
 src/jstd/hashmap/group16_flat_map.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 2e3a999..30f7472 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -573,13 +573,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(hint, key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -592,7 +592,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -604,9 +604,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index a257749..2b34182 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -570,13 +570,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(hint, key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -589,7 +589,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -601,9 +601,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
-- 
2.43.0


From e45a28fe8c6c0980b26c35fe5d5a663123a22f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 04/81] fix: group15/16_flat_map insert()/emplace() of an
 lvalue pair moved from the caller's object

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 38c21d0..43ab6a5 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2546,7 +2546,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 81606f3..8f19907 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2376,7 +2376,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From d9563ab0854090d465d12d13bf8174f01100fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 05/81] fix: group15/16_flat_map emplace(args...) destroyed the
 temporary element twice

---
 src/jstd/hashmap/group15_flat_table.hpp | 5 ++++-
 src/jstd/hashmap/group16_flat_table.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 43ab6a5..7065c1d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2714,7 +2714,10 @@ private:
                 slot->value.second = std::move(tmp_slot->value.second);
             }
         }
-        SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
+        if (!need_insert) {
+            // transfer() has already destroyed the temporary slot.
+            SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
+        }
         return { locator, need_insert };
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 8f19907..f025fd7 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2541,7 +2541,10 @@ private:
                 slot->value.second = std::move(tmp_slot->value.second);
             }
         }
-        SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
+        if (!need_insert) {
+            // transfer() has already destroyed the temporary slot.
+            SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
+        }
         return { this->iterator_at(slot_index), need_insert };
     }
 
-- 
2.43.0


From 51bd80fa7bedb573a0f40d2b46a70c61d02fc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 06/81] fix: group15/16_flat_map move constructor did not
 compile (no get_ctrl_allocator_ref())

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 7065c1d..9460734 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index f025fd7..f62575b 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-- 
2.43.0


From 31ec7f2f603937f7e853eff6c75cc2cf68fbb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 07/81] fix: group15/16_flat_map copy constructor/assignment
 and allocator-extended move did not compile; same-capacity copy kept size 0

---
 src/jstd/hashmap/flat_map_iterator.hpp  |   4 +-
 src/jstd/hashmap/group15_flat_table.hpp | 231 +-----------------------
 src/jstd/hashmap/group16_flat_table.hpp | 183 ++-----------------
 3 files changed, 23 insertions(+), 395 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..8a73fde 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -218,7 +218,7 @@ public:
     }
 
     inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
+        return const_cast<hashmap_type *>(this->hashmap_);
     }
 
     inline const hashmap_type * hashmap() const noexcept {
@@ -231,7 +231,7 @@ public:
 
     inline ctrl_type * ctrl() noexcept {
         const ctrl_type * _ctrl = this->hashmap_->ctrl_at(this->index_);
-        return const_cast<slot_type *>(_ctrl);
+        return const_cast<ctrl_type *>(_ctrl);
     }
 
     inline const ctrl_type * ctrl() const noexcept {
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 9460734..812ffe3 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1654,7 +1654,11 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
+        static constexpr bool is_slot_trivial_copyable =
+            std::is_trivially_copy_constructible<element_type>::value &&
+            (jstd::is_std_allocator<Allocator>::value ||
+            !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value);
+        if (is_slot_trivial_copyable && (this->ctrl_capacity() == other.ctrl_capacity())) {
             this->fast_copy_slots_from(other);
         } else {
             try {
@@ -1675,6 +1679,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1706,93 +1712,16 @@ private:
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group15_flat_table const & other) {
-        this->copy_slots_array_from(
-            other,
-            std::integral_constant<bool, std::is_trivially_copy_constructible<element_type>::value &&
-                                        (jstd::is_std_allocator<Allocator>::value ||
-                                        !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value)>{}
-        );
-    }
-
-    JSTD_FORCED_INLINE
-    void copy_slots_array_from(group15_flat_table const & other, std::true_type /* -> memcpy */) {
         /*
          * reinterpret_cast: GCC may complain about value_type not being trivially
          * copy-assignable when we're relying on trivial copy constructibility.
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
-    JSTD_FORCED_INLINE
-    void copy_slots_array_from(group15_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
-        const slot_type * other_slot = other.slots();
-        slot_type * slot = this->slots();
-        ssize_type index = 0;
-
-        try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                        SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                    } else {
-                        break;
-                    }
-                }
-                ++index;
-                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
-                    ++ctrl;
-                } else {
-                    ctrl += 2;
-                }
-            }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw;
-        }
-    }
-
     //
     // move_slots_from()
     //
@@ -1801,150 +1730,10 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
-                this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void fast_move_slots_from(group15_flat_table & other) {
-        if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
-            move_slots_array_from(other);
-        } else {
-            assert(false);
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group15_flat_table & other) {
-        this->move_slots_array_from(
-            other,
-            std::integral_constant<bool, std::is_trivially_copy_constructible<element_type>::value &&
-                                        (jstd::is_std_allocator<Allocator>::value ||
-                                        !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value)>{}
-        );
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group15_flat_table & other, std::true_type /* -> memcpy */) {
-        /*
-         * reinterpret_cast: GCC may complain about value_type not being trivially
-         * copy-assignable when we're relying on trivial copy constructibility.
-         */
-        std::memcpy(
-            reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
-            other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
-        slot_type * other_slot = other.slots();
-        slot_type * slot = this->slots();
-        ssize_type index = 0;
-
         try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                        SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                        other.destroy_slot(&other_slot[index]);
-                    } else {
-                        break;
-                    }
-                }
-                ++index;
-                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
-                    ++ctrl;
-                } else {
-                    ctrl += 2;
-                }
-            }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
+            this->move_unique_insert(other, other.begin(), other.end());
         } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
+            this->destroy<true>();
             throw;
         }
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index f62575b..64e2ff2 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1599,7 +1599,11 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
+        static constexpr bool is_slot_trivial_copyable =
+            std::is_trivially_copy_constructible<element_type>::value &&
+            (jstd::is_std_allocator<Allocator>::value ||
+            !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value);
+        if (is_slot_trivial_copyable && (this->slot_capacity() == other.slot_capacity())) {
             this->fast_copy_slots_from(other);
         } else {
             try {
@@ -1620,6 +1624,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1649,69 +1655,16 @@ private:
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group16_flat_table const & other) {
-        this->copy_slots_array_from(
-            other,
-            std::integral_constant<bool, std::is_trivially_copy_constructible<element_type>::value &&
-                                        (jstd::is_std_allocator<Allocator>::value ||
-                                        !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value)>{}
-        );
-    }
-
-    JSTD_FORCED_INLINE
-    void copy_slots_array_from(group16_flat_table const & other, std::true_type /* -> memcpy */) {
         /*
          * reinterpret_cast: GCC may complain about value_type not being trivially
          * copy-assignable when we're relying on trivial copy constructibility.
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
-    JSTD_FORCED_INLINE
-    void copy_slots_array_from(group16_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
-        const slot_type * other_slot = other.slots();
-        slot_type * slot = this->slots();
-        ssize_type index = 0;
-
-        try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                }
-                ++index;
-                ++ctrl;
-            }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw;
-        }
-    }
-
     //
     // move_slots_from()
     //
@@ -1720,124 +1673,10 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
-                this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void fast_move_slots_from(group16_flat_table & other) {
-        if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
-            move_slots_array_from(other);
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group16_flat_table & other) {
-        this->move_slots_array_from(
-            other,
-            std::integral_constant<bool, std::is_trivially_copy_constructible<element_type>::value &&
-                                        (jstd::is_std_allocator<Allocator>::value ||
-                                        !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value)>{}
-        );
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group16_flat_table & other, std::true_type /* -> memcpy */) {
-        /*
-         * reinterpret_cast: GCC may complain about value_type not being trivially
-         * copy-assignable when we're relying on trivial copy constructibility.
-         */
-        std::memcpy(
-            reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
-            other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
-        slot_type * other_slot = other.slots();
-        slot_type * slot = this->slots();
-        ssize_type index = 0;
-
         try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                    other.destroy_slot(&other_slot[index]);
-                }
-                ++index;
-                ++ctrl;
-            }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
+            this->move_unique_insert(other, other.begin(), other.end());
         } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
+            this->destroy<true>();
             throw;
         }
     }
@@ -2330,7 +2169,7 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(&other, old_slot);
         }
     }
 
-- 
2.43.0


From dec4467df59ab4ce512dcba8913c2842144ed68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 08/81] fix: group15/16_flat_map::reserve(0) destroyed every
 element

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 ++--
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 812ffe3..45c800d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -733,7 +733,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
@@ -752,7 +752,7 @@ public:
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 64e2ff2..307fadf 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -669,7 +669,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
-- 
2.43.0


From ad5c0b8666360b4d09c4f22aac4e43fbdbe43845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 09/81] fix: group15_flat_map::clear() wrote to the shared
 read-only empty groups; bucket() did not compile

---
 src/jstd/hashmap/group15_flat_table.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 45c800d..83d9bab 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -598,8 +598,11 @@ public:
     }
 
     size_type bucket(const key_type & key) const {
-        size_type ctrl_index = this->find_impl(key);
-        return ctrl_index;
+        locator_t locator = this->find_impl(key);
+        if (locator.slot() != nullptr)
+            return this->index_of(locator.slot());
+        else
+            return this->bucket_count();
     }
 
     ///
@@ -1584,10 +1587,12 @@ private:
     void clear_data() {
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
-        this->clear_groups(this->groups(), this->group_capacity());
+        if (this->groups() != this_type::default_empty_groups()) {
+            this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+            // Set the sentinel mark
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 5fb46bb97b2d298d95a7fde539cd295a63c9c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 10/81] fix: group15/16_flat_map erase(iterator), erase(range),
 erase(keys) and std::erase_if() did not compile or walked the wrong way

---
 src/jstd/hashmap/group15_flat_map.hpp   | 36 +++++++++----------------
 src/jstd/hashmap/group15_flat_table.hpp |  9 ++++---
 src/jstd/hashmap/group16_flat_map.hpp   | 32 +++++++++-------------
 3 files changed, 31 insertions(+), 46 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 30f7472..c825164 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -618,35 +618,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,9 +646,8 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
-        for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*iter));
+        for (; first != last; ++first) {
+            num_deleted += static_cast<size_type>(this->erase(*first));
         }
         return num_deleted;
     }
@@ -722,13 +712,13 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 83d9bab..66cad86 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1011,10 +1011,13 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        iterator next(pos);
+        ++next;
+        ctrl_type * ctrl = pos.ctrl();
+        size_type ctrl_index = this->index_of(ctrl);
+        locator_t locator(this->group_by_ctrl_index(ctrl_index), ctrl_index % kGroupWidth, pos.slot());
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        return next;
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 2b34182..9351a8d 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -615,34 +615,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -653,7 +645,7 @@ public:
         size_type num_deleted = 0;
         InputIter iter = first;
         for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+            num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
     }
@@ -718,13 +710,13 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
-- 
2.43.0


From 916dcacffaa8fb7a5d06bb597e8698875b26ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 11/81] fix: group16_flat_map threshold drifted above the
 capacity under erase/insert churn, so insert() could loop forever

---
 src/jstd/hashmap/group16_flat_table.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 307fadf..dd4f80c 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2024,7 +2024,10 @@ private:
                 if (!IsNoCheck) {
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
-                    bool is_deleted_slot = group->is_overflow(ctrl_hash);
+                    // But the deleted element may have had another overflow bit, in that case
+                    // its erasure did not lower the threshold: never exceed the original one.
+                    bool is_deleted_slot = group->is_overflow(ctrl_hash) &&
+                        (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity()));
                     this->slot_threshold_ += is_deleted_slot;
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
-- 
2.43.0


From 42850c3822bb44fd37738933fbd0a2dcbbbdbbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 12/81] fix: group15/16_flat_map a throwing element constructor
 left a bogus occupied slot behind

---
 src/jstd/hashmap/group15_flat_table.hpp | 82 +++++++++++++++----------
 src/jstd/hashmap/group16_flat_table.hpp | 82 +++++++++++++++----------
 2 files changed, 96 insertions(+), 68 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 66cad86..1fda04c 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2301,6 +2301,24 @@ private:
         }
     }
 
+    //
+    // Construct a new element in the slot that find_or_insert() has just occupied,
+    // and release the slot again if the constructor throws.
+    //
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(locator_t & locator, Args && ... args) {
+        try {
+            slot_type * slot = locator.slot();
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+            this->slot_size_++;
+        } catch (...) {
+            this->slot_size_++;
+            this->reset_ctrl(locator);
+            throw;
+        }
+    }
+
     template <bool AlwaysUpdate, typename ValueT, typename std::enable_if<
               (jstd::is_same_ex<ValueT, value_type>::value ||
                std::is_constructible<value_type, const ValueT &>::value) ||
@@ -2315,8 +2333,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(locator, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2343,8 +2360,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2383,10 +2399,9 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2422,11 +2437,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2460,11 +2474,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2494,6 +2507,14 @@ private:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
+        // Destroy the (maybe moved-from) temporary slot on every way out.
+        struct tmp_slot_guard {
+            slot_allocator_type & alloc;
+            slot_type * slot;
+            ~tmp_slot_guard() { SlotPolicyTraits::destroy(&alloc, slot); }
+        } guard = { this->slot_allocator_, tmp_slot };
+        JSTD_UNUSED(guard);
+
         auto find_info = this->find_or_insert(tmp_slot->get_key());
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
@@ -2502,8 +2523,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(locator, tmp_slot);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2511,10 +2531,6 @@ private:
                 slot->value.second = std::move(tmp_slot->value.second);
             }
         }
-        if (!need_insert) {
-            // transfer() has already destroyed the temporary slot.
-            SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
-        }
         return { locator, need_insert };
     }
 
@@ -2531,11 +2547,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { locator, need_insert };
     }
@@ -2551,11 +2566,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { locator, need_insert };
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index dd4f80c..49a0fbf 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2176,6 +2176,24 @@ private:
         }
     }
 
+    //
+    // Construct a new element in the slot that find_or_insert() has just occupied,
+    // and release the slot again if the constructor throws.
+    //
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(size_type slot_index, Args && ... args) {
+        try {
+            slot_type * slot = this->slot_at(slot_index);
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+            this->slot_size_++;
+        } catch (...) {
+            this->slot_size_++;
+            this->reset_ctrl(slot_index);
+            throw;
+        }
+    }
+
     template <bool AlwaysUpdate, typename ValueT, typename std::enable_if<
               (jstd::is_same_ex<ValueT, value_type>::value ||
                std::is_constructible<value_type, const ValueT &>::value) ||
@@ -2190,8 +2208,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2218,8 +2235,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2257,10 +2273,9 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2295,11 +2310,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2332,11 +2346,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2366,6 +2379,14 @@ private:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
+        // Destroy the (maybe moved-from) temporary slot on every way out.
+        struct tmp_slot_guard {
+            slot_allocator_type & alloc;
+            slot_type * slot;
+            ~tmp_slot_guard() { SlotPolicyTraits::destroy(&alloc, slot); }
+        } guard = { this->slot_allocator_, tmp_slot };
+        JSTD_UNUSED(guard);
+
         auto find_info = this->find_or_insert(tmp_slot->value.first);
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
@@ -2374,8 +2395,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
 
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, tmp_slot);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2383,10 +2403,6 @@ private:
                 slot->value.second = std::move(tmp_slot->value.second);
             }
         }
-        if (!need_insert) {
-            // transfer() has already destroyed the temporary slot.
-            SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
-        }
         return { this->iterator_at(slot_index), need_insert };
     }
 
@@ -2402,11 +2418,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot_index), need_insert };
     }
@@ -2421,11 +2436,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot_index), need_insert };
     }
-- 
2.43.0


From 23628fd86d0c5c2d48fa235e156fa1a58bd15cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 13/81] fix: group16_flat_map leaked the new groups when
 allocating the new slots failed

---
 src/jstd/hashmap/group16_flat_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 49a0fbf..596fd1b 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1788,7 +1788,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
-- 
2.43.0


From ee6ffd00419eca483084e084cf45895e4351c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 14/81] fix: group15/16_flat_map::reserve(n) was rounded down,
 so inserting n elements could rehash

---
 src/jstd/hashmap/group15_flat_table.hpp | 8 ++++++--
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 1fda04c..d1670dc 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1301,8 +1301,12 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
-        return new_capacity;
+        if (init_capacity == 0)
+            return 0;
+        // Each group only has kGroupSize slots, and the last slot is the sentinel mark.
+        size_type num_slots = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
+        size_type num_groups = (num_slots + 1 + kGroupSize - 1) / kGroupSize;
+        return (num_groups * kGroupWidth);
     }
 
     static inline bool is_positive(size_type value) noexcept {
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 596fd1b..009abad 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1220,7 +1220,7 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
 
-- 
2.43.0


From a5050d682fb754981bbe552664649297d5e2bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 15/81] fix: group15/16_flat_map::max_load_factor(z) doubled
 the capacity on every call

---
 src/jstd/hashmap/group15_flat_table.hpp | 13 ++++++++++++-
 src/jstd/hashmap/group16_flat_table.hpp | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index d1670dc..7aa79ce 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -627,12 +627,23 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
+        if (this->slots() == nullptr) {
+            this->mlf_ = mlf_int;
+            return;
+        }
+
+        size_type old_threshold = this->calc_slot_threshold(this->slot_capacity());
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
+        size_type new_capacity = this->shrink_to_fit_capacity(this->size());
         size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
         if (new_ctrl_capacity > this->ctrl_capacity()) {
             this->rehash(new_ctrl_capacity);
+        } else {
+            // Keep the part of the threshold which is lost by the erased slots.
+            size_type lost_slots = old_threshold - this->slot_threshold();
+            size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
+            this->slot_threshold_ = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 009abad..91ffe5e 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -583,12 +583,23 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
+        if (this->slots() == nullptr) {
+            this->mlf_ = mlf_int;
+            return;
+        }
+
+        size_type old_threshold = this->calc_slot_threshold(this->slot_capacity());
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
+        size_type new_capacity = this->shrink_to_fit_capacity(this->size());
         size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
         if (new_ctrl_capacity > this->ctrl_capacity()) {
             this->rehash(new_ctrl_capacity);
+        } else {
+            // Keep the part of the threshold which is lost by the erased slots.
+            size_type lost_slots = old_threshold - this->slot_threshold();
+            size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
+            this->slot_threshold_ = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
         }
     }
 
-- 
2.43.0


From 0702e98dc14681093cff7eae52dd94b34ca037f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 16/81] fix: group15/16_flat_map assignment took over storage
 without its allocator when POCCA/POCMA differ from POCS

---
 src/jstd/hashmap/group15_flat_table.hpp | 22 +++++++++++++++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 7aa79ce..72aac46 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -416,7 +416,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template assign_impl<AllocTraits::propagate_on_container_copy_assignment::value>(tmp);
         return *this;
     }
 
@@ -2649,7 +2649,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template assign_impl<true>(tmp);
         }
         return *this;
     }
@@ -2658,7 +2658,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template assign_impl<false>(tmp);
         }
         return *this;
     }
@@ -2707,6 +2707,22 @@ private:
         this->swap_content(other);
         this->swap_policy(other);
     }
+
+    //
+    // Used by copy/move assignment, the storage of [tmp] must be
+    // accompanied by the allocator which it comes from.
+    //
+    template <bool PropagateAllocator>
+    JSTD_FORCED_INLINE
+    void assign_impl(this_type & tmp) noexcept {
+        this->swap_impl(tmp);
+        if (PropagateAllocator && !AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(this->allocator_, tmp.get_allocator_ref());
+            swap(this->group_allocator_, tmp.get_group_allocator_ref());
+            swap(this->slot_allocator_, tmp.get_slot_allocator_ref());
+        }
+    }
 };
 
 } // namespace jstd
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 91ffe5e..86a507b 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -403,7 +403,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template assign_impl<AllocTraits::propagate_on_container_copy_assignment::value>(tmp);
         return *this;
     }
 
@@ -2508,7 +2508,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template assign_impl<true>(tmp);
         }
         return *this;
     }
@@ -2517,7 +2517,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template assign_impl<false>(tmp);
         }
         return *this;
     }
@@ -2564,6 +2564,22 @@ private:
         this->swap_content(other);
         this->swap_policy(other);
     }
+
+    //
+    // Used by copy/move assignment, the storage of [tmp] must be
+    // accompanied by the allocator which it comes from.
+    //
+    template <bool PropagateAllocator>
+    JSTD_FORCED_INLINE
+    void assign_impl(this_type & tmp) noexcept {
+        this->swap_impl(tmp);
+        if (PropagateAllocator && !AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(this->allocator_, tmp.get_allocator_ref());
+            swap(this->group_allocator_, tmp.get_group_allocator_ref());
+            swap(this->slot_allocator_, tmp.get_slot_allocator_ref());
+        }
+    }
 };
 
 } // namespace jstd
-- 
2.43.0


From 5a5f4e59b7e6d469ee2d23872c2fd7f4c77d1c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 17/81] fix: robin_hash_map
 insert(initializer_list)/insert_or_assign(hint, ...) did not compile,
 insert_or_assign() moved from lvalue keys

---
 src/jstd/hashmap/robin_hash_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..83ba06d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3603,8 +3603,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -3615,7 +3615,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
@@ -3625,17 +3625,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From a312704107d5fb823d783534486bc6e21e52d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 18/81] fix: robin_hash_map erase(iterator), erase(first, last)
 and std::erase_if() did not compile

---
 src/jstd/hashmap/robin_hash_map.h | 68 ++++++++++++++-----------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 83ba06d..c362e18 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2861,10 +2861,6 @@ public:
             return { this->owner_, this->index_ };
         }
 #endif
-        this_type * owner() {
-            return this->owner_;
-        }
-
         const this_type * owner() const {
             return this->owner_;
         }
@@ -2878,18 +2874,18 @@ public:
         }
 
         ctrl_type * ctrl() {
-            ctrl_type * _ctrl = const_cast<this_type *>(this->owner_)->ctrl_at(this->index);
+            ctrl_type * _ctrl = const_cast<this_type *>(this->owner_)->ctrl_at(this->index_);
             return _ctrl;
         }
 
         const ctrl_type * ctrl() const {
-            const ctrl_type * _ctrl = this->owner_->ctrl_at(this->index);
+            const ctrl_type * _ctrl = this->owner_->ctrl_at(this->index_);
             return _ctrl;
         }
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
@@ -3727,43 +3723,33 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
-            size_type ctrl_index = this->index_of(pos);
-            this->erase_slot(ctrl_index);
-            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-            return this->next_valid_iterator(ctrl, pos);
-        } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
-        }
+        return this->erase(const_iterator(pos));
     }
 
     iterator erase(const_iterator pos) {
-        return this->erase(iterator(pos));
+        size_type ctrl_index = this->index_of(pos);
+        if (!kIsIndirectKV) {
+            // The elements behind may be shifted backward to the erased slot.
+            this->erase_slot(ctrl_index);
+            return this->next_valid_iterator(this->ctrl_at(ctrl_index), this->iterator_at(ctrl_index));
+        } else {
+            // The last element is moved to the erased slot.
+            slot_type * slot = const_cast<slot_type *>(pos.slot());
+            this->indirect_erase_slot(ctrl_index);
+            return this->iterator_at(slot);
+        }
     }
 
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
-            }
-        } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
-            }
+        // Needs to be traversed from the last to the first, because the erasure
+        // only moves the elements that is behind the erased slot.
+        while (first != last) {
+            --last;
+            iterator next = this->erase(last);
+            if (first == last)
+                return next;
         }
-        return { first };
+        return this->iterator_at(this->iterator_index(first));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -4092,6 +4078,14 @@ private:
         return { this->ctrl_at(slot_index) };
     }
 
+    // The argument of iterator_at(index) for the position.
+    size_type iterator_index(const_iterator pos) const {
+        if (!kIsIndirectKV)
+            return pos.index();
+        else
+            return this->index_of(pos.slot());
+    }
+
     size_type index_of(iterator pos) const {
         if (!kIsIndirectKV) {
             return pos.index();
-- 
2.43.0


From cdbb1a1407006aa6a484d460b3fe1a52dbd6804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 19/81] fix: robin_hash_map swap() lost the end-of-slots
 pointer and the move constructor lost the slot threshold

---
 src/jstd/hashmap/robin_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index c362e18..eebc7ab 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3148,7 +3148,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
@@ -6550,6 +6550,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From 0cec0b17583a53ace94a764c3786af339036e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 20/81] fix: robin_hash_map copy of an indirect key/value
 layout corrupted the table, copies lost the max load factor,
 unequal-allocator move copied

---
 src/jstd/hashmap/robin_hash_map.h | 49 +++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index eebc7ab..1a41cc3 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3124,6 +3124,8 @@ public:
         allocator_(alloc),
         ctrl_allocator_(alloc), slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
+        this->n_mlf_ = other.integral_mlf();
+        this->n_mlf_rev_ = other.integral_mlf_rev();
         size_type other_size = other.size();
         this->reserve_for_insert(other_size);
         try {
@@ -3182,13 +3184,17 @@ public:
             this->swap_content(other);
         } else {
             // Prepare enough space to ensure that no expansion is required during the insertion process.
+            this->n_mlf_ = other.integral_mlf();
+            this->n_mlf_rev_ = other.integral_mlf_rev();
             size_type other_size = other.size();
             this->reserve_for_insert(other_size);
 
-            // Note: this will copy elements of dense_set and unordered_set instead of
-            // moving them. This can be fixed if it ever becomes an issue.
+            // Here we will move elements of [other] hashmap to this hashmap.
             try {
-                this->unique_insert(other.begin(), other.end());
+                for (iterator iter = other.begin(); iter != other.end(); ++iter) {
+                    this->unique_insert(std::move(*iter));
+                }
+                other.clear();
             } catch (const std::bad_alloc & ex) {
                 this->destroy();
                 throw std::bad_alloc();
@@ -6301,7 +6307,40 @@ InsertOrGrow_Start:
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key) {
         hash_code_t hash_code = this->get_hash(key);
-        return this->unique_find_and_insert(key, hash_code);
+        if (!kIsIndirectKV)
+            return this->unique_find_and_insert(key, hash_code);
+        else
+            return this->indirect_unique_find_and_insert(key, hash_code);
+    }
+
+    template <typename KeyT>
+    JSTD_NO_INLINE
+    std::pair<slot_type *, bool>
+    indirect_unique_find_and_insert(const KeyT & key, hash_code_t hash_code) {
+        std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
+        ctrl_type dist_and_0;
+        ctrl_type * ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+
+        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+            // The size of slot reach the slot threshold or hashmap is full.
+            this->grow_if_necessary();
+
+            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+        }
+
+        size_type new_slot_index = this->slot_size_;
+        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
+        dist_and_hash.setIndex(static_cast<slot_index_t>(new_slot_index));
+
+        slot_type * new_slot = this->slot_at(new_slot_index);
+
+        if (ctrl->isEmpty()) {
+            this->setUsedCtrl(ctrl, dist_and_hash);
+            return { new_slot, false };
+        } else {
+            FindResult neednt_grow = this->indirect_insert_to_place<false>(ctrl, dist_and_hash);
+            return { new_slot, (neednt_grow == kNeedGrow) };
+        }
     }
 
     template <typename KeyT>
@@ -6409,7 +6448,7 @@ Insert_To_Slot:
     template <typename InputIter>
     void unique_insert(InputIter first, InputIter last) {
         for (InputIter iter = first; iter != last; ++iter) {
-            this->unique_insert(static_cast<value_type>(*iter));
+            this->unique_insert(*iter);
         }
     }
 
-- 
2.43.0


From ce1df9bee23a4e2cd4f126051d0faf17322b8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 21/81] fix: robin_hash_map assignment took over storage
 without its allocator when POCCA/POCMA differ from POCS

---
 src/jstd/hashmap/robin_hash_map.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 1a41cc3..de040c9 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3249,7 +3249,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template assign_impl<AllocTraits::propagate_on_container_copy_assignment::value>(tmp);
         return *this;
     }
 
@@ -6572,7 +6572,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template assign_impl<true>(tmp);
         }
         return *this;
     }
@@ -6580,7 +6580,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template assign_impl<false>(tmp);
         }
         return *this;
     }
@@ -6620,6 +6620,21 @@ Insert_To_Slot:
         this->swap_content(other);
         this->swap_policy(other);
     }
+
+    //
+    // Used by copy/move assignment, the storage of [tmp] must be
+    // accompanied by the allocator which it comes from.
+    //
+    template <bool PropagateAllocator>
+    void assign_impl(this_type & tmp) noexcept {
+        this->swap_impl(tmp);
+        if (PropagateAllocator && !AllocTraits::propagate_on_container_swap::value) {
+            using std::swap;
+            swap(this->allocator_, tmp.get_allocator_ref());
+            swap(this->ctrl_allocator_, tmp.get_ctrl_allocator_ref());
+            swap(this->slot_allocator_, tmp.get_slot_allocator_ref());
+        }
+    }
 };
 
 /**
-- 
2.43.0


From 8d1864322aee67ca9eefc68d3bf745b052223289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 22/81] fix: robin_hash_map bucket_count() returned the number
 of elements, load_factor() of an empty map was NaN

---
 src/jstd/hashmap/robin_hash_map.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index de040c9..4155e62 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3302,8 +3302,8 @@ public:
         return (this->slot_capacity() + this->max_lookups());
     }
 
-    constexpr size_type bucket_count() const {
-        return this->slot_size_;
+    size_type bucket_count() const {
+        return this->slot_capacity();
     }
 
     size_type bucket(const key_type & key) const {
@@ -3312,7 +3312,8 @@ public:
     }
 
     float load_factor() const {
-        return ((float)this->slot_size() / this->slot_capacity());
+        return ((this->slot_capacity() != 0) ?
+                ((float)this->slot_size() / this->slot_capacity()) : 0.0f);
     }
 
     void max_load_factor(float mlf) {
-- 
2.43.0


From c218022f3d2c487bc6d52f1ac60b2ab7c7dbf8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 23/81] fix: robin_hash_map find() of a missing key did not
 return end() for an empty map or an indirect key/value layout

---
 src/jstd/hashmap/robin_hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 4155e62..d57cd3d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3553,11 +3553,13 @@ public:
     }
 
     iterator find(const key_type & key) {
-        return const_cast<const this_type *>(this)->find(key);
+        return iterator(const_cast<const this_type *>(this)->find(key));
     }
 
     const_iterator find(const key_type & key) const {
         const slot_type * slot = this->find_impl(key);
+        if (slot == this->last_slot())
+            return this->end();
         if (!kIsIndirectKV)
             return this->iterator_at(this->index_of(slot));
         else
-- 
2.43.0


From 9ce5f1204b1742883158f6961fe1b027f7c440ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 24/81] fix: robin_hash_map clear() wrote to the shared empty
 ctrls (out of bounds for an indirect layout), clear(true) read past them

---
 src/jstd/hashmap/robin_hash_map.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index d57cd3d..62b6d66 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3508,7 +3508,7 @@ public:
         if (this->slot_capacity() > kDefaultCapacity) {
             if (need_destroy) {
                 this->destroy_data();
-                this->create_slots<false>(kDefaultCapacity);
+                this->template reset<true>();
                 assert(this->slot_size() == 0);
                 return;
             }
@@ -4211,6 +4211,10 @@ private:
     }
 
     void clear_data() noexcept {
+        // The default empty ctrls is shared and read only.
+        if (this->ctrls_ == this_type::default_empty_ctrls())
+            return;
+
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-- 
2.43.0


From 278e81937779925389d290e484b32e5e68dbcd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 25/81] fix: robin_hash_map changed max_lookups and leaked the
 new ctrls when the allocation of a new table failed

---
 src/jstd/hashmap/robin_hash_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 62b6d66..83e90d0 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4360,7 +4360,6 @@ private:
             new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
         else
             new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
-        this->max_lookups_ = new_max_lookups;
 
         size_type new_ctrl_capacity = new_capacity + new_max_lookups;
         size_type new_group_count = (new_ctrl_capacity + (kGroupWidth - 1)) / kGroupWidth;
@@ -4383,7 +4382,13 @@ private:
         this->clear_ctrls(new_ctrls, new_capacity, new_max_lookups, new_group_count);
 
 #if ROBIN_USE_SEPARATE_SLOTS
-        slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        slot_type * new_slots;
+        try {
+            new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        } catch (...) {
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, new_ctrls, ctrl_alloc_size);
+            throw;
+        }
 #else
         slot_type * new_slots = this->AlignedSlots<kSlotAlignment>(new_ctrls, ctrl_alloc_size);
 #endif
-- 
2.43.0


From 078e5f5c0ac94932d513fede1c89995c5633c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 26/81] fix: robin_hash_map did not limit the probe distance to
 max_lookups, so colliding keys were written past the end of the slots

---
 src/jstd/hashmap/robin_hash_map.h | 303 ++++++++++++------------------
 1 file changed, 118 insertions(+), 185 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 83e90d0..ba5bb8e 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4274,6 +4274,12 @@ private:
         return (this->slot_size() >= this->slot_threshold());
     }
 
+    // The distance of an element must be less than max_lookups(), otherwise the element
+    // may be out of the range of slots (or the distance can not be stored).
+    inline bool is_over_distance(const ctrl_type & dist) const {
+        return (static_cast<size_type>(dist.getDist()) >= this->max_lookups());
+    }
+
     void grow_if_necessary() {
         size_type new_capacity = (this->slot_mask_ + 1) * 2;
         this->rehash_impl<false, true>(new_capacity);
@@ -4589,10 +4595,7 @@ private:
                     slot_type * old_slot = old_slots;
                     for (ctrl_type * ctrl = old_ctrls; ctrl != last_ctrl; ctrl++) {
                         if (likely(ctrl->isUsed())) {
-                            if (!kNeedStoreHash)
-                                this->insert_no_grow(old_slot);
-                            else
-                                this->insert_no_grow(old_slot, ctrl->getHash());
+                            this->insert_no_grow(old_slot);
                             this->destroy_slot(old_slot);
                         }
                         old_slot++;
@@ -4625,7 +4628,7 @@ private:
                             assert(!ctrl->isEmpty());
                             size_type slot_index = ctrl->getIndex();
                             slot_type * old_slot = old_slots + slot_index;
-                            this->indirect_insert_no_grow(old_slot, ctrl->getHash());
+                            this->indirect_insert_no_grow(old_slot);
                             this->destroy_slot(old_slot);
                         }
                     }
@@ -4635,7 +4638,7 @@ private:
                         if (likely(ctrl->isUsed())) {
                             size_type slot_index = ctrl->getIndex();
                             slot_type * old_slot = old_slots + slot_index;
-                            this->indirect_insert_no_grow(old_slot, ctrl->getHash());
+                            this->indirect_insert_no_grow(old_slot);
                             this->destroy_slot(old_slot);
                         }
                     }
@@ -5501,13 +5504,15 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+                auto find_info = this->find_failed(hash_code, dist_and_0);
+                ctrl = find_info.first;
+                slot = find_info.second;
+            } while (this->is_over_distance(dist_and_0));
         }
 
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
@@ -5526,13 +5531,15 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+                auto find_info = this->find_failed(hash_code, dist_and_0);
+                ctrl = find_info.first;
+                slot = find_info.second;
+            } while (this->is_over_distance(dist_and_0));
         }
 
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
@@ -5606,13 +5613,15 @@ InsertOrGrow:
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
 InsertOrGrow_Start:
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+                auto find_info = this->find_failed(hash_code, dist_and_0);
+                ctrl = find_info.first;
+                slot = find_info.second;
+            } while (this->is_over_distance(dist_and_0));
 
             dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
         }
@@ -5622,7 +5631,7 @@ InsertOrGrow_Start:
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { slot, kIsNotExists };
         } else {
-            FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
+            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
             return { slot, neednt_grow };
         }
     }
@@ -5654,11 +5663,13 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+                ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+            } while (this->is_over_distance(dist_and_0));
         }
 
         size_type new_slot_index = this->slot_size_;
@@ -5671,7 +5682,7 @@ InsertOrGrow_Start:
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { new_slot, kIsNotExists };
         } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<false>(ctrl, dist_and_hash);
+            FindResult neednt_grow = this->indirect_insert_to_place(ctrl, dist_and_hash);
             return { new_slot, neednt_grow };
         }
     }
@@ -5713,9 +5724,32 @@ InsertOrGrow_Start:
         return ctrl;
     }
 
-    template <bool isRehashing>
+    //
+    // Whether all elements that will be moved backward by the insertion are still
+    // in the range of slots, and don't exceed the maximum distance.
+    //
+    JSTD_FORCED_INLINE
+    bool can_insert_to_place(const ctrl_type * insert_ctrl) const {
+        const ctrl_type * ctrl = insert_ctrl;
+        const ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
+        ctrl_type rich_ctrl(*ctrl);
+        for (;;) {
+            ctrl++;
+            rich_ctrl.incDist();
+            if (ctrl >= last_ctrl || this->is_over_distance(rich_ctrl))
+                return false;
+            if (ctrl->isEmpty())
+                return true;
+            if (rich_ctrl.dist > ctrl->dist)
+                rich_ctrl.setValue(*ctrl);
+        }
+    }
+
     JSTD_FORCED_INLINE
     FindResult insert_to_place(ctrl_type * insert_ctrl, slot_type * insert_slot, const ctrl_type & dist_and_hash) {
+        if (!this->can_insert_to_place(insert_ctrl))
+            return kNeedGrow;
+
         ctrl_type * ctrl = insert_ctrl;
         slot_type * target = insert_slot;
         ctrl_type rich_ctrl(dist_and_hash);
@@ -5771,27 +5805,19 @@ InsertOrGrow_Start:
             ctrl++;
             target++;
             rich_ctrl.incDist();
-            assert(rich_ctrl.dist <= kMaxDist);
-
-            if (isRehashing) {
-                assert(rich_ctrl.uvalue < this->max_distance());
-            } else {
-                if (rich_ctrl.uvalue >= this->max_distance()) {
-                    this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-                    this->destroy_empty_slot(empty);
-                    return kNeedGrow;
-                }
-            }
+            assert(!this->is_over_distance(rich_ctrl));
         }
 
-        this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-        this->destroy_empty_slot(empty);
+        // Unreachable, see can_insert_to_place().
+        assert(false);
         return kNeedGrow;
     }
 
-    template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult indirect_insert_to_place(ctrl_type * insert_ctrl, const ctrl_type & dist_and_hash) {
+        if (!this->can_insert_to_place(insert_ctrl))
+            return kNeedGrow;
+
         ctrl_type * ctrl = insert_ctrl;
         ctrl_type rich_ctrl(dist_and_hash);
         assert(!ctrl->isEmpty());
@@ -5811,19 +5837,11 @@ InsertOrGrow_Start:
 
             ctrl++;
             rich_ctrl.incDist();
-            assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
-
-            if (isRehashing) {
-                assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
-            } else {
-                if (rich_ctrl.getDist() > static_cast<udist_type>(kMaxDist)) {
-                    insert_ctrl->setValue(rich_ctrl);
-                    return kNeedGrow;
-                }
-            }
+            assert(!this->is_over_distance(rich_ctrl));
         }
 
-        insert_ctrl->setValue(rich_ctrl);
+        // Unreachable, see can_insert_to_place().
+        assert(false);
         return kNeedGrow;
     }
 
@@ -6154,61 +6172,30 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
+    // Find a place for a key that is known to be not exists, without checking the threshold.
+    // Grows only if the distance is exceeded, e.g. when we shrink to a smaller capacity.
     template <typename KeyT>
     JSTD_FORCED_INLINE
     slot_type * find_and_insert_no_grow(const KeyT & key) {
         hash_code_t hash_code = this->get_hash(key);
-        size_type slot_index = this->index_for_hash(hash_code);
-
-        ctrl_type * ctrl = this->ctrl_at(slot_index);
-        slot_type * slot = this->slot_at(slot_index);
-        ctrl_type dist_and_0;
-
-        while (dist_and_0.value <= ctrl->value) {
-            dist_and_0.incDist();
-            ctrl++;
-        }
-
-        slot += dist_and_0.dist;
-
-        ctrl_type dist_and_hash(dist_and_0);
-
-        if (ctrl->isEmpty()) {
-            this->setUsedCtrl(ctrl, dist_and_hash);
-            return slot;
-        } else {
-            FindResult neednt_grow = this->insert_to_place<true>(ctrl, slot, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
-        }
-    }
-
-    template <typename KeyT>
-    JSTD_FORCED_INLINE
-    slot_type * find_and_insert_no_grow(const KeyT & key, std::uint8_t ctrl_hash) {
-        hash_code_t hash_code = this->get_hash(key);
-        size_type slot_index = this->index_for_hash(hash_code);
-
-        ctrl_type * ctrl = this->ctrl_at(slot_index);
-        slot_type * slot = this->slot_at(slot_index);
-        ctrl_type dist_and_0;
-
-        while (dist_and_0.value <= ctrl->value) {
-            dist_and_0.incDist();
-            ctrl++;
-        }
-
-        slot += dist_and_0.dist;
+        std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
 
-        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
+        for (;;) {
+            ctrl_type dist_and_0;
+            auto find_info = this->find_failed(hash_code, dist_and_0);
+            ctrl_type * ctrl = find_info.first;
+            slot_type * slot = find_info.second;
 
-        if (ctrl->isEmpty()) {
-            this->setUsedCtrl(ctrl, dist_and_hash);
-            return slot;
-        } else {
-            FindResult neednt_grow = this->insert_to_place<true>(ctrl, slot, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
+            if (likely(!this->is_over_distance(dist_and_0))) {
+                ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
+                if (ctrl->isEmpty()) {
+                    this->setUsedCtrl(ctrl, dist_and_hash);
+                    return slot;
+                }
+                if (likely(this->insert_to_place(ctrl, slot, dist_and_hash) == kIsNotExists))
+                    return slot;
+            }
+            this->grow_if_necessary();
         }
     }
 
@@ -6216,64 +6203,24 @@ InsertOrGrow_Start:
     JSTD_FORCED_INLINE
     slot_type * indirect_find_and_insert_no_grow(const KeyT & key) {
         hash_code_t hash_code = this->get_hash(key);
-        size_type ctrl_index = this->index_for_hash(hash_code);
         std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
 
-        ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-        ctrl_type dist_and_0;
-
-        while (dist_and_0.getLow() <= ctrl->getLow()) {
-            dist_and_0.incDist();
-            ctrl++;
-        }
-
-        size_type slot_index = this->slot_size_;
-
-        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
-        dist_and_hash.setIndex(static_cast<slot_index_t>(slot_index));
-
-        slot_type * slot = this->slot_at(slot_index);
-
-        if (ctrl->isEmpty()) {
-            this->setUsedCtrl(ctrl, dist_and_hash);
-            return slot;
-        } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<true>(ctrl, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
-        }
-    }
-
-    template <typename KeyT>
-    JSTD_FORCED_INLINE
-    slot_type * indirect_find_and_insert_no_grow(const KeyT & key, std::uint8_t ctrl_hash) {
-        hash_code_t hash_code = this->get_hash(key);
-        size_type ctrl_index = this->index_for_hash(hash_code);
-        std::uint8_t _ctrl_hash = this->get_ctrl_hash(hash_code);
-        assert(_ctrl_hash == ctrl_hash);
-
-        ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-        ctrl_type dist_and_0;
-
-        while (dist_and_0.getLow() <= ctrl->getLow()) {
-            dist_and_0.incDist();
-            ctrl++;
-        }
-
-        size_type slot_index = this->slot_size_;
-
-        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
-        dist_and_hash.setIndex(static_cast<slot_index_t>(slot_index));
-
-        slot_type * slot = this->slot_at(slot_index);
-
-        if (ctrl->isEmpty()) {
-            this->setUsedCtrl(ctrl, dist_and_hash);
-            return slot;
-        } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<true>(ctrl, dist_and_hash);
-            assert(neednt_grow == kIsNotExists);
-            return slot;
+        for (;;) {
+            ctrl_type dist_and_0;
+            ctrl_type * ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+
+            if (likely(!this->is_over_distance(dist_and_0))) {
+                size_type slot_index = this->slot_size_;
+                ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
+                dist_and_hash.setIndex(static_cast<slot_index_t>(slot_index));
+                if (ctrl->isEmpty()) {
+                    this->setUsedCtrl(ctrl, dist_and_hash);
+                    return this->slot_at(slot_index);
+                }
+                if (likely(this->indirect_insert_to_place(ctrl, dist_and_hash) == kIsNotExists))
+                    return this->slot_at(slot_index);
+            }
+            this->grow_if_necessary();
         }
     }
 
@@ -6286,15 +6233,6 @@ InsertOrGrow_Start:
         assert(this->slot_size() <= this->slot_capacity());
     }
 
-    // Use in rehash_impl()
-    void insert_no_grow(slot_type * old_slot, std::uint8_t ctrl_hash) {
-        slot_type * new_slot = this->find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
-
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
-        this->slot_size_++;
-        assert(this->slot_size() <= this->slot_capacity());
-    }
-
     // Use in rehash_impl()
     void indirect_insert_no_grow(slot_type * old_slot) {
         slot_type * new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first);
@@ -6304,15 +6242,6 @@ InsertOrGrow_Start:
         assert(this->slot_size() <= this->slot_capacity());
     }
 
-    // Use in rehash_impl()
-    void indirect_insert_no_grow(slot_type * old_slot, std::uint8_t ctrl_hash) {
-        slot_type * new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
-
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
-        this->slot_size_++;
-        assert(this->slot_size() <= this->slot_capacity());
-    }
-
     ////////////////////////////////////////////////////////////////////////////////////////////
 
     template <typename KeyT>
@@ -6333,11 +6262,13 @@ InsertOrGrow_Start:
         ctrl_type dist_and_0;
         ctrl_type * ctrl = this->indirect_find_failed(hash_code, dist_and_0);
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+                ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+            } while (this->is_over_distance(dist_and_0));
         }
 
         size_type new_slot_index = this->slot_size_;
@@ -6350,7 +6281,7 @@ InsertOrGrow_Start:
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { new_slot, false };
         } else {
-            FindResult neednt_grow = this->indirect_insert_to_place<false>(ctrl, dist_and_hash);
+            FindResult neednt_grow = this->indirect_insert_to_place(ctrl, dist_and_hash);
             return { new_slot, (neednt_grow == kNeedGrow) };
         }
     }
@@ -6371,13 +6302,15 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->is_over_distance(dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+                auto find_info = this->find_failed(hash_code, dist_and_0);
+                ctrl = find_info.first;
+                slot = find_info.second;
+            } while (this->is_over_distance(dist_and_0));
         } else {
             slot += dist_and_0.dist;
         }
@@ -6414,7 +6347,7 @@ Insert_To_Slot:
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { slot, false };
         } else {
-            FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
+            FindResult neednt_grow = this->insert_to_place(ctrl, slot, dist_and_hash);
             return { slot, (neednt_grow == kNeedGrow) };
         }
     }
-- 
2.43.0


From 3d5b876b83e9a8b5b8438ebb7438d03ee3733f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 27/81] fix: robin_hash_map leaked the scratch element and
 destroyed a moved-out slot when displacing non-swappable elements

---
 src/jstd/hashmap/robin_hash_map.h | 48 ++-----------------------------
 1 file changed, 2 insertions(+), 46 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index ba5bb8e..8f894c3 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5781,14 +5781,13 @@ InsertOrGrow_Start:
 #endif
         target++;
 
-        // Initialize the empty slot use default constructor if necessary
-        this->construct_empty_slot(empty);
+        // The [empty] slot is uninitialized before and after every swap or exchange.
+        this->placement_new_slot(empty);
 
         slot_type * last_slot = this->last_slot();
         while (target < last_slot) {
             if (ctrl->isEmpty()) {
                 this->emplace_rich_slot(ctrl, target, insert, rich_ctrl);
-                this->destroy_empty_slot(empty);
                 return kIsNotExists;
             } else if (rich_ctrl.dist > ctrl->dist) {
                 std::swap(rich_ctrl.value, ctrl->value);
@@ -5852,49 +5851,6 @@ InsertOrGrow_Start:
         this->transfer_slot(slot, insert);
     }
 
-    JSTD_FORCED_INLINE
-    void construct_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            }
-        }
-
-        // If we don't called construct_slot(empty), then use placement new.
-        this->placement_new_slot(empty);
-    }
-
-    JSTD_FORCED_INLINE
-    void destroy_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            }
-        }
-    }
-
     ////////////////////////////////////////////////////////////////////////////////////////////
 
     template <bool AlwaysUpdate>
-- 
2.43.0


From e7b27951e9a49231148899f6a8b4bcab98361ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 28/81] fix: robin_hash_map reserve()/rehash() to less than the
 current size overloaded the table, reserve(n) was rounded down

---
 src/jstd/hashmap/robin_hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 8f894c3..dbef784 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3527,7 +3527,7 @@ public:
 
     void rehash(size_type new_capacity, bool read_only = false) {
         if (!read_only)
-            new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
+            new_capacity = this->min_require_capacity((std::max)(new_capacity, this->slot_size()));
         else
             new_capacity = (std::max)(new_capacity, this->slot_size());
         this->rehash_impl<true, false>(new_capacity);
@@ -3862,7 +3862,8 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        // The smallest capacity whose threshold is not less than init_capacity, see calc_slot_threshold().
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->integral_mlf() - 1) / this->integral_mlf();
         return new_capacity;
     }
 
-- 
2.43.0


From 8e22371e6fcdadc4e5229f54bafbec5516740347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 29/81] fix: robin_hash_map::max_load_factor(z) had no effect
 on the existing table

---
 src/jstd/hashmap/robin_hash_map.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index dbef784..aa0c6a9 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3327,13 +3327,12 @@ public:
         std::uint32_t n_mlf_rev = (std::uint32_t)std::ceil(1.0f / mlf * kLoadFactorAmplify);
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
+        if (this->slots() != nullptr) {
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+        }
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
-        if (now_slot_size > new_slot_threshold) {
-            size_type min_required_capacity = this->min_require_capacity(now_slot_size);
-            if (min_required_capacity > this->slot_capacity()) {
-                this->rehash(now_slot_size);
-            }
+        if (now_slot_size > this->slot_threshold()) {
+            this->rehash(now_slot_size);
         }
     }
 
-- 
2.43.0


From d2a53bb866b7c8c9f530301e6df9b5ef356e08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 30/81] fix: robin_hash_map range and initializer_list
 constructors leaked everything if an element threw

---
 src/jstd/hashmap/robin_hash_map.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index aa0c6a9..f508f23 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3088,7 +3088,12 @@ public:
         size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
-        this->insert(first, last);
+        try {
+            this->insert(first, last);
+        } catch (...) {
+            this->destroy();
+            throw;
+        }
     }
 
     template <typename InputIter>
@@ -3224,7 +3229,12 @@ public:
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type reserve_capacity = (init_capacity >= init_list.size()) ? init_capacity : init_list.size();
         this->reserve_for_insert(reserve_capacity);
-        this->insert(init_list.begin(), init_list.end());
+        try {
+            this->insert(init_list.begin(), init_list.end());
+        } catch (...) {
+            this->destroy();
+            throw;
+        }
     }
 
     robin_hash_map(std::initializer_list<value_type> init_list,
-- 
2.43.0


From 76b75d0455b57beb32722f500b15baf0be3dba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 31/81] fix: robin_hash_map a throwing element constructor left
 a bogus occupied slot behind

---
 src/jstd/hashmap/robin_hash_map.h | 102 ++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 35 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f508f23..ca33430 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5863,6 +5863,36 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
+    // Construct the element in the slot that find_and_insert() has taken.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(slot_type * slot, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->remove_new_slot(slot);
+            throw;
+        }
+        this->slot_size_++;
+    }
+
+    // Give back the slot that find_and_insert() has taken, there is no element in it.
+    JSTD_NO_INLINE
+    void remove_new_slot(slot_type * slot) {
+        if (!kIsIndirectKV) {
+            this->remove_slot(static_cast<size_type>(slot - this->slots()));
+        } else {
+            size_type slot_index = static_cast<size_type>(slot - this->slots());
+            for (size_type index = 0; index < this->max_slot_capacity(); index++) {
+                ctrl_type * ctrl = this->ctrl_at(index);
+                if (ctrl->isUsed() && ctrl->getIndex() == slot_index) {
+                    this->remove_ctrl(index);
+                    break;
+                }
+            }
+        }
+    }
+
     template <bool AlwaysUpdate>
     std::pair<iterator, bool> emplace_impl(const actual_value_type & value) {
         auto find_info = this->find_and_insert(value.first);
@@ -5872,8 +5902,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(slot, value);
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5897,8 +5926,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<actual_value_type>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot, std::forward<actual_value_type>(value));
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5936,10 +5964,9 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
-            this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5980,11 +6007,10 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -6023,11 +6049,10 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -6101,11 +6126,10 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
             assert(is_exists == kNeedGrow);
             this->grow_if_necessary();
@@ -6122,11 +6146,10 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
             assert(is_exists == kNeedGrow);
             this->grow_if_necessary();
@@ -6329,8 +6352,7 @@ Insert_To_Slot:
             return;
         }
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, value);
-        this->slot_size_++;
+        this->construct_new_slot(new_slot, value);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6346,12 +6368,10 @@ Insert_To_Slot:
         }
 
         if (kIsLayoutCompatible) {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot,
-                                        std::move(*reinterpret_cast<mutable_value_type *>(&value)));
+            this->construct_new_slot(new_slot, std::move(*reinterpret_cast<mutable_value_type *>(&value)));
         } else {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot, std::move(value));
+            this->construct_new_slot(new_slot, std::move(value));
         }
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6384,11 +6404,19 @@ Insert_To_Slot:
     void erase_slot(size_type to_erase_idx) {
         assert(to_erase_idx < this->max_slot_capacity());
 
-        ctrl_type * curr_ctrl = this->ctrl_at(to_erase_idx);
-        slot_type * curr_slot = this->slot_at(to_erase_idx);
-        assert(curr_ctrl->isUsed());
+        this->destroy_slot(this->slot_at(to_erase_idx));
+        this->remove_slot(to_erase_idx);
 
-        this->destroy_slot(curr_slot);
+        assert(this->slot_size_ > 0);
+        this->slot_size_--;
+    }
+
+    // Close the gap of a slot without element, by moving the following elements forward.
+    JSTD_FORCED_INLINE
+    void remove_slot(size_type slot_index) {
+        ctrl_type * curr_ctrl = this->ctrl_at(slot_index);
+        slot_type * curr_slot = this->slot_at(slot_index);
+        assert(curr_ctrl->isUsed());
 
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
         slot_type * next_slot = curr_slot + std::ptrdiff_t(1);
@@ -6409,9 +6437,6 @@ Insert_To_Slot:
         }
 
         this->setUnusedCtrl(curr_ctrl);
-
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
     }
 
     template <typename KeyT>
@@ -6436,14 +6461,10 @@ Insert_To_Slot:
         return ctrl;
     }
 
-    JSTD_NO_INLINE
-    void indirect_erase_slot(size_type to_erase_idx) {
-        assert(to_erase_idx < this->max_slot_capacity());
-
-        ctrl_type * curr_ctrl = this->ctrl_at(to_erase_idx);
-        size_type erase_slot_index = curr_ctrl->getIndex();
-        assert(curr_ctrl->isUsed());
-
+    // Close the gap of a ctrl, by moving the following ctrls forward.
+    JSTD_FORCED_INLINE
+    void remove_ctrl(size_type ctrl_index) {
+        ctrl_type * curr_ctrl = this->ctrl_at(ctrl_index);
         ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
 
@@ -6460,6 +6481,17 @@ Insert_To_Slot:
         }
 
         this->setUnusedCtrl(curr_ctrl);
+    }
+
+    JSTD_NO_INLINE
+    void indirect_erase_slot(size_type to_erase_idx) {
+        assert(to_erase_idx < this->max_slot_capacity());
+
+        ctrl_type * curr_ctrl = this->ctrl_at(to_erase_idx);
+        size_type erase_slot_index = curr_ctrl->getIndex();
+        assert(curr_ctrl->isUsed());
+
+        this->remove_ctrl(to_erase_idx);
 
         assert(this->slot_size_ > 0);
         this->slot_size_--;
-- 
2.43.0


From be13d0a2edd97c8ffbda7010caa2d8e5857a83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 32/81] fix: robin_hash_map emplace(args...) leaked the
 temporary element if the table had to grow

---
 src/jstd/hashmap/robin_hash_map.h | 47 ++++++++++++++++---------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index ca33430..3cf74e8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6088,31 +6088,34 @@ InsertOrGrow_Start:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_and_insert(tmp_slot->value.first);
-        slot_type * slot = find_info.first;
-        FindResult is_exists = find_info.second;
-        if (is_exists == kIsNotExists) {
-            // The key to be inserted is not exists.
-            assert(slot != nullptr);
+        // Destroy the temporary element in any case.
+        struct tmp_slot_guard {
+            allocator_type * alloc;
+            slot_type *      slot;
+            ~tmp_slot_guard() { SlotPolicyTraits::destroy(alloc, slot); }
+        } guard{ &this->allocator_, tmp_slot };
+        JSTD_UNUSED(guard);
 
-            SlotPolicyTraits::transfer(&this->allocator_, slot, tmp_slot);
-            this->slot_size_++;
-            return { this->iterator_at(slot), true };
-        } else if (is_exists > kIsNotExists) {
-            // The key to be inserted already exists.
-            assert(is_exists == kIsExists);
-            if (AlwaysUpdate) {
-                slot->value.second = std::move(tmp_slot->value.second);
+        for (;;) {
+            auto find_info = this->find_and_insert(tmp_slot->value.first);
+            slot_type * slot = find_info.first;
+            FindResult is_exists = find_info.second;
+            if (is_exists == kIsNotExists) {
+                // The key to be inserted is not exists.
+                assert(slot != nullptr);
+
+                this->construct_new_slot(slot, tmp_slot);
+                return { this->iterator_at(slot), true };
+            } else if (is_exists > kIsNotExists) {
+                // The key to be inserted already exists.
+                assert(is_exists == kIsExists);
+                if (AlwaysUpdate) {
+                    slot->value.second = std::move(tmp_slot->value.second);
+                }
+                return { this->iterator_at(slot), false };
             }
-            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
-            return { this->iterator_at(slot), false };
-        } else {
-            assert (is_exists == kNeedGrow);
+            assert(is_exists == kNeedGrow);
             this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
         }
     }
 
-- 
2.43.0


From 5374e3c4d1f21389d7edb03718b43d0e8b3d2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 33/81] fix: group15/16_flat_map move with an unequal allocator
 lost the max load factor

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 72aac46..b097c29 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -381,7 +381,7 @@ public:
         ctrl_mask_(size_type(-1)),
         slot_capacity_(0),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP15_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 86a507b..f00ab2c 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -368,7 +368,7 @@ public:
 #if GROUP16_USE_INDEX_SHIFT
         index_shift_(kWordLength - 1),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP16_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
-- 
2.43.0


From a5ce1384b93654167ceab3a11f23361712791378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 34/81] fix: group15/16_flat_map, robin_hash_map insert() of a
 move-only mapped type did not compile

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 src/jstd/hashmap/robin_hash_map.h       | 6 +-----
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index b097c29..1fb10b0 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2387,7 +2387,7 @@ private:
                     else
                         jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
                 } else {
-                    slot->value.second = value.second;
+                    slot->value.second = std::forward<ValueT>(value).second;
                 }
             }
         }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index f00ab2c..6087376 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2264,7 +2264,7 @@ private:
                     else
                         jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
                 } else {
-                    slot->value.second = value.second;
+                    slot->value.second = std::forward<ValueT>(value).second;
                 }
             }
         }
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 3cf74e8..edd01d1 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5932,11 +5932,7 @@ InsertOrGrow_Start:
             // The key to be inserted already exists.
             assert(is_exists == kIsExists);
             if (AlwaysUpdate) {
-                static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
-                if (is_rvalue_ref)
-                    slot->value.second = std::move(value.second);
-                else
-                    slot->value.second = value.second;
+                slot->value.second = std::move(value.second);
             }
             return { this->iterator_at(slot), false };
         } else {
-- 
2.43.0


From 0666ea2e2ddd0a97e3ca7b0517b762e89d0f5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 35/81] fix: group15/16_flat_map copying destroyed a
 never-constructed element if an element's copy constructor threw

---
 src/jstd/hashmap/group15_flat_table.hpp | 6 ++----
 src/jstd/hashmap/group16_flat_table.hpp | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 1fb10b0..4306320 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2284,11 +2284,9 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
+        assert(locator.slot() != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(locator, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 6087376..ce1a14f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2155,11 +2155,9 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
+        assert(this->slot_at(slot_index) != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(slot_index, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
-- 
2.43.0


From 3ad281c6975bde1a88555953559efd30a50a2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 36/81] fix: group15/16_flat_map growing a full small table
 with a low max load factor exceeded the max load factor

---
 src/jstd/hashmap/group15_flat_table.hpp | 6 ++++--
 src/jstd/hashmap/group16_flat_table.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 4306320..19c44e1 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1768,8 +1768,10 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
-        // The growth rate is 2 times
-        size_type new_capacity = this->ctrl_capacity() * 2;
+        // The growth rate is 2 times, a small table can be full, so with a low
+        // max load factor twice the capacity may be not enough for the new element.
+        size_type new_capacity = (std::max)(this->ctrl_capacity() * 2,
+                                            this->shrink_to_fit_capacity(this->slot_size() + 1));
         this->rehash_impl<false>(new_capacity);
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index ce1a14f..0eb3100 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1699,8 +1699,10 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
-        // The growth rate is 2 times
-        size_type new_capacity = this->ctrl_capacity() * 2;
+        // The growth rate is 2 times, a small table can be full, so with a low
+        // max load factor twice the capacity may be not enough for the new element.
+        size_type new_capacity = (std::max)(this->ctrl_capacity() * 2,
+                                            this->shrink_to_fit_capacity(this->slot_size() + 1));
         this->rehash_impl<false>(new_capacity);
     }
 
-- 
2.43.0


From 8199ff3d416133704a0aec073f7672df445c0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 37/81] fix: group15/16_flat_map::reserve(n) did not restore
 the threshold lowered by erased slots, so inserting n elements could rehash

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 ++++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 19c44e1..660a3c4 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -745,8 +745,12 @@ public:
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
         if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
+            size_type ctrl_capacity = this->shrink_to_fit_capacity(new_capacity);
+            if (new_capacity > this->slot_threshold()) {
+                // The threshold can be lower than the capacity allows, because of the erased slots.
+                ctrl_capacity = (std::max)(ctrl_capacity, this->ctrl_capacity());
+                this->rehash_impl<false, true>(ctrl_capacity);
+            }
         } else if (this->empty()) {
             this->destroy<true>();
         }
@@ -1918,13 +1922,14 @@ private:
         }
     }
 
-    template <bool AllowShrink>
+    template <bool AllowShrink, bool Force = false>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
         if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
+            (Force && (new_capacity == this->ctrl_capacity())) ||
             (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
             if (!AllowShrink) {
                 assert(new_capacity >= this->slot_size());
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 0eb3100..d57ebe9 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -678,8 +678,12 @@ public:
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
         if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
+            size_type ctrl_capacity = this->shrink_to_fit_capacity(new_capacity);
+            if (new_capacity > this->slot_threshold()) {
+                // The threshold can be lower than the capacity allows, because of the erased slots.
+                ctrl_capacity = (std::max)(ctrl_capacity, this->ctrl_capacity());
+                this->rehash_impl<false, true>(ctrl_capacity);
+            }
         } else if (this->empty()) {
             this->destroy<true>();
         }
@@ -1837,13 +1841,14 @@ private:
         }
     }
 
-    template <bool AllowShrink>
+    template <bool AllowShrink, bool Force = false>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
         if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
+            (Force && (new_capacity == this->ctrl_capacity())) ||
             (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
             if (!AllowShrink) {
                 assert(new_capacity >= this->slot_size());
-- 
2.43.0


From ef4431c72685c5f307ece1dff0dc0fd3b4b5a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 38/81] fix: group15/16_flat_map grew without limit under
 insert/erase churn at constant size (overflow marks eat the slot threshold)

---
 src/jstd/hashmap/group15_flat_table.hpp | 9 +++++++++
 src/jstd/hashmap/group16_flat_table.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 660a3c4..3e3e21d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1772,6 +1772,15 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
+        // When erasures took most of the slot threshold away, the overflow marks they
+        // left behind are dropped by rehashing with the same capacity, otherwise a table
+        // of constant size could grow without limit.
+        size_type min_capacity = this->shrink_to_fit_capacity(this->slot_size() + this->slot_size() / 8 + 1);
+        if (this->ctrl_capacity() != 0 && this->calc_capacity(min_capacity) <= this->ctrl_capacity()) {
+            this->rehash_impl<false, true>(this->ctrl_capacity());
+            return;
+        }
+
         // The growth rate is 2 times, a small table can be full, so with a low
         // max load factor twice the capacity may be not enough for the new element.
         size_type new_capacity = (std::max)(this->ctrl_capacity() * 2,
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index d57ebe9..53a380e 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1703,6 +1703,15 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
+        // When erasures took most of the slot threshold away, the overflow marks they
+        // left behind are dropped by rehashing with the same capacity, otherwise a table
+        // of constant size could grow without limit.
+        size_type min_capacity = this->shrink_to_fit_capacity(this->slot_size() + this->slot_size() / 8 + 1);
+        if (this->ctrl_capacity() != 0 && this->calc_capacity(min_capacity) <= this->ctrl_capacity()) {
+            this->rehash_impl<false, true>(this->ctrl_capacity());
+            return;
+        }
+
         // The growth rate is 2 times, a small table can be full, so with a low
         // max load factor twice the capacity may be not enough for the new element.
         size_type new_capacity = (std::max)(this->ctrl_capacity() * 2,
-- 
2.43.0


From 0e47de7a4a52c617a3ab2482cd208430c54e5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 39/81] fix: Power2.h, group15_flat_map did not compile with
 assertions enabled

---
 src/jstd/hashmap/group15_flat_table.hpp |  2 +-
 src/jstd/support/Power2.h               | 15 +++------------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3e3e21d..540476a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1482,7 +1482,7 @@ private:
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
         size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..ef6e5fd 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,12 +196,9 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n > 1) || (Min_n > 1)) {
-        assert(signed_type(n - 1) > 0);
+        assert(n > 1);
         std::uint32_t ms1b = bitScanReverse(n - 1);
         return (return_type(1) << ms1b);
     } else {
@@ -259,13 +256,10 @@ round_up(SizeType N)
                   "Error: pow2::round_up(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
         if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
+            assert(n > 1);
             std::uint32_t ms1b = bitScanReverse(n - 1);
             return (return_type(1) << (ms1b + 1));
         } else {
@@ -332,13 +326,10 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
         if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
+            assert(n > 1);
             std::uint32_t ms1b = bitScanReverse(n - 1);
             return return_type(ms1b + 1);
         } else {
-- 
2.43.0


From 3062769fcbb9a74c234b291c0f2654691af2f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 40/81] fix: robin_hash_map erase(first, last) of an empty
 range computed an index from null slots

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index edd01d1..f819d31 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3767,7 +3767,7 @@ public:
             if (first == last)
                 return next;
         }
-        return this->iterator_at(this->iterator_index(first));
+        return (this->slots() != nullptr) ? this->iterator_at(this->iterator_index(first)) : this->end();
     }
 
     template <typename InputIter, typename std::enable_if<
-- 
2.43.0


From 0fa173f7f5a25cb2595c45002124027c488d4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 41/81] fix: string_view <, <=, >, >= tested compare() against
 the wrong constants

---
 src/jstd/string/string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index f565c38..ac2c7c3 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -523,19 +523,19 @@ public:
     }
 
     friend inline bool operator < (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) < 0);
     }
 
     friend inline bool operator <= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) <= 0);
     }
 
     friend inline bool operator > (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) > 0);
     }
 
     friend inline bool operator >= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) >= 0);
     }
 
 private:
-- 
2.43.0


From f07c752ad621d416583271af194f31ee502beb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 42/81] fix: string_view is_equal/compare(pos, count, ...)
 ignored lengths, pos + count overflowed, C string overloads did not compile

---
 src/jstd/string/string_view.h | 42 +++++++++++++++--------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index ac2c7c3..111636f 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -327,7 +327,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "copy(dest, count, pos): pos out_of_range.");
         }
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         return Traits::copy(dest, this->data() + pos, rcount);
     }
 
@@ -339,7 +339,7 @@ public:
         }
         size_type rcount;
         if (likely(count != npos))
-            rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+            rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         else
             rcount = this->size() - pos;
         return this_type(this->data() + pos, rcount);
@@ -373,8 +373,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->is_equal(s1, sv.data(), count);
+        return this->is_equal(s1, rcount, sv.data(), sv.size());
     }
 
     bool is_equal(size_type pos, size_type count,
@@ -383,8 +384,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type len2 = libc::StrLen(str);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->is_equal(s1, rcount, str, len2);
     }
@@ -399,8 +400,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->is_equal(s1, rcount1, s2, rcount2);
@@ -412,13 +413,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
-        constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         const char_type * s1 = this->data() + pos1;
-        const char_type * s2 = str + pos2;
-        return this->is_equal(s1, rcount1, s2, rcount2);
+        return this->is_equal(s1, rcount1, str, count2);
     }
 
     //
@@ -452,8 +449,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->compare(s1, sv.data(), count);
+        return this->compare(s1, rcount, sv.data(), sv.size());
     }
 
     int compare(size_type pos, size_type count, const char_type * str) const {
@@ -461,8 +459,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type len2 = libc::StrLen(str);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->compare(s1, rcount, str, len2);
     }
@@ -477,8 +475,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->compare(s1, rcount1, s2, rcount2);
@@ -490,13 +488,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
-        constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         const char_type * s1 = this->data() + pos1;
-        const char_type * s2 = str + pos2;
-        return this->compare(s1, rcount1, s2, rcount2);
+        return this->compare(s1, rcount1, str, count2);
     }
 
     string_type to_string() const {
-- 
2.43.0


From db36e8b779e736fa4e07782a2f030e6fb9a02b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 43/81] fix: string_view is_equal/compare(const char *) read
 past the end of the view

---
 src/jstd/string/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index 111636f..6e73d57 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -349,7 +349,7 @@ public:
     // is_equal(rhs)
     //
     bool is_equal(const char_type * str) const {
-        return Traits::is_equal(this->data(), str);
+        return this->is_equal(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     bool is_equal(const char_type * s1, const char_type * s2, size_type count) const noexcept {
@@ -422,7 +422,7 @@ public:
     // compare(rhs)
     //
     int compare(const char_type * str) const noexcept {
-        return Traits::compare(this->data(), str);
+        return this->compare(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     int compare(const char_type * s1,
-- 
2.43.0


From eb01a30ab0bb1abe74f9ca0f8c404dfec8f0966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 44/81] fix: string_view at() on a non-const view did not
 compile

---
 src/jstd/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index 6e73d57..bf4a3df 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -309,7 +309,7 @@ public:
 
     reference at(size_type pos) {
         if (pos < this->size())
-            return this->data_[pos];
+            return const_cast<char_type *>(this->data_)[pos];
         else
             throw std::out_of_range("basic_string_view<T>::at(pos): out of range.");
     }
-- 
2.43.0


From 1d426544fb5a8d691c0c843d8cbf4f1b02dbb878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 45/81] fix: string_view operator << stopped at the first NUL
 character

---
 src/jstd/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index bf4a3df..60d8323 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -500,7 +500,7 @@ public:
 
     friend inline ostream_type & operator << (ostream_type & out, const this_type & view) {
         string_type text(view.data(), view.size());
-        out << text.c_str();
+        out << text;
         return out;
     }
 
-- 
2.43.0


From 65d8a866cbdd3445ed8acc866434179f13ce0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 46/81] fix: string_view copy() returned 0 for char, stopped at
 NUL characters

---
 src/jstd/string/string_traits.h | 5 ++---
 src/jstd/string/string_utils.h  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 8adf27f..1143f39 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -28,9 +28,8 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        char_type * result =  str_utils::str_copy(dest, src, count);
-        assert(result >= dest);
-        return size_type(result - dest);
+        str_utils::mem_copy(dest, src, count);
+        return count;
     }
 
     static bool is_equal(const char_type * s1, const char_type * s2) {
diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index a550915..d1e1a8c 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -94,7 +94,7 @@ char * mem_copy(char * dest, const char * src, std::size_t count)
 static inline
 wchar_t * mem_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 {
-    return std::wmemcpy(dest, src, count * sizeof(wchar_t));
+    return std::wmemcpy(dest, src, count);
 }
 
 ////////////////////////////////// str_copy() //////////////////////////////////////
-- 
2.43.0


From 4798ba31272a3cd2743470a920fc587230200945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 47/81] fix: string_view iterator++ and iterator-- returned a
 reference to a local

---
 src/jstd/string/string_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_iterator.h b/src/jstd/string/string_iterator.h
index 2578be9..6e28dce 100644
--- a/src/jstd/string/string_iterator.h
+++ b/src/jstd/string/string_iterator.h
@@ -69,7 +69,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -82,7 +82,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
@@ -223,7 +223,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -236,7 +236,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
-- 
2.43.0


From a227a3af1432db1e83652b1022473fbdcb16338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 48/81] fix: string_view copy() of nothing passed a null
 pointer to memcpy

---
 src/jstd/string/string_traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 1143f39..138e1b6 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -28,7 +28,8 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        str_utils::mem_copy(dest, src, count);
+        if (likely(count != 0))
+            str_utils::mem_copy(dest, src, count);
         return count;
     }
 
-- 
2.43.0


From f107025488ef56b76b254d565ea9781229c42929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 49/81] fix: string_view ==, compare read past the end of the
 strings (SSE4.2, u64), skipped half of the wchar_t chars

---
 src/jstd/string/string_utils.h | 169 +++++++++++++--------------------
 1 file changed, 67 insertions(+), 102 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index d1e1a8c..d1165d8 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -184,22 +184,21 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
 {
     assert(str1 != nullptr && str2 != nullptr);
 
-    static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
+    // The words in a 16 bytes block, and the chars in a 16 bytes block.
+    static constexpr int kMaxWords = jstd::SSEHelper<CharTy>::kMaxSize;
+    static constexpr std::size_t kMaxSize = sizeof(__m128i) / sizeof(CharTy);
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
 
-    int slength = (int)length;
-    while (likely(slength > 0)) {
+    while (likely(length >= kMaxSize)) {
         __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
         __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slength >= kMaxSize) ? kMaxSize : slength;
-        assert(len > 0);
 
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
+        int full_matched = _mm_cmpestrc(__str1, kMaxWords, __str2, kMaxWords, (uint8_t)kEqualEach);
         str1 += kMaxSize;
         str2 += kMaxSize;
-        slength -= kMaxSize;
+        length -= kMaxSize;
         if (likely(full_matched == 0)) {
             // Full matched, continue match next kMaxSize bytes.
             continue;
@@ -210,8 +209,8 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
         }
     }
 
-    // It's matched, or the length is equal 0.
-    return true;
+    // Don't read beyond the end of the strings.
+    return (std::memcmp((const void *)str1, (const void *)str2, length * sizeof(CharTy)) == 0);
 }
 
 #elif (STRING_UTILS_MODE == STRING_UTILS_U64)
@@ -222,55 +221,29 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
 {
     assert(str1 != nullptr && str2 != nullptr);
 
-    static const std::size_t kMaxSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne64 = 0xFFFFFFFFFFFFFFFFULL;
+    // The chars in a 8 bytes block.
+    static const std::size_t kMaxSize = sizeof(uint64_t) / sizeof(CharTy);
 
-    uint64_t * __str1 = (uint64_t * )str1;
-    uint64_t * __str2 = (uint64_t * )str2;
-
-    while (likely(length > 0)) {
-        assert(__str1 != nullptr && __str2 != nullptr);
-        if (likely(length >= kMaxSize)) {
-            // Compare 8 bytes each time.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            if (likely(val64_1 == val64_2)) {
-                // Full matched, continue match next kMaxSize bytes.
-                __str1++;
-                __str2++;
-                length -= kMaxSize;
-                continue;
-            }
-            else {
-                // It's dismatched.
-                return false;
-            }
+    while (likely(length >= kMaxSize)) {
+        // Compare 8 bytes each time.
+        uint64_t val64_1, val64_2;
+        std::memcpy((void *)&val64_1, (const void *)str1, sizeof(uint64_t));
+        std::memcpy((void *)&val64_2, (const void *)str2, sizeof(uint64_t));
+        if (likely(val64_1 == val64_2)) {
+            // Full matched, continue match next kMaxSize bytes.
+            str1 += kMaxSize;
+            str2 += kMaxSize;
+            length -= kMaxSize;
+            continue;
         }
         else {
-            // Get the mask64
-            assert(length > 0 && length < kMaxSize);
-            uint32_t rest = (uint32_t)(kMaxSize - length);
-            assert(rest > 0 && rest < (uint32_t)kMaxSize);
-            uint64_t mask64 = kMaskOne64 >> (rest * 8U);
-
-            // Compare the remain bytes.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            val64_1 &= mask64;
-            val64_2 &= mask64;
-            if (likely(val64_1 == val64_2)) {
-                // Full matched, return true.
-                return true;
-            }
-            else {
-                // It's dismatched.
-                return false;
-            }
+            // It's dismatched.
+            return false;
         }
     }
 
-    // It's matched, or the length is equal 0.
-    return true;
+    // Don't read beyond the end of the strings.
+    return (std::memcmp((const void *)str1, (const void *)str2, length * sizeof(CharTy)) == 0);
 }
 
 #elif (STRING_UTILS_MODE == STRING_UTILS_STL)
@@ -422,49 +395,45 @@ int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
     assert(str1 != nullptr);
     assert(str2 != nullptr);
 
-    static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
+    // The words in a 16 bytes block, and the chars in a 16 bytes block.
+    static constexpr int kMaxWords = jstd::SSEHelper<CharTy>::kMaxSize;
+    static constexpr std::size_t kMaxSize = sizeof(__m128i) / sizeof(CharTy);
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    int slen = (int)count;
-
-    while (likely(slen > 0)) {
+    while (likely(count >= kMaxSize)) {
         __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
         __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
-        assert(len > 0);
 
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        str1 += kMaxSize;
-        str2 += kMaxSize;
-        slen -= kMaxSize;
+        int full_matched = _mm_cmpestrc(__str1, kMaxWords, __str2, kMaxWords, (uint8_t)kEqualEach);
         if (likely(full_matched == 0)) {
             // Full matched, continue match next kMaxSize bytes.
-            assert(matched_index >= kMaxSize);
-            if (slen <= 0) {
-                assert((matched_index == kMaxSize) ||
-                       (len == (matched_index - 1)));
-            }
-            continue;
+            str1 += kMaxSize;
+            str2 += kMaxSize;
+            count -= kMaxSize;
         }
         else {
-            // It's dismatched.
-            assert(matched_index >= 0 && matched_index < kMaxSize);
-            assert(matched_index <= len);
-            int offset = (kMaxSize - matched_index);
-            UCharTy ch1 = *((const UCharTy *)str1 - offset);
-            UCharTy ch2 = *((const UCharTy *)str2 - offset);
-            // The value of ch1 and ch2 must be not equal!
-            assert(ch1 != ch2);
+            // It's dismatched, find the different char below.
+            break;
+        }
+    }
+
+    // Don't read beyond the end of the strings.
+    while (likely(count > 0)) {
+        UCharTy ch1 = UCharTy(*str1);
+        UCharTy ch2 = UCharTy(*str2);
+        if (ch1 != ch2) {
             if (ch1 > ch2)
                 return CompareResult::IsBigger;
             else
                 return CompareResult::IsSmaller;
         }
+        str1++;
+        str2++;
+        count--;
     }
 
     // It's matched, or the length is equal 0.
@@ -485,7 +454,9 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     assert(str1 != nullptr);
     assert(str2 != nullptr);
 
-    static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
+    // The words in a 16 bytes block, and the chars in a 16 bytes block.
+    static constexpr int kMaxWords = jstd::SSEHelper<CharTy>::kMaxSize;
+    static constexpr std::size_t kMaxSize = sizeof(__m128i) / sizeof(CharTy);
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
@@ -493,42 +464,36 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
     std::size_t count = (len1 <= len2) ? len1 : len2;
-    int slen = (int)count;
-
-    while (likely(slen > 0)) {
+    while (likely(count >= kMaxSize)) {
         __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
         __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
-        assert(len > 0);
 
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        str1 += kMaxSize;
-        str2 += kMaxSize;
-        slen -= kMaxSize;
+        int full_matched = _mm_cmpestrc(__str1, kMaxWords, __str2, kMaxWords, (uint8_t)kEqualEach);
         if (likely(full_matched == 0)) {
             // Full matched, continue match next kMaxSize bytes.
-            assert(matched_index >= kMaxSize);
-            if (slen <= 0) {
-                assert((matched_index == kMaxSize) ||
-                       (len == (matched_index - 1)));
-            }
-            continue;
+            str1 += kMaxSize;
+            str2 += kMaxSize;
+            count -= kMaxSize;
         }
         else {
-            // It's dismatched.
-            assert(matched_index >= 0 && matched_index < kMaxSize);
-            assert(matched_index <= len);
-            int offset = (kMaxSize - matched_index);
-            UCharTy ch1 = *((const UCharTy *)str1 - offset);
-            UCharTy ch2 = *((const UCharTy *)str2 - offset);
-            // The value of ch1 and ch2 must be not equal!
-            assert(ch1 != ch2);
+            // It's dismatched, find the different char below.
+            break;
+        }
+    }
+
+    // Don't read beyond the end of the strings.
+    while (likely(count > 0)) {
+        UCharTy ch1 = UCharTy(*str1);
+        UCharTy ch2 = UCharTy(*str2);
+        if (ch1 != ch2) {
             if (ch1 > ch2)
                 return CompareResult::IsBigger;
             else
                 return CompareResult::IsSmaller;
         }
+        str1++;
+        str2++;
+        count--;
     }
 
     // It's matched, or the length is equal 0.
-- 
2.43.0


From 1f0db84ff57b9c114c749a2f5cf396c5bf4b0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 50/81] fix: string_view: a default constructed view was not
 equal to other empty views

---
 src/jstd/string/string_utils.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index d1165d8..c0bb9e3 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -330,13 +330,14 @@ bool is_equal_safe(const CharTy * str1, const CharTy * str2, std::size_t count)
             return str_utils::is_equal(str1, str2, count);
         }
         else {
+            // The null string is a empty string.
             assert(str1 != nullptr && str2 == nullptr);
-            return false;
+            return (count == 0);
         }
     }
     else {
         assert(str1 == nullptr);
-        return (str2 == nullptr);
+        return (str2 == nullptr || count == 0);
     }
 }
 
@@ -562,7 +563,10 @@ template <typename CharTy>
 static inline
 int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t count)
 {
-    assert(str1 != str2);
+    if (unlikely(count == 0)) {
+        // The null string is a empty string.
+        return CompareResult::IsEqual;
+    }
     if (likely(str1 != nullptr)) {
         if (likely(str2 != nullptr)) {
             return str_utils::compare(str1, str2, count);
@@ -571,8 +575,8 @@ int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t coun
             return CompareResult::IsBigger;
         }
     } else {
-        assert(str1 == nullptr && str2 != nullptr);
-        return CompareResult::IsSmaller;
+        assert(str1 == nullptr);
+        return ((str2 != nullptr) ? CompareResult::IsSmaller : CompareResult::IsEqual);
     }
 }
 
-- 
2.43.0


From 314277dffc37a0e3be5f0e426d86762d4f9bf371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 51/81] fix: libc::StrEqual/StrCmp with a length (string_view
 ==, compare) stopped at the first NUL character

---
 src/jstd/string/string_libc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_libc.h b/src/jstd/string/string_libc.h
index 37f4f81..ef465ff 100644
--- a/src/jstd/string/string_libc.h
+++ b/src/jstd/string/string_libc.h
@@ -126,7 +126,7 @@ inline
 bool StrEqual(const char * str1, const char * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::strncmp(str1, str2, count) == 0);
+    return (std::memcmp((const void *)str1, (const void *)str2, count * sizeof(char)) == 0);
 }
 
 template <>
@@ -134,7 +134,7 @@ inline
 bool StrEqual(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::wcsncmp(str1, str2, count) == 0);
+    return (std::wmemcmp(str1, str2, count) == 0);
 }
 
 template <typename CharTy>
@@ -271,13 +271,13 @@ int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
 template <>
 inline
 int StrCmp(const char * str1, const char * str2, std::size_t count) {
-    return std::strncmp(str1, str2, count);
+    return std::memcmp((const void *)str1, (const void *)str2, count * sizeof(char));
 }
 
 template <>
 inline
 int StrCmp(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
-    return std::wcsncmp(str1, str2, count);
+    return std::wmemcmp(str1, str2, count);
 }
 
 template <typename CharTy>
-- 
2.43.0


From d5f7a4d5b287cdc83e8a3998c3103d0e7cad03f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 52/81] fix: stl::StrCmp (string_view compare) ordered wide
 strings by their bytes, stl::StrEqual did not return its result

---
 src/jstd/string/string_stl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index ed17d13..5422b08 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -71,7 +71,7 @@ bool StrEqual(const CharTy * str1, std::size_t len1, const CharTy * str2, std::s
     }
     else {
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
-            StrEqual(str1, str2, len1);
+            return StrEqual(str1, str2, len1);
         }
         else {
             // The str1 and str2 is a same string.
@@ -145,7 +145,7 @@ inline
 int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return std::memcmp((const void *)str1, (const void *)str2, count * sizeof(CharTy));
+    return libc::StrCmp(str1, str2, count);
 }
 
 /*********************************************************************
-- 
2.43.0


From dfc13be97ff5c14fea86ec20cac54a021853c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 53/81] fix: pow2::round_up, next_pow2 shifted by 64 for
 operands above 2^63 (a huge reserve() asked for no room)

---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index ef6e5fd..604d813 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -257,7 +257,7 @@ round_up(SizeType N)
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if (n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 1) || (Min_n > 1)) {
             assert(n > 1);
             std::uint32_t ms1b = bitScanReverse(n - 1);
@@ -292,7 +292,7 @@ next_pow2(SizeType N)
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if (n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 0) || (Min_n > 0)) {
             assert(n > 0);
             std::uint32_t ms1b = bitScanReverse(n);
-- 
2.43.0


From ea0b2391f364138bf4cbd71c69b3b740daed6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 54/81] fix: compile_time::countTrailingZeros was wrong for
 operands that are no power of two

---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 604d813..45f86ce 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -793,8 +793,8 @@ COUNT_TRAILING_ZEROS_IMPL(0);
 
 template <std::size_t N>
 struct countTrailingZeros {
-    static constexpr std::size_t round_up_2 = is_pow2<N>::value ? N : round_up_pow2<N>::value;
-    static constexpr std::size_t value = countTrailingZeros_impl<0, round_up_2>::value;
+    static constexpr std::size_t low_bit = N & (~N + 1);
+    static constexpr std::size_t value = countTrailingZeros_impl<0, low_bit>::value;
 };
 
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c446ad238f8b4473b4329a835ba4d3d2edc4621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 55/81] fix: BitUtils::__internal_popcnt64 (clz, ctz) ignored
 the upper half of the operand

---
 src/jstd/support/BitUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 67480a9..d7d526f 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -86,9 +86,9 @@ namespace BitUtils {
     static inline
     unsigned int __internal_popcnt64(uint64_t x) {
     #if 1
-        x -=  ((x >> 1U) & 0x55555555U);
-        x  = (((x >> 2U) & 0x33333333U) + (x & 0x33333333U));
-        x  = (((x >> 4U) + x) & 0x0F0F0F0FU);
+        x -=  ((x >> 1U) & 0x5555555555555555ULL);
+        x  = (((x >> 2U) & 0x3333333333333333ULL) + (x & 0x3333333333333333ULL));
+        x  = (((x >> 4U) + x) & 0x0F0F0F0F0F0F0F0FULL);
         x +=   (x >> 8U);
         x +=   (x >> 16U);
         x +=   (x >> 32U);
-- 
2.43.0


From ab6abe80d84d406995955a5feff8be683676c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 56/81] fix: BitUtils::log2_32, log2_64, log2_int returned 1
 for 1

---
 src/jstd/support/BitUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index d7d526f..a00a2d4 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -523,11 +523,11 @@ namespace BitUtils {
     // log2_int()
     //
     static inline uint32_t log2_32(uint32_t n) {
-        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : n;
+        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : 0;
     }
 
     static inline uint64_t log2_64(uint64_t n) {
-        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : n;
+        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : 0;
     }
 
     static inline size_t log2_int(size_t n) {
-- 
2.43.0


From c55a5b75c6a9aeed0c2401ff3be21a166c8ce73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 57/81] fix: BKDRHash, Times31, Times31Std of wide strings read
 sizeof(CharTy) times too far

---
 src/jstd/hasher/hashes.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index e4eecce..c5f6360 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -311,8 +311,6 @@ static std::uint32_t BKDRHash(const CharTy * key, std::size_t len)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    len *= sizeof(CharTy);
-
     const UCharTy * src = (const UCharTy *)key;
     const UCharTy * end = src + len;
     std::uint32_t hash = 0;
@@ -348,8 +346,6 @@ static std::uint32_t BKDRHash_31(const CharTy * key, std::size_t len)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    len *= sizeof(CharTy);
-
     const UCharTy * src = (const UCharTy *)key;
     const UCharTy * end = src + len;
     std::uint32_t hash = 0;
@@ -382,8 +378,6 @@ static std::uint32_t BKDRHash_31_std(const CharTy * key, std::size_t len)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    len *= sizeof(CharTy);
-
     const UCharTy * src = (const UCharTy *)key;
     const UCharTy * end = src + len;
     std::uint32_t hash = 0;
-- 
2.43.0


From 2a73c6eb5423bc5186ceca0772c44af472df485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 58/81] fix: hash_crc32 read up to 7 bytes beyond the end of
 the data

---
 src/jstd/hasher/hash_crc32.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index a3aff9e..93bfe58 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -12,8 +12,11 @@
 
 #include "jstd/hasher/hashes.h"
 
+#include <string.h>
 #include <assert.h>
 
+#include <cstring>
+
 // Just for coding in msvc or test, please comment it in the release version.
 #ifdef _MSC_VER
 #ifndef __SSE4_2__
@@ -121,7 +124,9 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint32_t data32 = *(uint32_t *)(data);
+                // Don't read beyond the end of the data.
+                uint32_t data32 = 0;
+                std::memcpy((void *)&data32, (const void *)data, (size_t)remain);
                 uint32_t rest = (uint32_t)(kStepSize - remain);
                 assert(rest > 0 && rest < (uint32_t)kStepSize);
                 uint32_t mask = kMaskOne >> (rest * 8U);
@@ -161,7 +166,9 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint64_t data64 = *(uint64_t *)(data);
+                // Don't read beyond the end of the data.
+                uint64_t data64 = 0;
+                std::memcpy((void *)&data64, (const void *)data, (size_t)remain);
                 size_t rest = (size_t)(kStepSize - remain);
                 assert(rest > 0 && rest < (size_t)kStepSize);
                 uint64_t mask = kMaskOne >> (rest * 8U);
-- 
2.43.0


From a0877ba6af7f3035d6a87e7ce9498e7afd0e6a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 59/81] fix: hash_crc32.h did not compile without SSE 4.2

---
 src/jstd/hasher/hash_crc32.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index 93bfe58..7dfcd65 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -263,7 +263,7 @@ static size_t int_hash_crc32(size_t value)
     return intel_int_crc32_x86(value);
   #endif
 #else
-    return hashes::Times31(value, sizeof(value));
+    return hashes::Times31((const char *)&value, sizeof(value));
 #endif
 }
 
@@ -272,7 +272,7 @@ static size_t simple_int_hash_crc32(size_t value)
 #ifdef __SSE4_2__
     return intel_simple_int_crc32(value);
 #else
-    return hashes::Times31(value, sizeof(value));
+    return hashes::Times31((const char *)&value, sizeof(value));
 #endif
 }
 
-- 
2.43.0


From 90ba63605acfab468451188ac383212acca35ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 60/81] fix: hashes.h did not compile when it was the first
 header included

---
 src/jstd/hasher/hashes.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index c5f6360..1099718 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -18,14 +18,15 @@
 #include <bitset>
 #include <climits>
 
+#include "jstd/basic/stddef.h"
+#include "jstd/basic/stdint.h"
+#include "jstd/basic/stdsize.h"
+
 #if (jstd_cplusplus >= 2017L)
 #include <string_view>
 #include <filesystem>
 #endif
 
-#include "jstd/basic/stddef.h"
-#include "jstd/basic/stdint.h"
-#include "jstd/basic/stdsize.h"
 #include "jstd/string/char_traits.h"
 #include "jstd/string/string_view.h"
 #include "jstd/string/string_view_array.h"
-- 
2.43.0


From 3d372193375409e7bbdbafb4c1b77c3147073dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 61/81] fix: string_traits::is_equal of two C strings did not
 compile

---
 src/jstd/string/string_utils.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index c0bb9e3..9e0fa55 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -137,6 +137,17 @@ wchar_t * str_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 
 ////////////////////////////////// is_equal() //////////////////////////////////////
 
+template <typename CharTy>
+static inline
+bool is_equal(const CharTy * str1, const CharTy * str2)
+{
+#if (STRING_UTILS_MODE == STRING_UTILS_STL)
+    return stl::StrEqual(str1, str2);
+#else
+    return libc::StrEqual(str1, str2);
+#endif
+}
+
 #if 0
 
 template <typename CharTy>
-- 
2.43.0


From b385aa8ca42365ae250b45cae0a47735890d5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 62/81] fix: pow2::log2_int of narrow operands above half of
 their range returned the type's maximum

---
 src/jstd/support/Power2.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 45f86ce..2e8a6a2 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -327,17 +327,12 @@ log2_int(SizeType N)
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
-        if ((n > 1) || (Min_n > 1)) {
-            assert(n > 1);
-            std::uint32_t ms1b = bitScanReverse(n - 1);
-            return return_type(ms1b + 1);
-        } else {
-            return return_type(0);
-        }
-    }
-    else {
-        return (return_type)(std::numeric_limits<unsigned_type>::max)();
+    if ((n > 1) || (Min_n > 1)) {
+        assert(n > 1);
+        std::uint32_t ms1b = bitScanReverse(n - 1);
+        return return_type(ms1b + 1);
+    } else {
+        return return_type(0);
     }
 }
 
-- 
2.43.0


From dcfc78fce32fb80949094741b86833518f5ef145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 63/81] fix: the portable uint128_mul lost the carry of its
 middle products

---
 src/jstd/hasher/hashes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index 1099718..aaddf8d 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -601,9 +601,9 @@ _uint128_t uint128_mul(uint64_t multiplicand, uint64_t multiplier)
     uint64_t product_03 = (uint64_t)high0 * high1;
 
     /* Now add the products together. These will never overflow. */
-    uint64_t middle = product_01 + product_02 + (uint32_t)(product_00 >> 32);
+    uint64_t middle = product_02 + (uint32_t)(product_00 >> 32) + (uint32_t)(product_01 & 0xFFFFFFFFul);
     uint64_t low64  = (uint32_t)(product_00 & 0xFFFFFFFFul) | (middle << 32);
-    uint64_t high64 = product_03 + (uint32_t)(middle >> 32);
+    uint64_t high64 = product_03 + (uint32_t)(product_01 >> 32) + (uint32_t)(middle >> 32);
     return _uint128_t(low64, high64);
 #endif // __i386__
 }
-- 
2.43.0


From 8d79bcf44a9de563b99d6ffe0e52082195cacd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 64/81] fix: hash_helper<T *> read the size of a pointer
 instead of the size of the key

---
 src/jstd/hasher/hash_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index d27bc78..4ee9ce8 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -165,13 +165,13 @@ struct JSTD_DLL hash_helper<T *, ResultType, HashFunc> {
 
     static result_type getHashCode(const key_type * key) {
         if (HashFunc == HashFunc_CRC32C)
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type)));
         else if (HashFunc == HashFunc_Time31)
-            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type)));
         else if (HashFunc == HashFunc_Time31Std)
-            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type)));
         else
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type)));
     }
 };
 
-- 
2.43.0


From 03a7710aff4565f90bbaa177641f18288d5a3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 65/81] fix: jstd::hash of strings and views hashed the object
 (its address) unless JSTD_HAVE_SSE42_CRC32C was defined

---
 src/jstd/hasher/hash_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 4ee9ce8..8d488a0 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -206,8 +206,6 @@ struct JSTD_DLL string_hash_helper {
     }
 };
 
-#if JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_CRC32C> {
@@ -218,8 +216,10 @@ struct hash_helper<const char *, std::uint32_t, HashFunc_CRC32C> {
 ****************************************************************************/
 
 HASH_HELPER_CHAR_ALL(HASH_HELPER_CHAR, std::uint32_t, HashFunc_CRC32C, jstd::hashes::hash_crc32);
+#if JSTD_HAVE_SSE42_CRC32C
 HASH_HELPER_INTEGRAL_ALL(HASH_HELPER_INTEGRAL, std::uint32_t, HashFunc_CRC32C);
 HASH_HELPER_FLOAT_ALL(HASH_HELPER_FLOAT, std::uint32_t, HashFunc_CRC32C, jstd::hashes::hash_crc32);
+#endif // JSTD_HAVE_SSE42_CRC32C
 
 template <>
 struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_CRC32C> {
@@ -293,8 +293,6 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
     }
 };
 
-#endif // JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_Time31> {
-- 
2.43.0


From 37a34b60d23e6739a115c4c85fe4d72d78e47a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 66/81] fix: the empty key hashed differently as a null view,
 as a pointer with length and as a string

---
 src/jstd/hasher/hash_helper.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 8d488a0..a1228c9 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -39,7 +39,7 @@
                 return (ResultType)HashFunc((const char *)data,                 \
                                             length * sizeof(char_type));        \
             else                                                                \
-                return 0;                                                       \
+                return (ResultType)HashFunc("", 0);                             \
         }                                                                       \
                                                                                 \
         static ResultType getHashCode(char_type * data) {                       \
@@ -200,9 +200,12 @@ struct JSTD_DLL string_hash_helper {
             else
                 return static_cast<result_type>(hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(char_type)));
         }
-        else {
+        else if (HashFunc == HashFunc_Time31 || HashFunc == HashFunc_Time31Std) {
             return static_cast<ResultType>(0);
         }
+        else {
+            return static_cast<ResultType>(hashes::hash_crc32("", 0));
+        }
     }
 };
 
@@ -253,7 +256,7 @@ struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_CRC32C> {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -265,7 +268,7 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_CRC32C>
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -277,7 +280,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -289,7 +292,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
-- 
2.43.0


From 67acc6326873229f7f47e4b96a80a9d141fc6426 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 67/81] fix: insert() and emplace() of a convertible pair did
 not compile in the group maps

---
 src/jstd/hashmap/group15_flat_map.hpp   |  2 +-
 src/jstd/hashmap/group15_flat_table.hpp | 11 +----------
 src/jstd/hashmap/group16_flat_map.hpp   |  2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 11 +----------
 4 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index c825164..4449afc 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -451,7 +451,7 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 540476a..60d60b3 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2380,7 +2380,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         auto find_info = this->find_or_insert(value.first);
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
@@ -2394,15 +2393,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = std::forward<ValueT>(value).second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { locator, need_insert };
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 9351a8d..83dd1bf 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -448,7 +448,7 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 53a380e..792a60f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2257,7 +2257,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         auto find_info = this->find_or_insert(value.first);
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
@@ -2271,15 +2270,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = std::forward<ValueT>(value).second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { this->iterator_at(slot_index), need_insert };
-- 
2.43.0


From ea3e0b616838148e925e1c448cf4e6fd1ee42538 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 68/81] fix: robin_hash_map lost the elements of a single-pass
 range given to its constructor

---
 src/jstd/hashmap/robin_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f819d31..6f00906 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3085,7 +3085,10 @@ public:
         allocator_(alloc),
         ctrl_allocator_(alloc), slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = jstd::distance(first, last);
+        // (A single-pass range can not be measured, its elements can only be read once.)
+        static constexpr bool isMultiPass = std::is_base_of<std::forward_iterator_tag,
+            typename std::iterator_traits<InputIter>::iterator_category>::value;
+        size_type input_size = isMultiPass ? jstd::distance(first, last) : 0;
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         try {
-- 
2.43.0


From 3a89ebf4b20384c2bd450ec7b51f1f03b227df66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 69/81] fix: MT19937_64 uses the parameters of MT19937-64, not
 those of MT19937-32

---
 src/jstd/system/MT19937_64.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 57256a7..2cf8b93 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -180,7 +180,7 @@ private:
         }
         this->state[0] = initSeed;
         for (size_type j = 1; j < N; ++j) {
-            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 30)) + (value_type)j);
+            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 62)) + (value_type)j);
             // See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier.
             // In the previous versions, MSBs of the seed affect
             // only MSBs of the array state[].
@@ -209,8 +209,8 @@ private:
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1664525ul)) + init_key[j] + (value_type)j;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 3935559000370003845ull)) + init_key[j] + (value_type)j;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             ++j;
@@ -224,8 +224,8 @@ private:
 
         for (k = N - 1; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1566083941ul)) - (value_type)i;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 2862933555777941757ull)) - (value_type)i;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             if (i >= N) {
@@ -254,7 +254,7 @@ private:
     }
 
     value_type mixbits(value_type u, value_type v) const {
-        return (u & 0x8000000000000000ull) | (v & 0x7FFFFFFFFFFFFFFFull);
+        return (u & 0xFFFFFFFF80000000ull) | (v & 0x000000007FFFFFFFull);
     }
 
     value_type twist(value_type u, value_type v) const {
-- 
2.43.0


From 8cb4d9d81a2da56e9b82f7ae64d28376d82543fc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 70/81] fix: srand() of the Mersenne Twisters no longer skips
 the last word of the first block

---
 src/jstd/system/MT19937_32.h | 6 +++---
 src/jstd/system/MT19937_64.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 466b3bb..b865f28 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 2cf8b93..2227635 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
-- 
2.43.0


From 20b0534c6835f78109319c742ca3746bb57bff28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 71/81] fix: a copied Mersenne Twister continues from its own
 state, not from that of the original

---
 src/jstd/system/MT19937_32.h | 15 ++++++---------
 src/jstd/system/MT19937_64.h | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index b865f28..2b078c1 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -146,22 +146,22 @@ public:
     static const size_type N = 624, M = 397;
 
 private:
-    value_type * next;
+    size_type    next;
     value_type   left;
     value_type   state[N];
 
 public:
-    explicit MT19937_32(value_type initSeed = kMTDefaultSeed) : next(nullptr), left(1) {
+    explicit MT19937_32(value_type initSeed = kMTDefaultSeed) : next(0), left(1) {
         this->init(initSeed);
     }
 
     MT19937_32(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : next(0), left(1) {
         this->init(init_key, key_len, initSeed);
     }
 
     MT19937_32(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : next(0), left(1) {
         this->init(init_key, initSeed);
     }
 
@@ -250,7 +250,7 @@ private:
 
         *p = p[N - M] ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
-        this->next = &this->state[0];
+        this->next = 0;
     }
 
     value_type mixbits(value_type u, value_type v) const {
@@ -283,10 +283,7 @@ public:
             this->next_state();
         }
 
-        if (this->next != nullptr)
-            y = *(this->next++);
-        else
-            y = static_cast<value_type>(LibcRand::rand32());
+        y = this->state[this->next++];
 
         // Tempering
         y ^= (y >> 11);
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 2227635..131feef 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -146,22 +146,22 @@ public:
     static const size_type N = 312, M = 156;
 
 private:
-    value_type * next;
+    size_type    next;
     value_type   left;
     value_type   state[N];
 
 public:
-    explicit MT19937_64(value_type initSeed = kMTDefaultSeed) : next(nullptr), left(1) {
+    explicit MT19937_64(value_type initSeed = kMTDefaultSeed) : next(0), left(1) {
         this->init(initSeed);
     }
 
     MT19937_64(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : next(0), left(1) {
         this->init(init_key, key_len, initSeed);
     }
 
     MT19937_64(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : next(0), left(1) {
         this->init(init_key, initSeed);
     }
 
@@ -250,7 +250,7 @@ private:
 
         *p = p[N - M] ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
-        this->next = &this->state[0];
+        this->next = 0;
     }
 
     value_type mixbits(value_type u, value_type v) const {
@@ -283,10 +283,7 @@ public:
             this->next_state();
         }
 
-        if (this->next != nullptr)
-            y = *(this->next++);
-        else
-            y = static_cast<value_type>(LibcRand::rand64());
+        y = this->state[this->next++];
 
         // Tempering
         y ^= (y >> 29) & 0x5555555555555555ull;
-- 
2.43.0


From 259a15ef825c9a3a312b3233b4a35141d5880dd3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 72/81] fix: ranged random integers over the whole range of a
 type no longer divide by zero

---
 src/jstd/system/RandomGen.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 7101494..2cdf7d0 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -239,17 +239,21 @@ private:
 
     template <typename ValueType, typename UnsignedType = ValueType>
     static ValueType nextInteger(ValueType minValue, ValueType maxValue) {
-        ValueType result;
+        UnsignedType lower, range;
         if (minValue <= maxValue) {
-            result = minValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(maxValue - minValue + 1));
+            lower = static_cast<UnsignedType>(minValue);
+            range = static_cast<UnsignedType>(maxValue) - lower + 1;
         }
         else {
             assert(minValue > maxValue);
-            result = maxValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(minValue - maxValue + 1));
+            lower = static_cast<UnsignedType>(maxValue);
+            range = static_cast<UnsignedType>(minValue) - lower + 1;
         }
-        return result;
+        UnsignedType value = static_cast<UnsignedType>(this_type::template nextInteger<ValueType>());
+        // The range is zero if it covers every value of the type.
+        if (range != 0)
+            value %= range;
+        return static_cast<ValueType>(lower + value);
     }
 
     template <typename ValueType, typename UnsignedType = ValueType>
-- 
2.43.0


From 02a9eaa1caa54d43a8cfc27a01ff554f5481460c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 73/81] fix: nextInt(maxValue) of the random generators accepts
 a negative bound

---
 src/jstd/system/RandomGen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 2cdf7d0..0e7a1a6 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -160,7 +160,7 @@ public:
     }
 
     static std::intptr_t nextInt(std::intptr_t maxValue) {
-        return this_type::nextUInt(0, maxValue);
+        return this_type::nextInt(0, maxValue);
     }
 
     static std::size_t nextUInt(std::size_t minValue, std::size_t maxValue) {
-- 
2.43.0


From ded961be70a230f95c9e1a1acda4e96c63edf47b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 74/81] fix: the Mersenne Twisters read words behind their
 state instead of the words M - N before

---
 src/jstd/system/MT19937_32.h | 4 ++--
 src/jstd/system/MT19937_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 2b078c1..0545201 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -245,10 +245,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = 0;
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 131feef..5a062f4 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -245,10 +245,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = 0;
     }
-- 
2.43.0


From f0b8c3b2d9e09010055093592fa79638f41a3d03 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 75/81] fix: reserve(), rehash() and constructors refuse
 capacities whose size overflows

---
 src/jstd/hashmap/group15_flat_table.hpp | 12 ++++++++++--
 src/jstd/hashmap/group16_flat_table.hpp | 12 ++++++++++--
 src/jstd/hashmap/robin_hash_map.h       |  9 ++++++++-
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 60d60b3..5fbf197 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -61,6 +61,7 @@
 #include <limits>           // For std::numeric_limits<T>, CHAR_BIT
 #include <initializer_list>
 #include <type_traits>
+#include <stdexcept>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
 
@@ -1231,12 +1232,16 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
                   new_capacity = (std::max)(new_capacity, this->slot_size());
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
         }
+        // The size of the storage, in bytes, must not overflow.
+        if (new_capacity > this->max_size() / 2) {
+            throw std::length_error("jstd::group15_flat_map: the capacity is too large.");
+        }
         return new_capacity;
     }
 
@@ -1315,9 +1320,12 @@ private:
         return this_type::calc_group_mask(capacity);
     }
 
-    inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
+    inline size_type shrink_to_fit_capacity(size_type init_capacity) const {
         if (init_capacity == 0)
             return 0;
+        if (init_capacity > (std::numeric_limits<size_type>::max)() / kLoadFactorAmplify - 1) {
+            throw std::length_error("jstd::group15_flat_map: the capacity is too large.");
+        }
         // Each group only has kGroupSize slots, and the last slot is the sentinel mark.
         size_type num_slots = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         size_type num_groups = (num_slots + 1 + kGroupSize - 1) / kGroupSize;
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 792a60f..1eb4dc4 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -61,6 +61,7 @@
 #include <limits>           // For std::numeric_limits<T>, CHAR_BIT
 #include <initializer_list>
 #include <type_traits>
+#include <stdexcept>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
 
@@ -1173,12 +1174,16 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
                   new_capacity = (std::max)(new_capacity, this->slot_size());
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
         }
+        // The size of the storage, in bytes, must not overflow.
+        if (new_capacity > this->max_size() / 2) {
+            throw std::length_error("jstd::group16_flat_map: the capacity is too large.");
+        }
         return new_capacity;
     }
 
@@ -1234,7 +1239,10 @@ private:
         return this_type::calc_group_mask(capacity);
     }
 
-    inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
+    inline size_type shrink_to_fit_capacity(size_type init_capacity) const {
+        if (init_capacity > (std::numeric_limits<size_type>::max)() / kLoadFactorAmplify - 1) {
+            throw std::length_error("jstd::group16_flat_map: the capacity is too large.");
+        }
         size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 6f00906..e13118d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3848,11 +3848,15 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
         }
+        // The size of the storage, in bytes, must not overflow.
+        if (new_capacity > (std::numeric_limits<ssize_type>::max)() / sizeof(value_type) / 2) {
+            throw std::length_error("jstd::robin_hash_map: the capacity is too large.");
+        }
         return new_capacity;
     }
 
@@ -3874,6 +3878,9 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
+        if (init_capacity > (std::numeric_limits<size_type>::max)() / kLoadFactorAmplify - 1) {
+            throw std::length_error("jstd::robin_hash_map: the capacity is too large.");
+        }
         // The smallest capacity whose threshold is not less than init_capacity, see calc_slot_threshold().
         size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->integral_mlf() - 1) / this->integral_mlf();
         return new_capacity;
-- 
2.43.0


From a57cc5ed7d4e31ccf0e6729e446b1833be00d686 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 76/81] fix: a moved-from map keeps a usable hasher and
 key-equality object

---
 src/jstd/hashmap/group15_flat_table.hpp | 8 ++++----
 src/jstd/hashmap/group16_flat_table.hpp | 8 ++++----
 src/jstd/hashmap/robin_hash_map.h       | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 5fbf197..bc0c582 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -364,8 +364,8 @@ public:
 #if GROUP15_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
+        hasher_(other.hash_function_ref()),
+        key_equal_(other.key_eq_ref()),
         allocator_(std::move(other.get_allocator_ref())),
         group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
@@ -389,8 +389,8 @@ public:
 #if GROUP15_USE_HASH_POLICY
         hash_policy_(std::move(other.hash_policy_ref())),
 #endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
+        hasher_(other.hash_function_ref()),
+        key_equal_(other.key_eq_ref()),
         allocator_(allocator), group_allocator_(allocator), slot_allocator_(allocator) {
         if (this->get_allocator_ref() == other.get_allocator_ref()) {
             // Swap content only
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1eb4dc4..49381dd 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -353,8 +353,8 @@ public:
 #if GROUP16_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
+        hasher_(other.hash_function_ref()),
+        key_equal_(other.key_eq_ref()),
         allocator_(std::move(other.get_allocator_ref())),
         group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
@@ -376,8 +376,8 @@ public:
 #if GROUP16_USE_HASH_POLICY
         hash_policy_(std::move(other.hash_policy_ref())),
 #endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
+        hasher_(other.hash_function_ref()),
+        key_equal_(other.key_eq_ref()),
         allocator_(allocator), group_allocator_(allocator), slot_allocator_(allocator) {
         if (this->get_allocator_ref() == other.get_allocator_ref()) {
             // Swap content only
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e13118d..c2794a0 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3164,8 +3164,8 @@ public:
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
+        hasher_(other.hash_function_ref()),
+        key_equal_(other.key_eq_ref()),
         allocator_(std::move(other.get_allocator_ref())),
         ctrl_allocator_(std::move(other.get_ctrl_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
@@ -3182,8 +3182,8 @@ public:
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
+        hasher_(other.hash_function_ref()),
+        key_equal_(other.key_eq_ref()),
         allocator_(alloc),
         ctrl_allocator_(alloc),
         slot_allocator_(alloc) {
-- 
2.43.0


From 4287d6ce61c86124fafa9e5399769379a4407214 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:52:06 +0000
Subject: [PATCH 77/81] fix: emplace(piecewise_construct) works for
 floating-point, enumeration and final types

---
 src/jstd/utility/utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/utility/utility.h b/src/jstd/utility/utility.h
index 5b232ad..ae31781 100644
--- a/src/jstd/utility/utility.h
+++ b/src/jstd/utility/utility.h
@@ -143,7 +143,7 @@ T exchange(T & target, U && new_value) noexcept(
 // tuple_wrapper<T, DecayT, bool IsIntegral>
 //
 template <typename T, typename DecayT = typename std::remove_reference<T>::type,
-          bool IsIntegralOrPointer = (std::is_integral<DecayT>::value || std::is_pointer<DecayT>::value)>
+          bool IsNotInheritable = (!std::is_class<DecayT>::value || std::is_final<DecayT>::value)>
 struct tuple_wrapper : public DecayT {
     using value_type = typename std::remove_reference<T>::type;
 
@@ -246,7 +246,7 @@ struct tuple_wrapper<T, typename std::remove_reference<T>::type, true> {
 // tuple_wrapper2<T, DecayT, IsIntegral>
 //
 template <typename T, typename DecayT = typename std::remove_reference<T>::type,
-          bool IsIntegralOrPointer = (std::is_integral<DecayT>::value || std::is_pointer<DecayT>::value)>
+          bool IsNotInheritable = (!std::is_class<DecayT>::value || std::is_final<DecayT>::value)>
 struct tuple_wrapper2 : DecayT {
     using value_type = typename std::remove_reference<T>::type;
 
-- 
2.43.0


From 33b3d7b8b0728c8a91bed36df20e066ed89af668 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 78/81] fix: group15/16_flat_map::max_load_factor(z) could
 leave a threshold below the size, which erasures then wrapped around

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 +++-
 src/jstd/hashmap/group16_flat_table.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index bc0c582..a91dd63 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -644,7 +644,9 @@ public:
             // Keep the part of the threshold which is lost by the erased slots.
             size_type lost_slots = old_threshold - this->slot_threshold();
             size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
-            this->slot_threshold_ = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
+            new_threshold = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
+            // Each element may lower it once more when it is erased.
+            this->slot_threshold_ = (std::max)(new_threshold, this->slot_size());
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 49381dd..9347ece 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -600,7 +600,9 @@ public:
             // Keep the part of the threshold which is lost by the erased slots.
             size_type lost_slots = old_threshold - this->slot_threshold();
             size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
-            this->slot_threshold_ = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
+            new_threshold = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
+            // Each element may lower it once more when it is erased.
+            this->slot_threshold_ = (std::max)(new_threshold, this->slot_size());
         }
     }
 
-- 
2.43.0


From 976d7d7b0fb3a047f88af8dd017d4a2a38af05b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:51:51 +0000
Subject: [PATCH 79/81] fix: robin_hash_map growing a table rebuilt read only
 exceeded the max load factor

---
 src/jstd/hashmap/robin_hash_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index c2794a0..6081d93 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4301,7 +4301,9 @@ private:
     }
 
     void grow_if_necessary() {
-        size_type new_capacity = (this->slot_mask_ + 1) * 2;
+        // After a read only rehash, twice the capacity may be not enough for the new element.
+        size_type new_capacity = (std::max)((this->slot_mask_ + 1) * 2,
+                                            this->min_require_capacity(this->slot_size() + 1));
         this->rehash_impl<false, true>(new_capacity);
     }
 
-- 
2.43.0


From 3c6a99f22f7b41d1a14f65428e7bb253631316d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:08:42 +0000
Subject: [PATCH 80/81] fix: shrink_to_fit(read_only) of group15/16_flat_map
 chose a capacity too small for the elements, or a threshold that erasures
 wrapped around

---
 src/jstd/hashmap/group15_flat_table.hpp | 13 +++++++++++--
 src/jstd/hashmap/group16_flat_table.hpp |  8 +++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index a91dd63..e635509 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -642,7 +642,8 @@ public:
             this->rehash(new_ctrl_capacity);
         } else {
             // Keep the part of the threshold which is lost by the erased slots.
-            size_type lost_slots = old_threshold - this->slot_threshold();
+            size_type lost_slots = (old_threshold > this->slot_threshold()) ?
+                                   (old_threshold - this->slot_threshold()) : 0;
             size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
             new_threshold = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
             // Each element may lower it once more when it is erased.
@@ -783,8 +784,11 @@ public:
         size_type new_capacity;
         if (JSTD_LIKELY(!read_only))
             new_capacity = this->shrink_to_fit_capacity(this->size());
+        else if (this->size() != 0)
+            // Each group only has kGroupSize slots, and the last slot is the sentinel mark.
+            new_capacity = (this->size() + kGroupSize) / kGroupSize * kGroupWidth;
         else
-            new_capacity = this->size();
+            new_capacity = 0;
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
@@ -1996,6 +2000,11 @@ private:
 
             assert(this->slot_size() == old_slot_size);
 
+            // A table that was shrunk for reading only holds more elements than its
+            // max load factor allows, and each of them may lower the threshold once
+            // when it is erased.
+            this->slot_threshold_ = (std::max)(this->slot_threshold(), this->slot_size());
+
 #if GROUP15_USE_SEPARATE_SLOTS
             if (old_groups != this_type::default_empty_groups()) {
                 assert(old_groups_alloc != nullptr);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9347ece..3604cc5 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -598,7 +598,8 @@ public:
             this->rehash(new_ctrl_capacity);
         } else {
             // Keep the part of the threshold which is lost by the erased slots.
-            size_type lost_slots = old_threshold - this->slot_threshold();
+            size_type lost_slots = (old_threshold > this->slot_threshold()) ?
+                                   (old_threshold - this->slot_threshold()) : 0;
             size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
             new_threshold = (new_threshold > lost_slots) ? (new_threshold - lost_slots) : 0;
             // Each element may lower it once more when it is erased.
@@ -1908,6 +1909,11 @@ private:
 
             assert(this->slot_size() == old_slot_size);
 
+            // A table that was shrunk for reading only holds more elements than its
+            // max load factor allows, and each of them may lower the threshold once
+            // when it is erased.
+            this->slot_threshold_ = (std::max)(this->slot_threshold(), this->slot_size());
+
 #if GROUP16_USE_SEPARATE_SLOTS
             if (old_groups != this_type::default_empty_groups()) {
                 assert(old_groups_alloc != nullptr);
-- 
2.43.0


From f81d20355c60c18bec0233b5bd22951d3a5d4f84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:26:39 +0000
Subject: [PATCH 81/81] fix: robin_hash_map lost the elements not yet moved
 when the growth of a table being rebuilt failed

---
 src/jstd/hashmap/robin_hash_map.h | 87 +++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 6081d93..62e0277 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4437,6 +4437,90 @@ private:
         this->slot_threshold_ = this->calc_slot_threshold(new_capacity);
     }
 
+    // The old table of a rehash. If the new table has to grow while the elements are
+    // being moved into it, and that fails, the elements are moved back.
+    struct rehash_rollback {
+        this_type * table;
+        ctrl_type * ctrls;
+        slot_type * slots;
+        slot_type * last_slot;
+        size_type   slot_size;
+        size_type   slot_mask;
+        size_type   max_lookups;
+        size_type   slot_threshold;
+        bool        completed;
+
+        explicit rehash_rollback(this_type * owner) noexcept
+            : table(owner), ctrls(owner->ctrls_), slots(owner->slots_), last_slot(owner->last_slot_),
+              slot_size(owner->slot_size_), slot_mask(owner->slot_mask_), max_lookups(owner->max_lookups_),
+              slot_threshold(owner->slot_threshold_), completed(true) {
+        }
+
+        ~rehash_rollback() {
+            if (!this->completed) {
+                this->table->rollback_rehash(*this);
+            }
+        }
+
+        void swap_with_table() noexcept {
+            using std::swap;
+            swap(this->table->ctrls_, this->ctrls);
+            swap(this->table->slots_, this->slots);
+            swap(this->table->last_slot_, this->last_slot);
+            swap(this->table->slot_size_, this->slot_size);
+            swap(this->table->slot_mask_, this->slot_mask);
+            swap(this->table->max_lookups_, this->max_lookups);
+            swap(this->table->slot_threshold_, this->slot_threshold);
+        }
+    };
+
+    void rollback_rehash(rehash_rollback & other) {
+        // The elements that were moved are in [other] from now on.
+        other.swap_with_table();
+        size_type moved_size = other.slot_size;
+
+        if (!kIsIndirectKV) {
+            // The first [moved_size] elements of the old table were moved, mark their slots.
+            ctrl_type * old_ctrl = this->ctrls();
+            for (size_type i = 0; i < moved_size; old_ctrl++) {
+                if (old_ctrl->isUsed()) {
+                    old_ctrl->setDist(static_cast<typename ctrl_type::dist_type>(-1 - old_ctrl->dist));
+                    i++;
+                }
+            }
+
+            // Put each one into the first marked slot that belongs to its hash code.
+            ctrl_type * ctrl = other.ctrls;
+            slot_type * slot = other.slots;
+            for (size_type i = 0; i < moved_size; ctrl++, slot++) {
+                if (ctrl->isUsed()) {
+                    hash_code_t hash_code = this->get_hash(slot->value.first);
+                    size_type slot_index = this->index_for_hash(hash_code);
+                    typename ctrl_type::dist_type dist = 0;
+                    while (this->ctrl_at(slot_index)->dist != static_cast<typename ctrl_type::dist_type>(-1 - dist)) {
+                        slot_index++;
+                        dist++;
+                    }
+                    this->ctrl_at(slot_index)->setValue(dist, this->get_ctrl_hash(hash_code));
+                    this->transfer_slot(this->slot_at(slot_index), slot);
+                    i++;
+                }
+            }
+        } else {
+            // The elements have been moved in the order of the slots.
+            for (size_type i = 0; i < moved_size; i++) {
+                this->transfer_slot(this->slot_at(i), other.slots + i);
+            }
+        }
+
+        // Free the new table.
+        other.swap_with_table();
+        this->slot_size_ = 0;
+        this->clear_ctrls(this->ctrls(), this->slot_capacity(), this->max_lookups(), this->group_count());
+        this->destroy_data();
+        other.swap_with_table();
+    }
+
     template <bool AllowShrink, bool AlwaysResize>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
@@ -4466,7 +4550,9 @@ private:
             }
             CPU_Prefetch_Read_T2(old_slots);
 
+            rehash_rollback rollback(this);
             this->create_slots<false>(new_capacity);
+            rollback.completed = false;
 
             if (!kIsIndirectKV) {
                 // kIsIndirectKV = false
@@ -4668,6 +4754,7 @@ private:
 #endif
             }
 
+            rollback.completed = true;
             assert(this->slot_size() == old_slot_size);
 
             if (old_ctrls != this->default_empty_ctrls()) {
-- 
2.43.0

