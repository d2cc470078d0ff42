From 3413a1b8e74c5502498700c5441af8674d879911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 01/12] fix: use in-block offset when shrinking the last block
 in resize()

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..45abefd 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4360,7 +4360,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..8ca6cde 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5125,7 +5125,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From ac5fabdf3b2aa030729d963c85df9395c961778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 02/12] fix: pass the newly created block to
 element_block_acquired in insert()

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 8ca6cde..cfb9b6a 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2123,8 +2123,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From d152f6a23d7506de3a92747a542e76b54025f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 03/12] fix: free overwritten managed elements of the last
 block in ranged set()

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 45abefd..5b2182b 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4090,6 +4090,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index cfb9b6a..ba675d1 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3252,6 +3252,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From 83248e7183fbadb399d165ca0e8097e43d0d4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 04/12] fix: merge with the following block when ranged set()
 overwrites the whole last block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 11 +++++++++++
 include/mdds/multi_type_vector/soa/main_def.inl | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 5b2182b..c62211b 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4068,6 +4068,17 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         {
             // Data overlaps the entire block 2. Erase it.
             ++it_erase_end;
+
+            block* blk3 = get_next_block_of_type(block_index2, cat);
+            if (blk3)
+            {
+                // Merge the block that follows block 2 with block 1. Resize it
+                // to zero to prevent invalid free.
+                block_funcs::append_block(*blk1->data, *blk3->data);
+                block_funcs::resize_block(*blk3->data, 0);
+                blk1->size += blk3->size;
+                ++it_erase_end;
+            }
         }
         else if (blk2->data)
         {
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index ba675d1..94a3572 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3229,6 +3229,17 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         {
             // Data overlaps the entire block 2. Erase it.
             ++index_erase_end;
+
+            if (is_next_block_of_type(block_index2, cat))
+            {
+                // Merge the block that follows block 2 with block 1. Resize it
+                // to zero to prevent invalid free.
+                base_element_block* blk3_data = m_block_store.element_blocks[block_index2 + 1];
+                block_funcs::append_block(*blk1_data, *blk3_data);
+                block_funcs::resize_block(*blk3_data, 0);
+                m_block_store.sizes[block_index1] += m_block_store.sizes[block_index2 + 1];
+                ++index_erase_end;
+            }
         }
         else if (blk2_data)
         {
-- 
2.43.0


From 8896a31b46fd4c66565d78a798fe321d6fd34257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 05/12] fix: reject out-of-range positions before consulting
 the position hint

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index c62211b..95ae271 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -919,6 +919,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (row >= m_cur_size)
+        return m_blocks.size();
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 94a3572..56a0097 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4243,6 +4243,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (row >= m_cur_size)
+        return m_block_store.positions.size();
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From 60b883a4b8e9b1fe249b5727771c61e0910b2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 06/12] fix: avoid double deletion of managed elements when
 swap() merges with the next block

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 ++
 include/mdds/multi_type_vector/soa/main_def.inl | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 95ae271..e726e85 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3508,6 +3508,8 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                 {
                     // Apend elements from the next block too.
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
+                    // Resize it to zero to prevent deletion of the transferred elements.
+                    block_funcs::resize_block(*blk_next->data, 0);
                     blk_prev->size += blk_next->size;
                     ++it_end;
                     delete_element_block(*blk_next);
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 56a0097..4204835 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4862,6 +4862,8 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     // Apend elements from the next block too.
                     base_element_block* dst_next_data = m_block_store.element_blocks[dst_index + 1];
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
+                    // Resize it to zero to prevent deletion of the transferred elements.
+                    block_funcs::resize_block(*dst_next_data, 0);
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
                     delete_element_block(dst_index + 1);
-- 
2.43.0


From 385f27bdb39ccde52f234c977d08c8e244556d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 07/12] fix: treat a segment that ends at the left-most key as
 not overlapping

---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..c3df0f3 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -841,7 +841,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From 19bc6650227c265fbd8ff263ea79df5917e511a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 08/12] fix: merge equal neighbours when shifting left blanks
 an existing last segment

---
 include/mdds/flat_segment_tree.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..33a72c1 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -687,7 +687,18 @@ private:
     {
         if (m_right_leaf->prev->key == start_key)
         {
-            m_right_leaf->prev->value_leaf.value = m_init_val;
+            node_ptr last_node = m_right_leaf->prev;
+            last_node->value_leaf.value = m_init_val;
+
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The preceding segment has the same value. Combine them by
+                // removing the redundant node.
+                node_ptr prev_node = last_node->prev;
+                st::detail::link_nodes<node_ptr>(prev_node, m_right_leaf);
+                disconnect_all_nodes(last_node.get());
+                m_valid_tree = false;
+            }
             return;
         }
 
-- 
2.43.0


From 5e3502d6a7208cc173c7f42bf85681056082c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 09/12] fix: fall back to a normal search when the start
 position is past the key

---
 include/mdds/flat_segment_tree_def.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index c3df0f3..d69ea98 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,13 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+        // The position is either invalid or already past the key.  Fall back
+        // to normal search.
+        return search(key);
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From 74cac0b5c6c307c4239f0ad8a24c879fc73eca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:44 +0000
Subject: [PATCH 10/12] fix: keep the front offset in step when a
 delayed_delete_vector is swapped or moved

---
 .../delayed_delete_vector.hpp                 | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..4cce588 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <algorithm>
 #include <type_traits>
+#include <utility>
 
 namespace mdds { namespace mtv {
 
@@ -49,6 +50,24 @@ public:
     delayed_delete_vector(InputIt first, InputIt last) : m_vec(first, last)
     {}
 
+    delayed_delete_vector(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>)
+        : m_vec(std::move(other.m_vec)), m_front_offset(std::exchange(other.m_front_offset, 0))
+    {
+        other.m_vec.clear();
+    }
+
+    delayed_delete_vector& operator=(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_assignable_v<store_type>)
+    {
+        delayed_delete_vector tmp(std::move(other));
+        swap(tmp);
+        return *this;
+    }
+
     iterator begin() noexcept
     {
         return m_vec.begin() + m_front_offset;
@@ -122,6 +141,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From de00194b78ef6394c3d46881320bc2082346fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:29 +0000
Subject: [PATCH 11/12] fix: handle integer elements when transposing, copying
 or resizing a matrix

---
 include/mdds/multi_type_matrix_def.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..422caae 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -409,6 +409,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_empty:
                     break;
                 default:
@@ -482,6 +489,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_empty:
                 {
                     size_type end = logical_pos_dest + section_size - 1;
-- 
2.43.0


From 3e07d37364e75948fc01329f07e6c1696a520e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 12/12] fix: reject walk ranges that end one row or column past
 the matrix

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 422caae..be40ae8 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -659,7 +659,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -743,8 +743,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0

