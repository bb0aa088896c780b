From a439da47c8ebf03d5e46dbda6e6b825521cff2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 01/63] fix: resolve a cursor at the end of a non-empty block
 to that block

get_block_at_position folds the separator into the next block, so
at_block_end/block_number/EndOfBlock/PreviousBlock/block_format/current_list
and friends acted on the following block when the cursor was at the end of
a line.
---
 crates/public_api/src/cursor.rs | 123 ++++++++++++--------------------
 1 file changed, 44 insertions(+), 79 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 8d7be8e..d289d49 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -39,6 +39,28 @@ fn max_cursor_position(stats: &frontend::document_inspection::DocumentStatsDto)
     }
 }
 
+/// Look up the block a cursor at `pos` belongs to.
+///
+/// `get_block_at_position` folds the separator after a non-empty block into
+/// the *following* block. A cursor sitting there is visually at the end of the
+/// preceding block, so look that one up instead.
+fn block_info_at_cursor(
+    inner: &TextDocumentInner,
+    pos: usize,
+) -> Result<frontend::document_inspection::BlockInfoDto> {
+    let lookup = |position: usize| {
+        let dto = frontend::document_inspection::GetBlockAtPositionDto {
+            position: to_i64(position),
+        };
+        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+    };
+    let info = lookup(pos)?;
+    if pos > 0 && to_usize(info.block_start) > pos {
+        return lookup(pos - 1);
+    }
+    Ok(info)
+}
+
 /// A cursor into a [`TextDocument`](crate::TextDocument).
 ///
 /// Multiple cursors can coexist on the same document (like Qt's `QTextCursor`).
@@ -193,10 +215,7 @@ impl TextCursor {
     pub fn at_block_start(&self) -> bool {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        if let Ok(info) = document_inspection_commands::get_block_at_position(&inner.ctx, &dto) {
+        if let Ok(info) = block_info_at_cursor(&inner, pos) {
             pos == to_usize(info.block_start)
         } else {
             false
@@ -207,10 +226,7 @@ impl TextCursor {
     pub fn at_block_end(&self) -> bool {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        if let Ok(info) = document_inspection_commands::get_block_at_position(&inner.ctx, &dto) {
+        if let Ok(info) = block_info_at_cursor(&inner, pos) {
             pos == to_usize(info.block_start) + to_usize(info.block_length)
         } else {
             false
@@ -244,10 +260,7 @@ impl TextCursor {
     pub fn block_number(&self) -> usize {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+        block_info_at_cursor(&inner, pos)
             .map(|info| to_usize(info.block_number))
             .unwrap_or(0)
     }
@@ -256,10 +269,7 @@ impl TextCursor {
     pub fn position_in_block(&self) -> usize {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+        block_info_at_cursor(&inner, pos)
             .map(|info| pos.saturating_sub(to_usize(info.block_start)))
             .unwrap_or(0)
     }
@@ -359,12 +369,7 @@ impl TextCursor {
             SelectionType::BlockUnderCursor | SelectionType::LineUnderCursor => {
                 let pos = self.position();
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                if let Ok(info) =
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                {
+                if let Ok(info) = block_info_at_cursor(&inner, pos) {
                     let start = to_usize(info.block_start);
                     let end = start + to_usize(info.block_length);
                     drop(inner);
@@ -1137,10 +1142,7 @@ impl TextCursor {
         let anchor_cell = {
             // Create a temporary block handle at the anchor position
             let inner = self.doc.lock();
-            let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                position: to_i64(anchor),
-            };
-            let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+            let block_info = block_info_at_cursor(&inner, anchor)
                 .map_err(|_| anyhow::anyhow!("cursor anchor is not inside a table"))?;
             let block = crate::text_block::TextBlock {
                 doc: self.doc.clone(),
@@ -1646,11 +1648,7 @@ impl TextCursor {
     pub fn current_list(&self) -> Option<crate::TextList> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info =
-            document_inspection_commands::get_block_at_position(&inner.ctx, &dto).ok()?;
+        let block_info = block_info_at_cursor(&inner, pos).ok()?;
         let block = crate::text_block::TextBlock {
             doc: self.doc.clone(),
             block_id: block_info.block_id as usize,
@@ -1769,10 +1767,7 @@ impl TextCursor {
     pub fn add_current_block_to_list(&self, list_id: usize) -> Result<()> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_info_at_cursor(&inner, pos)?;
         drop(inner);
         self.add_block_to_list(block_info.block_id as usize, list_id)
     }
@@ -1808,10 +1803,7 @@ impl TextCursor {
     pub fn remove_current_block_from_list(&self) -> Result<()> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_info_at_cursor(&inner, pos)?;
         drop(inner);
         self.remove_block_from_list(block_info.block_id as usize)
     }
@@ -1838,10 +1830,7 @@ impl TextCursor {
         let inner = self.doc.lock();
 
         // Locate the block containing the cursor.
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_info_at_cursor(&inner, pos)?;
         let block_id = block_info.block_id as u64;
         let mut block_dto = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
             .ok_or_else(|| anyhow::anyhow!("block not found at position"))?;
@@ -1893,10 +1882,7 @@ impl TextCursor {
     pub fn block_format(&self) -> Result<BlockFormat> {
         let pos = self.position();
         let inner = self.doc.lock();
-        let dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
-        };
-        let block_info = document_inspection_commands::get_block_at_position(&inner.ctx, &dto)?;
+        let block_info = block_info_at_cursor(&inner, pos)?;
         let block_id = block_info.block_id as u64;
         let block = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
             .ok_or_else(|| anyhow::anyhow!("block not found"))?;
@@ -2098,28 +2084,19 @@ impl TextCursor {
             }
             MoveOperation::StartOfBlock | MoveOperation::StartOfLine => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                block_info_at_cursor(&inner, pos)
                     .map(|info| to_usize(info.block_start))
                     .unwrap_or(pos)
             }
             MoveOperation::EndOfBlock | MoveOperation::EndOfLine => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                block_info_at_cursor(&inner, pos)
                     .map(|info| to_usize(info.block_start) + to_usize(info.block_length))
                     .unwrap_or(pos)
             }
             MoveOperation::NextBlock => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
+                block_info_at_cursor(&inner, pos)
                     .map(|info| {
                         // Move past current block + 1 (block separator)
                         to_usize(info.block_start) + to_usize(info.block_length) + 1
@@ -2128,19 +2105,11 @@ impl TextCursor {
             }
             MoveOperation::PreviousBlock => {
                 let inner = self.doc.lock();
-                let dto = frontend::document_inspection::GetBlockAtPositionDto {
-                    position: to_i64(pos),
-                };
-                let block_start =
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &dto)
-                        .map(|info| to_usize(info.block_start))
-                        .unwrap_or(pos);
-                if block_start >= 2 {
-                    // Skip past the block separator (which maps to the current block)
-                    let prev_dto = frontend::document_inspection::GetBlockAtPositionDto {
-                        position: to_i64(block_start - 2),
-                    };
-                    document_inspection_commands::get_block_at_position(&inner.ctx, &prev_dto)
+                let block_start = block_info_at_cursor(&inner, pos)
+                    .map(|info| to_usize(info.block_start))
+                    .unwrap_or(pos);
+                if block_start >= 1 {
+                    block_info_at_cursor(&inner, block_start - 1)
                         .map(|info| to_usize(info.block_start))
                         .unwrap_or(0)
                 } else {
@@ -2400,14 +2369,10 @@ impl TextCursor {
     fn find_word_boundaries(&self, pos: usize) -> (usize, usize) {
         let inner = self.doc.lock();
         // Get block info so we can fetch the full block text
-        let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
-            position: to_i64(pos),
+        let block_info = match block_info_at_cursor(&inner, pos) {
+            Ok(info) => info,
+            Err(_) => return (pos, pos),
         };
-        let block_info =
-            match document_inspection_commands::get_block_at_position(&inner.ctx, &block_dto) {
-                Ok(info) => info,
-                Err(_) => return (pos, pos),
-            };
 
         let block_start = to_usize(block_info.block_start);
         let block_length = to_usize(block_info.block_length);
-- 
2.43.0


From 9682e1545e89ad2c6dd1de16e0fc0e4eb069b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:37 +0000
Subject: [PATCH 02/63] fix: keep positions, order and character count right
 when pasting multi-block fragments

---
 .../src/use_cases/editing_helpers.rs          | 29 ++++++++++-
 .../src/use_cases/insert_fragment_uc.rs       | 50 ++++++++-----------
 2 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 85b5671..54f31e3 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -1,6 +1,9 @@
 use anyhow::{Result, anyhow};
 use common::database::Store;
-use common::database::rope_helpers::{block_char_length, find_block_at_char_position};
+use common::database::rope_helpers::{
+    block_char_length, block_document_position, find_block_at_char_position,
+    rope_positions_match_flow,
+};
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::entities::{Block, Frame};
 use common::format_runs::{InlineContent, InlineSegment};
@@ -204,6 +207,30 @@ pub fn find_block_at_position(
     Err(anyhow!("No blocks found in document"))
 }
 
+/// Sort `blocks` in document order.
+///
+/// The stored `document_position` fields may be stale while the rope is the
+/// source of truth for positions (see [`find_block_at_position`]), so they are
+/// refreshed from the rope first in that case.
+pub fn sort_blocks_in_document_order(blocks: &mut [Block], store: &Store) {
+    if rope_positions_match_flow(store) {
+        for block in blocks.iter_mut() {
+            block.document_position = block_document_position(block, store);
+        }
+    }
+    blocks.sort_by_key(|b| b.document_position);
+}
+
+/// Index in `frame.child_order` right after the entry of `block_id`, or the
+/// end of the list when the block is not one of the frame's own children.
+pub fn child_order_index_after(frame: &Frame, block_id: EntityId) -> usize {
+    frame
+        .child_order
+        .iter()
+        .position(|&e| e > 0 && e as EntityId == block_id)
+        .map_or(frame.child_order.len(), |i| i + 1)
+}
+
 /// Find the inline segment at a given character offset within a block,
 /// and compute the offset within that segment.
 ///
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index c2d7ec0..f9693f4 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1,6 +1,6 @@
 use super::editing_helpers::{
-    CellFrameCreator, collect_block_ids_recursive, create_cell_frame, find_block_at_position,
-    impl_cell_frame_creator,
+    CellFrameCreator, child_order_index_after, collect_block_ids_recursive, create_cell_frame,
+    find_block_at_position, impl_cell_frame_creator, sort_blocks_in_document_order,
 };
 use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
@@ -409,7 +409,7 @@ fn insert_table_fragment(
     let block_ids = uow.get_frame_relationship(&frame_id, &FrameRelationshipField::Blocks)?;
     let blocks_opt = uow.get_block_multi(&block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     let insert_pos = dto.position;
 
@@ -824,7 +824,7 @@ fn insert_mixed_fragment(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     let (current_block, block_idx, offset) =
         find_block_at_position(&blocks, dto.position, &uow.store())?;
@@ -999,11 +999,7 @@ fn insert_mixed_fragment(
     // post-head-update content (same id as updated_current), so use the
     // pre-mutation char length captured at the top of the function.
     let head_delta = block_char_length(&updated_current, &store) - original_current_char_length;
-    let mut total_new_chars: i64 = if merge_first || overwrite_head {
-        head_delta
-    } else {
-        0
-    };
+    let mut total_new_chars: i64 = head_delta;
     let mut total_blocks_added: i64 = 0;
 
     let skip_first = merge_first || overwrite_head;
@@ -1442,13 +1438,10 @@ fn insert_mixed_fragment(
 
         new_child_order_entries.push(created_tail.id as i64);
         total_blocks_added += 1;
+        total_new_chars += tail_text_length;
     }
-    if last_frag.is_some() {
-        total_new_chars += last_chars;
-    }
-
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
     for (i, entry) in new_child_order_entries.iter().enumerate() {
         updated_frame
             .child_order
@@ -1578,7 +1571,7 @@ fn execute_insert_fragment(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     let (current_block, block_idx, offset) =
         find_block_at_position(&blocks, dto.position, &uow.store())?;
@@ -1810,11 +1803,7 @@ fn execute_insert_fragment(
         // Track (created_block_id, plain_text) for the rope mirror.
         let mut middle_block_payload: Vec<(EntityId, String)> = Vec::new();
         let head_delta = updated_current_char_length - original_current_char_length;
-        let mut total_new_chars: i64 = if merge_first || overwrite_head {
-            head_delta
-        } else {
-            0
-        };
+        let mut total_new_chars: i64 = head_delta;
         let mut running_position =
             current_block.document_position + updated_current_char_length + 1;
 
@@ -1891,10 +1880,6 @@ fn execute_insert_fragment(
             &right_images,
             if merge_last { Some(last_frag) } else { None },
         );
-        if merge_last {
-            total_new_chars += last_chars;
-        }
-
         let tail_chars = tail_plain.chars().count() as i64;
         let tail_image_count = tail_images.len() as i64;
         let tail_text_length = tail_chars + tail_image_count;
@@ -1999,12 +1984,13 @@ fn execute_insert_fragment(
             let tail_insert_index = (block_idx + 1 + new_block_ids.len()) as i32;
             let created_tail = uow.create_block(&tail_block, frame_id, tail_insert_index)?;
             tail_text_len = tail_text_length;
+            total_new_chars += tail_text_length;
             created_tail_id = Some(created_tail.id);
             write_block_state(uow, created_tail.id, tail_runs, tail_images);
         }
 
         let mut updated_frame = frame.clone();
-        let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+        let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
         let mut new_child_ids: Vec<i64> = new_block_ids.iter().map(|id| *id as i64).collect();
         if let Some(tid) = created_tail_id {
             new_child_ids.push(tid as i64);
@@ -2194,7 +2180,9 @@ fn execute_insert_fragment(
 
                 let created_tail =
                     uow.create_block(&tail_block, frame_id, (block_idx + 1) as i32)?;
-                tail_text_len = block_char_length(&created_tail, &store);
+                // The rope mirror runs later, so `created_tail` still reads
+                // as empty there.
+                tail_text_len = text_after_chars + right_image_count;
                 blocks_added = 1;
                 created_tail_id_overwrite = Some(created_tail.id);
                 write_block_state(
@@ -2205,7 +2193,8 @@ fn execute_insert_fragment(
                 );
 
                 let mut updated_frame = frame.clone();
-                let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+                let child_order_insert_pos =
+                    child_order_index_after(&updated_frame, current_block.id);
                 updated_frame
                     .child_order
                     .insert(child_order_insert_pos, created_tail.id as i64);
@@ -2267,7 +2256,7 @@ fn execute_insert_fragment(
                 uow.update_block_multi(&blocks_to_update)?;
             }
 
-            let char_delta = block_text_len - original_current_char_length;
+            let char_delta = pos_shift - blocks_added;
             let mut updated_doc = document.clone();
             updated_doc.block_count += blocks_added;
             updated_doc.character_count += char_delta;
@@ -2294,8 +2283,9 @@ fn execute_insert_fragment(
                 left_images.clone(),
             );
 
+            // The rope mirror runs later: the head still reads as unsplit there.
             let mut running_position =
-                current_block.document_position + block_char_length(&updated_current, &store) + 1;
+                current_block.document_position + text_before_chars + left_image_count + 1;
 
             let list_id = if let Some(ref frag_list) = frag_block.list {
                 let list = frag_list.to_entity();
@@ -2368,7 +2358,7 @@ fn execute_insert_fragment(
             );
 
             let mut updated_frame = frame.clone();
-            let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+            let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
             let new_child_ids = [created_block.id as i64, created_tail.id as i64];
             for (i, id) in new_child_ids.iter().enumerate() {
                 updated_frame
-- 
2.43.0


From 4a9fb0d3f758cc64037b756cc9e924f30031e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:37 +0000
Subject: [PATCH 03/63] fix: mirror the block created by insert_list into the
 rope

---
 .../src/use_cases/insert_list_uc.rs           | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index 5a7d74d..a01ca44 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -1,9 +1,13 @@
-use super::editing_helpers::find_block_at_position;
+use super::editing_helpers::{
+    child_order_index_after, find_block_at_position, sort_blocks_in_document_order,
+};
 use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -94,10 +98,10 @@ fn execute_insert_list(
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     // Find block at position to determine insert index
-    let (_current_block, block_idx, _offset) =
+    let (current_block, block_idx, _offset) =
         find_block_at_position(&blocks, position, &uow.store())?;
 
     let now = chrono::Utc::now();
@@ -116,12 +120,8 @@ fn execute_insert_list(
 
     // Create a new empty block with the list reference
     let store = uow.store();
-    let new_block_position = if !blocks.is_empty() {
-        let current = &blocks[block_idx];
-        current.document_position + block_char_length(current, &store) + 1
-    } else {
-        0
-    };
+    let new_block_position =
+        current_block.document_position + block_char_length(&current_block, &store) + 1;
 
     let new_block = Block {
         id: 0,
@@ -135,9 +135,13 @@ fn execute_insert_list(
     let insert_index = (block_idx + 1) as i32;
     let created_block = uow.create_block(&new_block, frame_id, insert_index)?;
 
+    // Mirror the new empty block into the rope, right after the current one.
+    let current_byte_len = block_content_via_store(&current_block, &store).len() as u32;
+    rope_split_block(&store, current_block.id, current_byte_len, created_block.id);
+
     // Update frame's child_order
     let mut updated_frame = frame.clone();
-    let child_order_insert_pos = (block_idx + 1).min(updated_frame.child_order.len());
+    let child_order_insert_pos = child_order_index_after(&updated_frame, current_block.id);
     updated_frame
         .child_order
         .insert(child_order_insert_pos, created_block.id as i64);
-- 
2.43.0


From 397b76331e7176fc7b18211f6b46932525cc73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 04/63] fix: close the undo unit when replacing a selection
 fails

---
 crates/public_api/src/cursor.rs   | 210 +++++++++++-------------------
 crates/public_api/src/fragment.rs |   6 +
 2 files changed, 80 insertions(+), 136 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index d289d49..0ae041f 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -413,32 +413,19 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_dto = frontend::document_editing::InsertTextDto {
-                        position: to_i64(del_pos),
-                        anchor: to_i64(del_pos),
-                        text: text.into(),
-                    };
-                    let ins_result = document_editing_commands::insert_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &ins_dto,
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    Self::replace_selection(&inner, pos, anchor, |del_pos| {
+                        let ins_dto = frontend::document_editing::InsertTextDto {
+                            position: to_i64(del_pos),
+                            anchor: to_i64(del_pos),
+                            text: text.into(),
+                        };
+                        document_editing_commands::insert_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &ins_dto,
+                        )
+                    })?
+                    .0
                 }
                 Err(e) => return Err(e),
             };
@@ -484,27 +471,14 @@ impl TextCursor {
                 Ok(r) => r,
                 Err(_) if pos != anchor => {
                     // Cross-block selection: compose delete + insert as a single undo unit
-                    undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-
-                    let del_dto = frontend::document_editing::DeleteTextDto {
-                        position: to_i64(pos),
-                        anchor: to_i64(anchor),
-                    };
-                    let del_result = document_editing_commands::delete_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &del_dto,
-                    )?;
-                    let del_pos = to_usize(del_result.new_position);
-
-                    let ins_result = document_editing_commands::insert_formatted_text(
-                        &inner.ctx,
-                        Some(inner.stack_id),
-                        &make_dto(del_pos, del_pos),
-                    )?;
-
-                    undo_redo_commands::end_composite(&inner.ctx);
-                    ins_result
+                    Self::replace_selection(&inner, pos, anchor, |del_pos| {
+                        document_editing_commands::insert_formatted_text(
+                            &inner.ctx,
+                            Some(inner.stack_id),
+                            &make_dto(del_pos, del_pos),
+                        )
+                    })?
+                    .0
                 }
                 Err(e) => return Err(e),
             };
@@ -530,36 +504,14 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                // Selection active: delete first, then split (Word convention)
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            // Selection active: delete first, then split (Word convention)
+            let (result, removed) = Self::replace_selection(&inner, pos, anchor, |insert_pos| {
+                let dto = frontend::document_editing::InsertBlockDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
-            };
-
-            let dto = frontend::document_editing::InsertBlockDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-            };
-            let result =
-                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+                document_editing_commands::insert_block(&inner.ctx, Some(inner.stack_id), &dto)
+            })?;
 
             let edit_pos = pos.min(anchor);
             self.finish_edit(
@@ -590,39 +542,21 @@ impl TextCursor {
     /// Insert a document fragment at the cursor. Replaces selection if any.
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
         let (pos, anchor) = self.read_cursor();
+        // Nothing to insert: fail before the selection is deleted.
+        if pos != anchor && !fragment.has_content() {
+            anyhow::bail!("Fragment contains no blocks or tables");
+        }
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let (result, removed) = Self::replace_selection(&inner, pos, anchor, |insert_pos| {
+                let dto = frontend::document_editing::InsertFragmentDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    fragment_data: fragment.raw_data().into(),
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
-            };
-
-            let dto = frontend::document_editing::InsertFragmentDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                fragment_data: fragment.raw_data().into(),
-            };
-            let result =
-                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+                document_editing_commands::insert_fragment(&inner.ctx, Some(inner.stack_id), &dto)
+            })?;
 
             let edit_pos = pos.min(anchor);
             self.finish_edit(
@@ -694,38 +628,16 @@ impl TextCursor {
         let queued = {
             let mut inner = self.doc.lock();
 
-            let (insert_pos, removed) = if pos != anchor {
-                undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
-                let del_dto = frontend::document_editing::DeleteTextDto {
-                    position: to_i64(pos),
-                    anchor: to_i64(anchor),
+            let (result, removed) = Self::replace_selection(&inner, pos, anchor, |insert_pos| {
+                let dto = frontend::document_editing::InsertImageDto {
+                    position: to_i64(insert_pos),
+                    anchor: to_i64(insert_pos),
+                    image_name: name.into(),
+                    width: width as i64,
+                    height: height as i64,
                 };
-                let del_result = document_editing_commands::delete_text(
-                    &inner.ctx,
-                    Some(inner.stack_id),
-                    &del_dto,
-                )?;
-                (
-                    to_usize(del_result.new_position),
-                    pos.max(anchor) - pos.min(anchor),
-                )
-            } else {
-                (pos, 0)
-            };
-
-            let dto = frontend::document_editing::InsertImageDto {
-                position: to_i64(insert_pos),
-                anchor: to_i64(insert_pos),
-                image_name: name.into(),
-                width: width as i64,
-                height: height as i64,
-            };
-            let result =
-                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)?;
-
-            if pos != anchor {
-                undo_redo_commands::end_composite(&inner.ctx);
-            }
+                document_editing_commands::insert_image(&inner.ctx, Some(inner.stack_id), &dto)
+            })?;
 
             let edit_pos = pos.min(anchor);
             self.finish_edit_ext(
@@ -2005,6 +1917,32 @@ impl TextCursor {
 
     // ── Private helpers ─────────────────────────────────────
 
+    /// Delete the selection `pos..anchor`, then run `insert` at the resulting
+    /// position, as a single undo unit. The undo unit is closed even when one
+    /// of the two steps fails. Runs `insert` alone when nothing is selected.
+    ///
+    /// Returns `insert`'s result and the number of characters removed.
+    fn replace_selection<R>(
+        inner: &TextDocumentInner,
+        pos: usize,
+        anchor: usize,
+        insert: impl FnOnce(usize) -> Result<R>,
+    ) -> Result<(R, usize)> {
+        if pos == anchor {
+            return Ok((insert(pos)?, 0));
+        }
+        undo_redo_commands::begin_composite(&inner.ctx, Some(inner.stack_id));
+        let del_dto = frontend::document_editing::DeleteTextDto {
+            position: to_i64(pos),
+            anchor: to_i64(anchor),
+        };
+        let result =
+            document_editing_commands::delete_text(&inner.ctx, Some(inner.stack_id), &del_dto)
+                .and_then(|deleted| insert(to_usize(deleted.new_position)));
+        undo_redo_commands::end_composite(&inner.ctx);
+        Ok((result?, pos.max(anchor) - pos.min(anchor)))
+    }
+
     /// Queue an `UndoRedoChanged` event and return all queued events for dispatch.
     fn queue_undo_redo_event(&self, inner: &mut TextDocumentInner) -> QueuedEvents {
         let can_undo = undo_redo_commands::can_undo(&inner.ctx, Some(inner.stack_id));
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 7544acd..4640e0a 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -118,6 +118,12 @@ impl DocumentFragment {
         Self { data, plain_text }
     }
 
+    /// Whether the fragment holds at least one block or table to insert.
+    pub(crate) fn has_content(&self) -> bool {
+        serde_json::from_str::<FragmentData>(&self.data)
+            .is_ok_and(|d| !d.blocks.is_empty() || !d.tables.is_empty())
+    }
+
     /// Export the fragment as plain text.
     pub fn to_plain_text(&self) -> &str {
         &self.plain_text
-- 
2.43.0


From 80dbb38c369e7b9dbe986e5c4f565f3b237d32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 05/63] fix: redo of typing merged into a selection replacement
 removes the selection

---
 crates/document_editing/src/use_cases/insert_text_uc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index da5cfed..d77b9f0 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -643,7 +643,11 @@ impl UndoRedoCommand for InsertTextUseCase {
 
         if let (Some(self_dto), Some(other_dto)) = (&mut self.last_dto, &other_cmd.last_dto) {
             self_dto.text.push_str(&other_dto.text);
-            self_dto.anchor = self_dto.position;
+            // A merged selection replacement keeps its anchor, so that redo
+            // still removes the selected text.
+            if !self.was_selection_replacement {
+                self_dto.anchor = self_dto.position;
+            }
         }
         if let Some(other_result) = &other_cmd.last_result {
             self.last_result = Some(other_result.clone());
-- 
2.43.0


From f605765ddf3700e38e13abe6861b10e1e84dd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:53 +0000
Subject: [PATCH 06/63] fix: do not use stale stored block positions when
 formatting, listing, copying or replacing

---
 crates/common/src/database/rope_helpers.rs    | 14 ++++++++++++++
 .../src/use_cases/create_list_uc.rs           |  3 ++-
 .../src/use_cases/editing_helpers.rs          | 19 +------------------
 .../src/use_cases/insert_fragment_uc.rs       |  3 ++-
 .../src/use_cases/insert_frame_uc.rs          |  3 ++-
 .../src/use_cases/insert_image_uc.rs          |  3 ++-
 .../src/use_cases/insert_list_uc.rs           |  5 ++---
 .../src/use_cases/insert_text_uc.rs           |  5 +++--
 .../src/use_cases/merge_text_format_uc.rs     |  3 ++-
 .../src/use_cases/set_block_format_uc.rs      |  3 ++-
 .../src/use_cases/set_text_format_uc.rs       |  3 ++-
 .../src/use_cases/extract_fragment_uc.rs      |  3 ++-
 .../src/use_cases/replace_text_uc.rs          |  3 ++-
 13 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7f715c4..7141559 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -105,6 +105,20 @@ pub fn rope_positions_match_flow(store: &Store) -> bool {
     indexed_block_count == total_block_count
 }
 
+/// Sort `blocks` in document order.
+///
+/// The stored `document_position` fields may be stale while the rope is the
+/// source of truth for positions (see [`rope_positions_match_flow`]), so they
+/// are refreshed from the rope first in that case.
+pub fn sort_blocks_in_document_order(blocks: &mut [Block], store: &Store) {
+    if rope_positions_match_flow(store) && store.tables.read().unwrap().is_empty() {
+        for block in blocks.iter_mut() {
+            block.document_position = block_document_position(block, store);
+        }
+    }
+    blocks.sort_by_key(|b| b.document_position);
+}
+
 /// Locate which block contains a given absolute char position in the
 /// document, returning `(block_id, char_offset_in_block, block_char_start)`
 /// in O(log n) using the rope + `BlockOffsetIndex` instead of an O(N)
diff --git a/crates/document_editing/src/use_cases/create_list_uc.rs b/crates/document_editing/src/use_cases/create_list_uc.rs
index 53f7842..3c07768 100644
--- a/crates/document_editing/src/use_cases/create_list_uc.rs
+++ b/crates/document_editing/src/use_cases/create_list_uc.rs
@@ -3,6 +3,7 @@ use crate::CreateListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::direct_access::block::block_repository::BlockRelationshipField;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -88,7 +89,7 @@ fn execute_create_list(
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     // Create the List entity
     let now = chrono::Utc::now();
diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 54f31e3..7066dee 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -1,9 +1,6 @@
 use anyhow::{Result, anyhow};
 use common::database::Store;
-use common::database::rope_helpers::{
-    block_char_length, block_document_position, find_block_at_char_position,
-    rope_positions_match_flow,
-};
+use common::database::rope_helpers::{block_char_length, find_block_at_char_position};
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::entities::{Block, Frame};
 use common::format_runs::{InlineContent, InlineSegment};
@@ -207,20 +204,6 @@ pub fn find_block_at_position(
     Err(anyhow!("No blocks found in document"))
 }
 
-/// Sort `blocks` in document order.
-///
-/// The stored `document_position` fields may be stale while the rope is the
-/// source of truth for positions (see [`find_block_at_position`]), so they are
-/// refreshed from the rope first in that case.
-pub fn sort_blocks_in_document_order(blocks: &mut [Block], store: &Store) {
-    if rope_positions_match_flow(store) {
-        for block in blocks.iter_mut() {
-            block.document_position = block_document_position(block, store);
-        }
-    }
-    blocks.sort_by_key(|b| b.document_position);
-}
-
 /// Index in `frame.child_order` right after the entry of `block_id`, or the
 /// end of the list when the block is not one of the frame's own children.
 pub fn child_order_index_after(frame: &Frame, block_id: EntityId) -> usize {
diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index f9693f4..3e8cda1 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -1,11 +1,12 @@
 use super::editing_helpers::{
     CellFrameCreator, child_order_index_after, collect_block_ids_recursive, create_cell_frame,
-    find_block_at_position, impl_cell_frame_creator, sort_blocks_in_document_order,
+    find_block_at_position, impl_cell_frame_creator,
 };
 use crate::InsertFragmentDto;
 use crate::InsertFragmentResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{
     block_char_length, rope_append_block, rope_delete_in_block, rope_insert_block_at,
     rope_insert_block_boundary, rope_insert_in_block, rope_insert_table_anchor, rope_split_block,
diff --git a/crates/document_editing/src/use_cases/insert_frame_uc.rs b/crates/document_editing/src/use_cases/insert_frame_uc.rs
index 26ef850..1ac5819 100644
--- a/crates/document_editing/src/use_cases/insert_frame_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_frame_uc.rs
@@ -4,6 +4,7 @@ use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::block_char_length;
 use common::database::rope_helpers::rope_append_empty_block;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -58,7 +59,7 @@ fn find_frame_at_position(
         }
         let blocks_opt = uow.get_block_multi(&block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-        blocks.sort_by_key(|b| b.document_position);
+        sort_blocks_in_document_order(&mut blocks, &uow.store());
 
         if let (Some(first), Some(last)) = (blocks.first(), blocks.last()) {
             let frame_start = first.document_position;
diff --git a/crates/document_editing/src/use_cases/insert_image_uc.rs b/crates/document_editing/src/use_cases/insert_image_uc.rs
index 9568420..1525e41 100644
--- a/crates/document_editing/src/use_cases/insert_image_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_image_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertImageDto;
 use crate::InsertImageResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{block_content_via_store, rope_insert_in_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -89,7 +90,7 @@ fn execute_insert_image(
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     // Find block at position
     let (block, block_idx, offset) = find_block_at_position(&blocks, position, &uow.store())?;
diff --git a/crates/document_editing/src/use_cases/insert_list_uc.rs b/crates/document_editing/src/use_cases/insert_list_uc.rs
index a01ca44..5d77605 100644
--- a/crates/document_editing/src/use_cases/insert_list_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_list_uc.rs
@@ -1,10 +1,9 @@
-use super::editing_helpers::{
-    child_order_index_after, find_block_at_position, sort_blocks_in_document_order,
-};
+use super::editing_helpers::{child_order_index_after, find_block_at_position};
 use crate::InsertListDto;
 use crate::InsertListResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{
     block_char_length, block_content_via_store, rope_split_block,
 };
diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index d77b9f0..8b04eea 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -3,6 +3,7 @@ use crate::InsertTextDto;
 use crate::InsertTextResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{
     block_char_length, block_content_via_store, find_block_at_char_position, rope_delete_in_block,
     rope_insert_in_block,
@@ -164,7 +165,7 @@ fn execute_insert_with_selection(
     )?;
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     let sel_start = std::cmp::min(dto.position, dto.anchor);
     let sel_end = std::cmp::max(dto.position, dto.anchor);
@@ -201,7 +202,7 @@ fn execute_insert_with_selection(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     blocks = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
     document = uow
         .get_document(&doc_id)?
         .ok_or_else(|| anyhow!("Document not found"))?;
diff --git a/crates/document_formatting/src/use_cases/merge_text_format_uc.rs b/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
index ce8672c..566eb9c 100644
--- a/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/merge_text_format_uc.rs
@@ -1,6 +1,7 @@
 use crate::MergeTextFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{block_char_length, block_char_to_byte_in_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -128,7 +129,7 @@ fn execute_merge_text_format(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     let range_start = std::cmp::min(dto.position, dto.anchor);
     let range_end = std::cmp::max(dto.position, dto.anchor);
diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index 207a689..6491da7 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -2,6 +2,7 @@ use crate::SetBlockFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::block_char_length;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -79,7 +80,7 @@ fn execute_set_block_format(
     // Get all blocks
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     // Determine the range
     let range_start = std::cmp::min(dto.position, dto.anchor);
diff --git a/crates/document_formatting/src/use_cases/set_text_format_uc.rs b/crates/document_formatting/src/use_cases/set_text_format_uc.rs
index 1295fea..aab10ed 100644
--- a/crates/document_formatting/src/use_cases/set_text_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_text_format_uc.rs
@@ -1,6 +1,7 @@
 use crate::SetTextFormatDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{block_char_length, block_char_to_byte_in_block};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -200,7 +201,7 @@ fn execute_set_text_format(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     let range_start = std::cmp::min(dto.position, dto.anchor);
     let range_end = std::cmp::max(dto.position, dto.anchor);
diff --git a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
index f52f1e5..10ab4c2 100644
--- a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
+++ b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
@@ -2,6 +2,7 @@ use crate::ExtractFragmentDto;
 use crate::ExtractFragmentResultDto;
 use anyhow::{Result, anyhow};
 use common::database::QueryUnitOfWork;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{block_char_length, block_content_via_store};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
@@ -105,7 +106,7 @@ impl ExtractFragmentUseCase {
 
         let blocks_opt = uow.get_block_multi(&all_block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-        blocks.sort_by_key(|b| b.document_position);
+        sort_blocks_in_document_order(&mut blocks, &uow.store());
 
         // ── Detect cross-cell selection ───────────────────────────
         // Check ALL blocks in range (not just endpoints) — an intermediate
diff --git a/crates/document_search/src/use_cases/replace_text_uc.rs b/crates/document_search/src/use_cases/replace_text_uc.rs
index 85888c7..f7ed748 100644
--- a/crates/document_search/src/use_cases/replace_text_uc.rs
+++ b/crates/document_search/src/use_cases/replace_text_uc.rs
@@ -5,6 +5,7 @@ use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
 use common::database::rope_helpers::block_char_length;
 use common::database::rope_helpers::rope_flat_text_if_simple;
+use common::database::rope_helpers::sort_blocks_in_document_order;
 use common::database::rope_helpers::{
     block_content_via_store, rope_delete_in_block, rope_insert_in_block,
 };
@@ -64,7 +65,7 @@ fn fetch_blocks_and_build_text(
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-    blocks.sort_by_key(|b| b.document_position);
+    sort_blocks_in_document_order(&mut blocks, &uow.store());
 
     // Fast path: flat single-frame doc — rope contents == full plain text.
     let full_text = rope_flat_text_if_simple(&uow.store(), frame_ids.len())
-- 
2.43.0


From 5cc77b404baeff13c4d25f014ff8cffdee27f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:36 +0000
Subject: [PATCH 07/63] fix: set_block_format with the caret at the end of a
 non-empty block did nothing

---
 .../src/use_cases/set_block_format_uc.rs      | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/document_formatting/src/use_cases/set_block_format_uc.rs b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
index 6491da7..56b0580 100644
--- a/crates/document_formatting/src/use_cases/set_block_format_uc.rs
+++ b/crates/document_formatting/src/use_cases/set_block_format_uc.rs
@@ -89,19 +89,27 @@ fn execute_set_block_format(
     // Find blocks that overlap the range
     let mut blocks_to_update: Vec<Block> = Vec::new();
     let store = uow.store();
-    for block in &blocks {
+    // Block overlaps the range if its text interval [block_start, block_end)
+    // intersects [range_start, range_end].  Empty blocks (text_length == 0)
+    // are included when their position falls inside the range.
+    let overlaps = |block: &Block| {
         let block_start = block.document_position;
         let block_end = block_start + block_char_length(block, &store);
-
-        // Block overlaps the range if its text interval [block_start, block_end)
-        // intersects [range_start, range_end].  Empty blocks (text_length == 0)
-        // are included when their position falls inside the range.
-        let overlaps = if block_char_length(block, &store) > 0 {
+        if block_end > block_start {
             block_start <= range_end && block_end > range_start
         } else {
             block_start >= range_start && block_start <= range_end
-        };
-        if overlaps {
+        }
+    };
+    // A caret after the last character of a block is still in that block.
+    let caret_block = blocks
+        .iter()
+        .find(|block| block.document_position + block_char_length(block, &store) == range_start)
+        .filter(|_| !blocks.iter().any(overlaps))
+        .map(|block| block.id);
+
+    for block in &blocks {
+        if overlaps(block) || caret_block == Some(block.id) {
             let mut updated = block.clone();
             if let Some(ref a) = dto.alignment {
                 updated.fmt_alignment = Some(alignment_to_entity(a));
-- 
2.43.0


From 965470e76f6c1d8250b4cb5c15fddbe5f4070d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:36 +0000
Subject: [PATCH 08/63] fix: insert_formatted_text stored an unset family as ""
 and an unset size as 0

---
 .../src/use_cases/insert_formatted_text_uc.rs               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 0821eff..05c568a 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -70,8 +70,10 @@ pub struct InsertFormattedTextUseCase {
 
 fn dto_to_character_format(dto: &InsertFormattedTextDto) -> CharacterFormat {
     CharacterFormat {
-        font_family: Some(dto.font_family.clone()),
-        font_point_size: Some(dto.font_point_size),
+        // The DTO has no "unset": an empty family or a zero size means the
+        // caller's format leaves that attribute alone.
+        font_family: Some(dto.font_family.clone()).filter(|family| !family.is_empty()),
+        font_point_size: Some(dto.font_point_size).filter(|size| *size > 0),
         font_weight: None,
         font_bold: Some(dto.font_bold),
         font_italic: Some(dto.font_italic),
-- 
2.43.0


From c0fcae9d65319d0e4b4097a978d9d6ab44916858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 09/63] fix: pasting one formatted block over a block start
 left cursors one short of the displaced text

---
 crates/document_editing/src/use_cases/insert_fragment_uc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/document_editing/src/use_cases/insert_fragment_uc.rs b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
index 3e8cda1..c8e3dda 100644
--- a/crates/document_editing/src/use_cases/insert_fragment_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_fragment_uc.rs
@@ -2264,7 +2264,10 @@ fn execute_insert_fragment(
             updated_doc.updated_at = now;
             uow.update_document(&updated_doc)?;
 
-            let new_position = current_block.document_position + block_text_len;
+            // Past everything inserted: when the displaced text became a tail
+            // block, that includes the separator in front of it.
+            let new_position =
+                current_block.document_position + block_text_len + i64::from(!skip_tail);
             Ok((
                 InsertFragmentResultDto {
                     new_position,
-- 
2.43.0


From ec8b114205dd3525a3f57504432ccc3b124347a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 10/63] fix: insert_list shifted other cursors by the length of
 the rest of the block

---
 crates/public_api/src/cursor.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 0ae041f..36183eb 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1606,16 +1606,10 @@ impl TextCursor {
             };
             let result =
                 document_editing_commands::insert_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            let edit_pos = pos.min(anchor);
-            let removed = pos.max(anchor) - edit_pos;
-            self.finish_edit_ext(
-                &mut inner,
-                edit_pos,
-                removed,
-                to_usize(result.new_position),
-                1,
-                false,
-            )
+            // The item is a new block after the current one: nothing is
+            // removed, and only the separator in front of it is added.
+            let new_pos = to_usize(result.new_position);
+            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, false)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From ff1e088a7f2f368e223d3d1e3b6facf8a4f350d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 11/63] fix: NextWord got stuck on an underscore that is not
 part of a word

---
 crates/public_api/src/cursor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 36183eb..c9271d8 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2069,7 +2069,9 @@ impl TextCursor {
                         document_inspection_commands::get_text_at_position(&inner.ctx, &dto)
                     {
                         for (i, ch) in r.text.chars().enumerate() {
-                            if ch.is_alphanumeric() || ch == '_' {
+                            // A lone `_` is not a word, and stopping on it
+                            // would never get past it.
+                            if ch.is_alphanumeric() {
                                 // Found start of next word, find its end
                                 let word_pos = pos + i;
                                 drop(inner);
-- 
2.43.0


From 865cfad23b8abce34286529aba0d5abe67897f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:40 +0000
Subject: [PATCH 12/63] fix: case-insensitive find reported shifted positions
 after characters whose lowercase is longer

---
 .../src/use_cases/search_helpers.rs           | 69 ++++++++++---------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/crates/document_search/src/use_cases/search_helpers.rs b/crates/document_search/src/use_cases/search_helpers.rs
index 4828477..6eed96d 100644
--- a/crates/document_search/src/use_cases/search_helpers.rs
+++ b/crates/document_search/src/use_cases/search_helpers.rs
@@ -63,6 +63,21 @@ pub fn build_word_boundary_set(text: &str) -> HashSet<usize> {
     set
 }
 
+/// Chars of `text` to compare in a literal search, each with the index of
+/// the original char it came from. Without case sensitivity every char is
+/// lowercased on its own and the final sigma is read as a plain sigma.
+fn fold_chars(text: &str, case_sensitive: bool) -> impl Iterator<Item = (usize, char)> + '_ {
+    text.chars().enumerate().flat_map(move |(i, c)| {
+        let mut folded = Vec::with_capacity(1);
+        if case_sensitive {
+            folded.push(c);
+        } else {
+            folded.extend(c.to_lowercase().map(|l| if l == 'ς' { 'σ' } else { l }));
+        }
+        folded.into_iter().map(move |c| (i, c))
+    })
+}
+
 /// Find all occurrences of the query in the text, respecting search options.
 /// All positions are in char indices (not byte offsets).
 /// Returns a vec of `(char_position, char_length)` for each match.
@@ -110,40 +125,30 @@ pub fn find_all_matches(
             }
         }
     } else {
-        // Literal search using lowercased Strings instead of Vec<char>.
-        let (search_text, search_query) = if case_sensitive {
-            (full_text.to_string(), query.to_string())
-        } else {
-            (full_text.to_lowercase(), query.to_lowercase())
-        };
-
-        // Build a char-index → byte-offset mapping for the search text
-        let char_indices: Vec<usize> = search_text.char_indices().map(|(i, _)| i).collect();
-        let query_char_len = search_query.chars().count();
-
-        if query_char_len == 0 || char_indices.len() < query_char_len {
-            return Ok(results);
-        }
-
-        let mut char_pos = 0;
-        while char_pos + query_char_len <= char_indices.len() {
-            let byte_start = char_indices[char_pos];
-            let byte_end = if char_pos + query_char_len < char_indices.len() {
-                char_indices[char_pos + query_char_len]
-            } else {
-                search_text.len()
-            };
-
-            if search_text[byte_start..byte_end] == search_query[..] {
-                if let Some(ref wb) = word_boundaries {
-                    if wb.contains(&char_pos) && wb.contains(&(char_pos + query_char_len)) {
-                        results.push((char_pos, query_char_len));
-                    }
-                } else {
-                    results.push((char_pos, query_char_len));
+        // Literal search over folded chars. Lowercasing can turn one char
+        // into several ("İ"), so each folded char remembers the char index
+        // it came from; matches cover whole chars of the original text.
+        let needle: Vec<char> = fold_chars(query, case_sensitive).map(|(_, c)| c).collect();
+        let haystack: Vec<(usize, char)> = fold_chars(full_text, case_sensitive).collect();
+        let starts_char =
+            |i: usize| i == 0 || i == haystack.len() || haystack[i].0 != haystack[i - 1].0;
+
+        for (i, window) in haystack.windows(needle.len()).enumerate() {
+            if !starts_char(i)
+                || !starts_char(i + needle.len())
+                || window.iter().zip(&needle).any(|((_, c), n)| c != n)
+            {
+                continue;
+            }
+            let char_start = window[0].0;
+            let char_end = window[window.len() - 1].0 + 1;
+            if let Some(ref wb) = word_boundaries {
+                if wb.contains(&char_start) && wb.contains(&char_end) {
+                    results.push((char_start, char_end - char_start));
                 }
+            } else {
+                results.push((char_start, char_end - char_start));
             }
-            char_pos += 1;
         }
     }
 
-- 
2.43.0


From 859461f3f18516a39a521331d262159ce3b21b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 13/63] fix: HTML, Markdown and LaTeX exports wrote nested
 frames and tables twice

---
 .../src/use_cases/export_html_uc.rs           | 20 +++++++++-
 .../src/use_cases/export_latex_uc.rs          | 20 +++++++++-
 .../src/use_cases/export_markdown_uc.rs       | 40 ++++++++++++-------
 3 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index cb67020..dbf86e1 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -79,11 +79,27 @@ impl ExportHtmlUseCase {
             }
         }
 
+        // Sub-frames and table anchors are rendered as part of the frame
+        // whose `child_order` names them.
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            // Skip cell frames — they're rendered as part of their table —
+            // and nested frames, rendered as part of their parent
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 867fd2c..6e2c6c3 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -80,11 +80,27 @@ impl ExportLatexUseCase {
             }
         }
 
+        // Sub-frames and table anchors are rendered as part of the frame
+        // whose `child_order` names them.
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut body_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            // Skip cell frames — they're rendered as part of their table —
+            // and nested frames, rendered as part of their parent
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 44056cf..4cc2bbb 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -78,11 +78,27 @@ impl ExportMarkdownUseCase {
             }
         }
 
+        // Sub-frames and table anchors are rendered as part of the frame
+        // whose `child_order` names them.
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
+        for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+
         let mut output_parts: Vec<String> = Vec::new();
 
         for frame_id in &frame_ids {
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
+            // Skip cell frames — they're rendered as part of their table —
+            // and nested frames, rendered as part of their parent
+            if cell_frame_ids.contains(frame_id) || nested_frame_ids.contains(frame_id) {
                 continue;
             }
 
@@ -101,12 +117,11 @@ impl ExportMarkdownUseCase {
 
             if let Some(ref f) = frame {
                 let frame_lines = self.render_frame_content(&*uow, f, &cell_frame_ids, "")?;
-                for line in frame_lines {
-                    if !output_parts.is_empty() {
-                        output_parts.push("\n\n".to_string());
-                    }
-                    output_parts.push(line);
+                // The lines come with their separators
+                if !output_parts.is_empty() && !frame_lines.is_empty() {
+                    output_parts.push("\n\n".to_string());
                 }
+                output_parts.extend(frame_lines);
             }
         }
 
@@ -195,15 +210,12 @@ impl ExportMarkdownUseCase {
 
                         let sub_lines =
                             self.render_frame_content(uow, sf, cell_frame_ids, &sub_prefix)?;
-                        for sub_line in sub_lines {
-                            if !result.is_empty() {
-                                result.push("\n\n".to_string());
-                            }
-                            result.push(sub_line);
+                        if !result.is_empty() && !sub_lines.is_empty() {
+                            result.push("\n\n".to_string());
                         }
+                        result.extend(sub_lines);
                         prev_was_list = false;
-                        current_list_id = None;
-                        ordered_list_counter = 0;
+                        list_levels.clear();
                     }
                 }
             }
-- 
2.43.0


From 7b4e9e05ba0344585b6edf512ec4114c84b6389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 14/63] fix: HTML export put bullet and numbered items in one
 list element

---
 .../src/use_cases/export_html_uc.rs           | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index dbf86e1..0b506c4 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -286,14 +286,7 @@ impl ExportHtmlUseCase {
             };
 
             if let Some(ref list_entity) = list {
-                let is_ordered = matches!(
-                    list_entity.style,
-                    ListStyle::Decimal
-                        | ListStyle::LowerAlpha
-                        | ListStyle::UpperAlpha
-                        | ListStyle::LowerRoman
-                        | ListStyle::UpperRoman
-                );
+                let is_ordered = is_ordered_list(list_entity);
                 let list_tag = if is_ordered { "ol" } else { "ul" };
                 let mut list_items = Vec::new();
 
@@ -309,7 +302,7 @@ impl ExportHtmlUseCase {
                         None
                     };
 
-                    if b_list.is_some() {
+                    if b_list.is_some_and(|l| is_ordered_list(&l) == is_ordered) {
                         let inline_html = self.render_inline_html(uow, b)?;
                         list_items.push(format!("<li>{}</li>", inline_html));
                         i += 1;
@@ -535,6 +528,17 @@ impl ExportHtmlUseCase {
     }
 }
 
+fn is_ordered_list(list: &List) -> bool {
+    matches!(
+        list.style,
+        ListStyle::Decimal
+            | ListStyle::LowerAlpha
+            | ListStyle::UpperAlpha
+            | ListStyle::LowerRoman
+            | ListStyle::UpperRoman
+    )
+}
+
 fn escape_html(s: &str) -> String {
     s.replace('&', "&amp;")
         .replace('<', "&lt;")
-- 
2.43.0


From 27c0ee5dd084092653cf6c940197bc7b9aa442a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 15/63] fix: Markdown export did not escape backticks, < and &,
 nor fence text that contains backticks

---
 .../common/src/parser_tools/content_parser.rs | 21 +++++++++++++++++++
 .../src/use_cases/export_markdown_uc.rs       | 12 ++++++-----
 crates/public_api/src/fragment.rs             |  9 ++++----
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 690fc98..dd2b0d6 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -476,6 +476,27 @@ pub fn parse_markdown(markdown: &str) -> Vec<ParsedElement> {
     elements
 }
 
+/// A run of backticks longer than any in `text` (at least `min`).
+pub fn markdown_fence(text: &str, min: usize) -> String {
+    let longest = text
+        .split(|c| c != '`')
+        .map(str::len)
+        .max()
+        .unwrap_or_default();
+    "`".repeat(min.max(if longest == 0 { 0 } else { longest + 1 }))
+}
+
+/// Write `text` as a Markdown code span that reads back as `text`.
+pub fn markdown_code_span(text: &str) -> String {
+    let fence = markdown_fence(text, 1);
+    // One space on each side is stripped when the span is read
+    let padded = text.starts_with('`')
+        || text.ends_with('`')
+        || (text.starts_with(' ') && text.ends_with(' ') && !text.trim().is_empty());
+    let pad = if padded { " " } else { "" };
+    format!("{fence}{pad}{text}{pad}{fence}")
+}
+
 fn heading_level_to_i64(level: pulldown_cmark::HeadingLevel) -> i64 {
     use pulldown_cmark::HeadingLevel;
     match level {
diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 4cc2bbb..8112919 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -5,6 +5,7 @@ use common::database::QueryUnitOfWork;
 use common::database::rope_helpers::block_content_via_store;
 use common::entities::{Block, Document, Frame, List, ListStyle, Root, Table, TableCell};
 use common::format_runs::{InlineContent, InlineSegment};
+use common::parser_tools::content_parser::{markdown_code_span, markdown_fence};
 use common::types::{EntityId, ROOT_ENTITY_ID};
 use std::collections::HashSet;
 
@@ -287,11 +288,12 @@ impl ExportMarkdownUseCase {
                 }
             }
 
+            let fence = markdown_fence(&raw_text, 3);
             let code_block = if quote_prefix.is_empty() {
-                format!("```{}\n{}\n```", lang, raw_text)
+                format!("{}{}\n{}\n{}", fence, lang, raw_text, fence)
             } else {
                 let mut lines = Vec::new();
-                lines.push(format!("{}```{}", quote_prefix, lang));
+                lines.push(format!("{}{}{}", quote_prefix, fence, lang));
                 for line in raw_text.lines() {
                     lines.push(format!("{}{}", quote_prefix, line));
                 }
@@ -299,7 +301,7 @@ impl ExportMarkdownUseCase {
                 if raw_text.is_empty() {
                     lines.push(quote_prefix.to_string());
                 }
-                lines.push(format!("{}```", quote_prefix));
+                lines.push(format!("{}{}", quote_prefix, fence));
                 lines.join("\n")
             };
 
@@ -394,7 +396,7 @@ impl ExportMarkdownUseCase {
 
             // Apply formatting (innermost first)
             if elem.fmt_font_family.as_deref() == Some("monospace") {
-                formatted = format!("`{}`", formatted);
+                formatted = markdown_code_span(&formatted);
             }
             if elem.fmt_font_strikeout == Some(true) {
                 formatted = format!("~~{}~~", formatted);
@@ -527,7 +529,7 @@ fn escape_markdown(s: &str) -> String {
     for c in s.chars() {
         match c {
             '\\' | '*' | '_' | '{' | '}' | '[' | ']' | '(' | ')' | '#' | '+' | '-' | '.' | '!'
-            | '|' | '~' | '>' => {
+            | '|' | '~' | '<' | '>' | '&' | '`' => {
                 result.push('\\');
                 result.push(c);
             }
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 4640e0a..ab364ff 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -1,7 +1,9 @@
 //! DocumentFragment — format-agnostic rich text interchange type.
 
 use crate::{InlineContent, ListStyle};
-use frontend::common::parser_tools::content_parser::{ParsedElement, ParsedSpan};
+use frontend::common::parser_tools::content_parser::{
+    ParsedElement, ParsedSpan, markdown_code_span,
+};
 use frontend::common::parser_tools::fragment_schema::{
     FragmentBlock, FragmentData, FragmentElement, FragmentTable, FragmentTableCell,
 };
@@ -531,6 +533,7 @@ fn escape_markdown(s: &str) -> String {
                 | '~'
                 | '<'
                 | '>'
+                | '&'
         ) {
             out.push('\\');
         }
@@ -558,9 +561,7 @@ fn render_inline_markdown(elements: &[FragmentElement]) -> String {
         let is_anchor = elem.fmt_is_anchor.unwrap_or(false);
 
         if is_monospace {
-            out.push('`');
-            out.push_str(&raw_text);
-            out.push('`');
+            out.push_str(&markdown_code_span(&raw_text));
         } else {
             let mut text = escape_markdown(&raw_text);
             if is_bold && is_italic {
-- 
2.43.0


From d4b33e403b7e721ace2b56985699a1016045a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 16/63] fix: HTML import moved loose text ahead of nested
 blocks and turned white space between tags into paragraphs

---
 .../common/src/parser_tools/content_parser.rs | 170 +++++++++++-------
 1 file changed, 106 insertions(+), 64 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index dd2b0d6..a2959a6 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -832,23 +832,9 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                         );
                     }
                 } else if is_block_tag && tag != "br" {
-                    // Start collecting spans for a new block.
-                    // Use a temporary buffer so that nested block-level
-                    // elements (e.g. sub-lists inside <li>) are collected
-                    // separately and appended *after* the parent block.
-                    let mut spans: Vec<ParsedSpan> = Vec::new();
-                    let mut nested_elements: Vec<ParsedElement> = Vec::new();
-                    collect_inline_spans(
-                        node,
-                        &new_state,
-                        &mut spans,
-                        &new_list_style,
-                        &mut nested_elements,
-                        bq_depth,
-                        new_list_depth,
-                        depth + 1,
-                    );
-
+                    // Collect the block's spans. Nested block-level elements
+                    // (e.g. sub-lists inside <li>) and <br> end the block
+                    // collected so far, so that content keeps its order.
                     let list_style_for_block = if tag == "li" {
                         new_list_style.clone()
                     } else {
@@ -861,23 +847,28 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                         0
                     };
 
-                    if !spans.is_empty() || heading_level.is_some() {
-                        elements.push(ParsedElement::Block(ParsedBlock {
-                            spans,
-                            heading_level,
-                            list_style: list_style_for_block,
-                            list_indent: list_indent_for_block,
-                            is_code_block,
-                            code_language,
-                            blockquote_depth: bq_depth,
-                            line_height: css.line_height,
-                            non_breakable_lines: css.non_breakable_lines,
-                            direction: css.direction,
-                            background_color: css.background_color,
-                        }));
-                    }
-                    // Append nested block elements after the parent block
-                    elements.append(&mut nested_elements);
+                    let template = ParsedBlock {
+                        spans: Vec::new(),
+                        heading_level,
+                        list_style: list_style_for_block,
+                        list_indent: list_indent_for_block,
+                        is_code_block,
+                        code_language,
+                        blockquote_depth: bq_depth,
+                        line_height: css.line_height,
+                        non_breakable_lines: css.non_breakable_lines,
+                        direction: css.direction,
+                        background_color: css.background_color,
+                    };
+                    collect_block(
+                        node,
+                        &new_state,
+                        &template,
+                        &new_list_style,
+                        elements,
+                        new_list_depth,
+                        depth + 1,
+                    );
                 } else if matches!(tag, "ul" | "ol" | "thead" | "tbody" | "tr") {
                     // Container elements: recurse into children
                     for child in node.children() {
@@ -951,17 +942,69 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
         }
     }
 
+    /// Collect the content of a block-level element into blocks made after
+    /// `template`: one block, or several when the content is divided by
+    /// nested block-level elements or `<br>`.
+    fn collect_block(
+        node: ego_tree::NodeRef<Node>,
+        state: &FmtState,
+        template: &ParsedBlock,
+        current_list_style: &Option<ListStyle>,
+        elements: &mut Vec<ParsedElement>,
+        list_depth: u32,
+        depth: usize,
+    ) {
+        let first = elements.len();
+        let mut spans: Vec<ParsedSpan> = Vec::new();
+        collect_inline_spans(
+            node,
+            state,
+            &mut spans,
+            template,
+            current_list_style,
+            elements,
+            list_depth,
+            depth,
+        );
+        if elements.len() == first {
+            if !spans.is_empty() || template.heading_level.is_some() {
+                elements.push(ParsedElement::Block(ParsedBlock {
+                    spans,
+                    ..template.clone()
+                }));
+            }
+        } else {
+            flush_spans(&mut spans, template, elements);
+        }
+    }
+
+    /// End the block collected so far; white space between block-level
+    /// elements is not content.
+    fn flush_spans(
+        spans: &mut Vec<ParsedSpan>,
+        template: &ParsedBlock,
+        elements: &mut Vec<ParsedElement>,
+    ) {
+        let spans = std::mem::take(spans);
+        if spans.iter().any(|span| !span.text.trim().is_empty()) {
+            elements.push(ParsedElement::Block(ParsedBlock {
+                spans,
+                ..template.clone()
+            }));
+        }
+    }
+
     /// Collect inline spans from a block-level element's children.
-    /// If a nested block-level element is encountered, it is flushed as a
-    /// separate block.
+    /// If a nested block-level element is encountered, the spans before it
+    /// are flushed and it becomes a separate block.
     #[allow(clippy::too_many_arguments)]
     fn collect_inline_spans(
         node: ego_tree::NodeRef<Node>,
         state: &FmtState,
         spans: &mut Vec<ParsedSpan>,
+        template: &ParsedBlock,
         current_list_style: &Option<ListStyle>,
         elements: &mut Vec<ParsedElement>,
-        blockquote_depth: u32,
         list_depth: u32,
         depth: usize,
     ) {
@@ -1020,20 +1063,23 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                     );
 
                     if tag == "br" {
-                        // br within a block: treat as splitting into new block
-                        // For simplicity, just add a newline to current span
-                        spans.push(ParsedSpan {
-                            text: String::new(),
-                            ..Default::default()
-                        });
+                        // br within a block: the rest goes into a new block
+                        if spans.is_empty() {
+                            spans.push(ParsedSpan::default());
+                        }
+                        elements.push(ParsedElement::Block(ParsedBlock {
+                            spans: std::mem::take(spans),
+                            ..template.clone()
+                        }));
                     } else if nested_block || tag == "table" {
                         // Flush as separate element
+                        flush_spans(spans, template, elements);
                         walk_node(
                             child,
                             &new_state,
                             elements,
                             current_list_style,
-                            blockquote_depth,
+                            template.blockquote_depth,
                             list_depth,
                             depth + 1,
                         );
@@ -1043,9 +1089,9 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
                             child,
                             &new_state,
                             spans,
+                            template,
                             current_list_style,
                             elements,
-                            blockquote_depth,
                             list_depth,
                             depth + 1,
                         );
@@ -1060,32 +1106,28 @@ pub fn parse_html_elements(html: &str) -> Vec<ParsedElement> {
     // Treat the root element as a block-level container so that
     // top-level inline elements (e.g. `<b>Bold</b> <em>Italic</em>`)
     // are grouped into a single block instead of becoming separate blocks.
-    let mut root_spans: Vec<ParsedSpan> = Vec::new();
-    collect_inline_spans(
+    let paragraph = ParsedBlock {
+        spans: Vec::new(),
+        heading_level: None,
+        list_style: None,
+        list_indent: 0,
+        is_code_block: false,
+        code_language: None,
+        blockquote_depth: 0,
+        line_height: None,
+        non_breakable_lines: None,
+        direction: None,
+        background_color: None,
+    };
+    collect_block(
         *root,
         &initial_state,
-        &mut root_spans,
+        &paragraph,
         &None,
         &mut elements,
         0,
         0,
-        0,
     );
-    if !root_spans.is_empty() {
-        elements.push(ParsedElement::Block(ParsedBlock {
-            spans: root_spans,
-            heading_level: None,
-            list_style: None,
-            list_indent: 0,
-            is_code_block: false,
-            code_language: None,
-            blockquote_depth: 0,
-            line_height: None,
-            non_breakable_lines: None,
-            direction: None,
-            background_color: None,
-        }));
-    }
 
     // If no elements were parsed, create a single empty paragraph
     if elements.is_empty() {
-- 
2.43.0


From dfac45e46a2aea9881634974ab32c7db1ba581c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:41 +0000
Subject: [PATCH 17/63] fix: Markdown export nested lists too shallow to read
 back and wrote adjacent equal formats as separate runs

---
 .../src/use_cases/export_markdown_uc.rs       | 105 ++++++++++++------
 1 file changed, 73 insertions(+), 32 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 8112919..021ea70 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -146,8 +146,7 @@ impl ExportMarkdownUseCase {
     ) -> Result<Vec<String>> {
         let mut result: Vec<String> = Vec::new();
         let mut prev_was_list = false;
-        let mut ordered_list_counter: i64 = 0;
-        let mut current_list_id: Option<EntityId> = None;
+        let mut list_levels: Vec<ListLevel> = Vec::new();
 
         // If child_order is empty, fall back to iterating blocks directly
         let use_child_order = !frame.child_order.is_empty();
@@ -159,13 +158,8 @@ impl ExportMarkdownUseCase {
                     let block_id = entry as EntityId;
                     let block = uow.get_block(&block_id)?;
                     if let Some(ref b) = block {
-                        let (line, is_list_item) = self.render_block_line(
-                            uow,
-                            b,
-                            quote_prefix,
-                            &mut ordered_list_counter,
-                            &mut current_list_id,
-                        )?;
+                        let (line, is_list_item) =
+                            self.render_block_line(uow, b, quote_prefix, &mut list_levels)?;
                         if !result.is_empty() {
                             if is_list_item && prev_was_list {
                                 result.push("\n".to_string());
@@ -197,8 +191,7 @@ impl ExportMarkdownUseCase {
                             }
                             result.push(prefixed);
                             prev_was_list = false;
-                            current_list_id = None;
-                            ordered_list_counter = 0;
+                            list_levels.clear();
                             continue;
                         }
 
@@ -236,13 +229,8 @@ impl ExportMarkdownUseCase {
             blocks.sort_by_key(|b| b.document_position);
 
             for block in &blocks {
-                let (line, is_list_item) = self.render_block_line(
-                    uow,
-                    block,
-                    quote_prefix,
-                    &mut ordered_list_counter,
-                    &mut current_list_id,
-                )?;
+                let (line, is_list_item) =
+                    self.render_block_line(uow, block, quote_prefix, &mut list_levels)?;
                 if !result.is_empty() {
                     if is_list_item && prev_was_list {
                         result.push("\n".to_string());
@@ -265,8 +253,7 @@ impl ExportMarkdownUseCase {
         uow: &dyn ExportMarkdownUnitOfWorkTrait,
         block: &Block,
         quote_prefix: &str,
-        ordered_list_counter: &mut i64,
-        current_list_id: &mut Option<EntityId>,
+        list_levels: &mut Vec<ListLevel>,
     ) -> Result<(String, bool)> {
         // Check if this is a code block
         if block.fmt_is_code_block == Some(true) {
@@ -305,8 +292,7 @@ impl ExportMarkdownUseCase {
                 lines.join("\n")
             };
 
-            *current_list_id = None;
-            *ordered_list_counter = 0;
+            list_levels.clear();
             return Ok((code_block, false));
         }
 
@@ -336,33 +322,52 @@ impl ExportMarkdownUseCase {
 
         // Build the block line
         let block_line = if let Some(level) = block.fmt_heading_level {
+            list_levels.clear();
             let prefix = "#".repeat(level as usize);
             format!("{}{} {}", quote_prefix, prefix, inline_md)
         } else if let Some(ref list_entity) = list {
-            let indent_prefix = "  ".repeat(list_entity.indent as usize);
+            // Markdown nests one level at a time: what counts is how the indent
+            // compares to the items above. A nested item has to start past the
+            // marker of the item it is in ("- " or "1. ").
+            while list_levels
+                .last()
+                .is_some_and(|level| level.indent > list_entity.indent)
+            {
+                list_levels.pop();
+            }
+            if list_levels
+                .last()
+                .is_none_or(|level| level.indent < list_entity.indent)
+            {
+                list_levels.push(ListLevel {
+                    indent: list_entity.indent,
+                    list_id: None,
+                    counter: 0,
+                });
+            }
+            let indent_prefix = "    ".repeat(list_levels.len() - 1);
             match list_entity.style {
                 ListStyle::Decimal
                 | ListStyle::LowerAlpha
                 | ListStyle::UpperAlpha
                 | ListStyle::LowerRoman
                 | ListStyle::UpperRoman => {
-                    let this_list_id = list_ids.first().copied();
-                    if this_list_id != *current_list_id {
-                        *ordered_list_counter = 1;
-                        *current_list_id = this_list_id;
+                    let level = list_levels.last_mut().expect("just pushed");
+                    if level.list_id != Some(list_entity.id) {
+                        level.counter = 1;
+                        level.list_id = Some(list_entity.id);
                     } else {
-                        *ordered_list_counter += 1;
+                        level.counter += 1;
                     }
                     format!(
                         "{}{}{}. {}",
-                        quote_prefix, indent_prefix, ordered_list_counter, inline_md
+                        quote_prefix, indent_prefix, level.counter, inline_md
                     )
                 }
                 _ => format!("{}{}- {}", quote_prefix, indent_prefix, inline_md),
             }
         } else {
-            *current_list_id = None;
-            *ordered_list_counter = 0;
+            list_levels.clear();
             format!("{}{}", quote_prefix, inline_md)
         };
 
@@ -371,8 +376,22 @@ impl ExportMarkdownUseCase {
 
     /// Render inline segments into markdown text with formatting.
     fn render_inline_segments(&self, elements: &[InlineSegment]) -> Result<String> {
-        let mut inline_md = String::new();
+        // Segments that only differ in what Markdown cannot express are written
+        // as one: the delimiters of adjacent segments would run together.
+        let mut merged: Vec<InlineSegment> = Vec::with_capacity(elements.len());
         for elem in elements {
+            if let (Some(last), InlineContent::Text(t)) = (merged.last_mut(), &elem.content)
+                && same_markdown_format(last, elem)
+                && let InlineContent::Text(text) = &mut last.content
+            {
+                text.push_str(t);
+                continue;
+            }
+            merged.push(elem.clone());
+        }
+
+        let mut inline_md = String::new();
+        for elem in &merged {
             let is_code = elem.fmt_font_family.as_deref() == Some("monospace");
             let text = match &elem.content {
                 InlineContent::Text(t) => {
@@ -516,6 +535,28 @@ impl ExportMarkdownUseCase {
     }
 }
 
+/// A nesting level of the list items being written.
+struct ListLevel {
+    indent: i64,
+    /// The ordered list last seen on this level, and the number it is at
+    list_id: Option<EntityId>,
+    counter: i64,
+}
+
+/// Whether two segments have the same formatting as far as Markdown goes.
+fn same_markdown_format(a: &InlineSegment, b: &InlineSegment) -> bool {
+    let key = |s: &InlineSegment| {
+        (
+            s.fmt_font_family.as_deref() == Some("monospace"),
+            s.fmt_font_bold == Some(true),
+            s.fmt_font_italic == Some(true),
+            s.fmt_font_strikeout == Some(true),
+            s.fmt_anchor_href.clone(),
+        )
+    };
+    key(a) == key(b)
+}
+
 /// Prefix every line of `text` with `prefix`.
 fn prefix_lines(text: &str, prefix: &str) -> String {
     text.lines()
-- 
2.43.0


From 18990cc6470048d752f2f235598539378ed1dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 18/63] fix: LaTeX export put bullet and numbered items in one
 environment and let a leading bracket become an item label

---
 .../src/use_cases/export_latex_uc.rs          | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 6e2c6c3..6223565 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -243,15 +243,8 @@ impl ExportLatexUseCase {
             };
 
             if let Some(ref list_entity) = list {
-                // Collect consecutive list items
-                let is_ordered = matches!(
-                    list_entity.style,
-                    ListStyle::Decimal
-                        | ListStyle::LowerAlpha
-                        | ListStyle::UpperAlpha
-                        | ListStyle::LowerRoman
-                        | ListStyle::UpperRoman
-                );
+                // Collect consecutive list items of the same kind
+                let is_ordered = is_ordered_list(list_entity);
                 let env = if is_ordered { "enumerate" } else { "itemize" };
                 let mut items = Vec::new();
 
@@ -267,9 +260,15 @@ impl ExportLatexUseCase {
                         None
                     };
 
-                    if b_list.is_some() {
+                    if b_list.is_some_and(|l| is_ordered_list(&l) == is_ordered) {
                         let inline_latex = self.render_inline_latex(uow, b)?;
-                        items.push(format!("\\item {}", inline_latex));
+                        // A leading bracket would be read as the item's label
+                        let guard = if inline_latex.trim_start().starts_with('[') {
+                            "{}"
+                        } else {
+                            ""
+                        };
+                        items.push(format!("\\item {}{}", guard, inline_latex));
                         i += 1;
                     } else {
                         break;
@@ -535,6 +534,17 @@ impl ExportLatexUseCase {
     }
 }
 
+fn is_ordered_list(list: &List) -> bool {
+    matches!(
+        list.style,
+        ListStyle::Decimal
+            | ListStyle::LowerAlpha
+            | ListStyle::UpperAlpha
+            | ListStyle::LowerRoman
+            | ListStyle::UpperRoman
+    )
+}
+
 fn escape_latex(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
     for ch in s.chars() {
-- 
2.43.0


From 3d1f41df8417758cc10fc78be8471e5e8947d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 19/63] fix: waiting for a failed or cancelled long operation
 never returned, and a cancellation was announced twice

---
 crates/common/src/long_operation.rs | 56 +++++++++++++++++------------
 crates/public_api/src/operation.rs  | 30 +++++++++++++---
 2 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/crates/common/src/long_operation.rs b/crates/common/src/long_operation.rs
index e763ebd..09348ce 100644
--- a/crates/common/src/long_operation.rs
+++ b/crates/common/src/long_operation.rs
@@ -159,7 +159,8 @@ pub trait LongOperation: Send + 'static {
 trait OperationHandleTrait: Send {
     fn get_status(&self) -> OperationStatus;
     fn get_progress(&self) -> OperationProgress;
-    fn cancel(&self);
+    /// Returns whether this ended a running operation.
+    fn cancel(&self) -> bool;
     fn is_finished(&self) -> bool;
 }
 
@@ -191,12 +192,14 @@ impl OperationHandleTrait for OperationHandle {
         lock_or_recover(&self.progress).clone()
     }
 
-    fn cancel(&self) {
-        self.cancel_flag.store(true, Ordering::Relaxed);
+    fn cancel(&self) -> bool {
         let mut status = lock_or_recover(&self.status);
-        if matches!(*status, OperationStatus::Running) {
-            *status = OperationStatus::Cancelled;
+        if !matches!(*status, OperationStatus::Running) {
+            return false;
         }
+        self.cancel_flag.store(true, Ordering::Relaxed);
+        *status = OperationStatus::Cancelled;
+        true
     }
 
     fn is_finished(&self) -> bool {
@@ -298,24 +301,31 @@ impl LongOperationManager {
 
             let operation_result = operation.execute(progress_callback, cancel_flag_clone.clone());
 
-            let final_status = if cancel_flag_clone.load(Ordering::Relaxed) {
-                OperationStatus::Cancelled
-            } else {
-                match &operation_result {
-                    Ok(result) => {
-                        // Store the result
-                        if let Ok(serialized) = serde_json::to_string(result) {
-                            let mut results = lock_or_recover(&results_clone);
-                            results.insert(id_clone.clone(), serialized);
+            // Settle the outcome under the status lock, so that it cannot also
+            // be cancelled
+            let final_status = {
+                let mut status = lock_or_recover(&status_clone);
+                if !matches!(*status, OperationStatus::Cancelled) {
+                    *status = match &operation_result {
+                        Ok(result) => {
+                            // Store the result
+                            if let Ok(serialized) = serde_json::to_string(result) {
+                                let mut results = lock_or_recover(&results_clone);
+                                results.insert(id_clone.clone(), serialized);
+                            }
+                            OperationStatus::Completed
                         }
-                        OperationStatus::Completed
-                    }
-                    Err(e) => OperationStatus::Failed(e.to_string()),
+                        Err(e) => OperationStatus::Failed(e.to_string()),
+                    };
                 }
+                status.clone()
             };
 
-            // Emit final status event
-            if let Some(event_hub) = &event_hub_opt {
+            // Emit final status event (a cancellation was announced by
+            // `cancel_operation`)
+            if let Some(event_hub) = &event_hub_opt
+                && final_status != OperationStatus::Cancelled
+            {
                 let (event, data) = match &final_status {
                     OperationStatus::Completed => (
                         LongOperationEvent::Completed,
@@ -340,8 +350,6 @@ impl LongOperationManager {
                     data: Some(data),
                 });
             }
-
-            *lock_or_recover(&status_clone) = final_status;
         });
 
         let handle = OperationHandle {
@@ -372,9 +380,11 @@ impl LongOperationManager {
     pub fn cancel_operation(&self, id: &str) -> bool {
         let operations = lock_or_recover(&self.operations);
         if let Some(handle) = operations.get(id) {
-            handle.cancel();
+            let cancelled = handle.cancel();
             // Emit cancelled event immediately
-            if let Some(event_hub) = &self.event_hub {
+            if let Some(event_hub) = &self.event_hub
+                && cancelled
+            {
                 let payload = serde_json::json!({"id": id}).to_string();
                 event_hub.send_event(Event {
                     origin: Origin::LongOperation(LongOperationEvent::Cancelled),
diff --git a/crates/public_api/src/operation.rs b/crates/public_api/src/operation.rs
index 31770be..e642347 100644
--- a/crates/public_api/src/operation.rs
+++ b/crates/public_api/src/operation.rs
@@ -3,9 +3,10 @@
 use std::thread;
 use std::time::Duration;
 
-use anyhow::Result;
+use anyhow::{Result, anyhow};
 
 use frontend::AppContext;
+use frontend::common::long_operation::OperationStatus;
 
 /// Function that polls the long-operation manager for a result.
 type ResultFn<T> = Box<dyn Fn(&AppContext, &str) -> Option<Result<T>> + Send>;
@@ -45,6 +46,25 @@ impl<T> Operation<T> {
         }
     }
 
+    /// The outcome, once the operation has completed, failed or been cancelled.
+    fn outcome(&self) -> Option<Result<T>> {
+        if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            return Some(result);
+        }
+        let status = self
+            .state
+            .ctx
+            .long_operation_manager
+            .lock()
+            .unwrap_or_else(|e| e.into_inner())
+            .get_operation_status(&self.id);
+        match status {
+            Some(OperationStatus::Failed(error)) => Some(Err(anyhow!(error))),
+            Some(OperationStatus::Cancelled) => Some(Err(anyhow!("Operation was cancelled"))),
+            _ => None,
+        }
+    }
+
     /// The operation ID (for matching with [`DocumentEvent`](crate::DocumentEvent) variants).
     pub fn id(&self) -> &str {
         &self.id
@@ -72,7 +92,7 @@ impl<T> Operation<T> {
 
     /// Returns `true` if the operation has finished (success or failure).
     pub fn is_done(&self) -> bool {
-        (self.result_fn)(&self.state.ctx, &self.id).is_some()
+        self.outcome().is_some()
     }
 
     /// Cancel the operation. No-op if already finished.
@@ -86,7 +106,7 @@ impl<T> Operation<T> {
     /// the typed result. Consumes the handle.
     pub fn wait(self) -> Result<T> {
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.outcome() {
                 return result;
             }
             thread::sleep(Duration::from_millis(50));
@@ -98,7 +118,7 @@ impl<T> Operation<T> {
     pub fn wait_timeout(self, timeout: Duration) -> Option<Result<T>> {
         let deadline = std::time::Instant::now() + timeout;
         loop {
-            if let Some(result) = (self.result_fn)(&self.state.ctx, &self.id) {
+            if let Some(result) = self.outcome() {
                 return Some(result);
             }
             if std::time::Instant::now() >= deadline {
@@ -112,7 +132,7 @@ impl<T> Operation<T> {
     /// Non-blocking: returns the result if the operation has completed,
     /// `None` if still running. Can be called repeatedly.
     pub fn try_result(&mut self) -> Option<Result<T>> {
-        (self.result_fn)(&self.state.ctx, &self.id)
+        self.outcome()
     }
 }
 
-- 
2.43.0


From d70201f5b2ca77f3da97ad1bdde4c0d9d3855485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 20/63] fix: importing HTML or Markdown kept the undo history,
 a stale text cache and highlights, and exporting DOCX announced a document
 reset

---
 crates/public_api/src/document.rs | 29 +++++++++++++++++++++++------
 crates/public_api/src/inner.rs    | 24 +++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 1fdd02d..31cb103 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -1,6 +1,6 @@
 //! TextDocument implementation.
 
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 
 use parking_lot::Mutex;
 
@@ -106,9 +106,7 @@ impl TextDocument {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
                         let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::DocumentReset);
-                        inner.check_block_count_changed();
-                        inner.reset_cached_child_order();
+                        inner.finish_import(&op_id);
                         inner.queue_event(DocumentEvent::LongOperationFinished {
                             operation_id: op_id,
                             success: true,
@@ -200,14 +198,17 @@ impl TextDocument {
             markdown_text: markdown.into(),
         };
         let op_id = document_io_commands::import_markdown(&inner.ctx, &dto)?;
+        inner.pending_imports.insert(op_id.clone());
+        let weak = Arc::downgrade(&self.inner);
         Ok(Operation::new(
             op_id,
             &inner.ctx,
-            Box::new(|ctx, id| {
+            Box::new(move |ctx, id| {
                 document_io_commands::get_import_markdown_result(ctx, id)
                     .ok()
                     .flatten()
                     .map(|r| {
+                        finish_import(&weak, id);
                         Ok(MarkdownImportResult {
                             block_count: to_usize(r.block_count),
                         })
@@ -233,14 +234,17 @@ impl TextDocument {
             html_text: html.into(),
         };
         let op_id = document_io_commands::import_html(&inner.ctx, &dto)?;
+        inner.pending_imports.insert(op_id.clone());
+        let weak = Arc::downgrade(&self.inner);
         Ok(Operation::new(
             op_id,
             &inner.ctx,
-            Box::new(|ctx, id| {
+            Box::new(move |ctx, id| {
                 document_io_commands::get_import_html_result(ctx, id)
                     .ok()
                     .flatten()
                     .map(|r| {
+                        finish_import(&weak, id);
                         Ok(HtmlImportResult {
                             block_count: to_usize(r.block_count),
                         })
@@ -1265,6 +1269,19 @@ pub(crate) fn get_main_frame_id(inner: &TextDocumentInner) -> frontend::common::
     frames.first().copied().unwrap_or(0)
 }
 
+/// Handle a completed import before its result is handed out, in case the
+/// event that announces it has not arrived yet.
+fn finish_import(inner: &Weak<Mutex<TextDocumentInner>>, operation_id: &str) {
+    if let Some(inner) = inner.upgrade() {
+        let queued = {
+            let mut inner = inner.lock();
+            inner.finish_import(operation_id);
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
+    }
+}
+
 // ── Long-operation event data helpers ─────────────────────────
 
 /// Parse progress JSON: `{"id":"...", "percentage": 50.0, "message": "..."}`
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index ead96b9..0e8c4ae 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -12,7 +12,7 @@
 //! then read/update cursor data while the document lock is held, and
 //! call `adjust_cursors()` before releasing the document lock.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::atomic::AtomicBool;
 use std::sync::{Arc, Weak};
 
@@ -97,6 +97,9 @@ pub(crate) struct TextDocumentInner {
     // Syntax highlighting state (shadow formatting layer).
     pub highlight: Option<HighlightData>,
 
+    // Running HTML/Markdown imports whose completion is still to be handled.
+    pub pending_imports: HashSet<String>,
+
     // Holds SubscriptionTokens for LongOperation event bridges. Dropping a
     // token unsubscribes the callback, so these must outlive the document.
     pub long_op_subscriptions: Vec<SubscriptionToken>,
@@ -279,6 +282,24 @@ impl TextDocumentInner {
         self.last_child_order = current;
     }
 
+    /// Handle the completion of an HTML/Markdown import, once per import: the
+    /// import replaced the document behind the document lock.
+    pub fn finish_import(&mut self, operation_id: &str) {
+        if !self.pending_imports.remove(operation_id) {
+            return;
+        }
+        frontend::commands::undo_redo_commands::clear_stack(&self.ctx, self.stack_id);
+        self.invalidate_text_cache();
+        self.rehighlight_all();
+        self.queue_event(DocumentEvent::DocumentReset);
+        self.check_block_count_changed();
+        self.reset_cached_child_order();
+        self.queue_event(DocumentEvent::UndoRedoChanged {
+            can_undo: false,
+            can_redo: false,
+        });
+    }
+
     /// Reset the cached child_order to the current state without emitting events.
     /// Call after a `DocumentReset` event, since the layout engine will do a full
     /// rebuild anyway.
@@ -391,6 +412,7 @@ impl TextDocumentInner {
             last_block_count: 1, // new document starts with one block
             last_child_order: vec![block.id as i64],
             highlight: None,
+            pending_imports: HashSet::new(),
             long_op_subscriptions: Vec::new(),
         })
     }
-- 
2.43.0


From d13ab642ed1e27b469fe6d850dc028ada4c8b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:29 +0000
Subject: [PATCH 21/63] fix: a new document counted no blocks although it has
 one

---
 crates/public_api/src/inner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 0e8c4ae..1c4dd82 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -357,7 +357,10 @@ impl TextDocumentInner {
         let doc = document_commands::create_document(
             &ctx,
             Some(stack_id),
-            &CreateDocumentDto::default(),
+            &CreateDocumentDto {
+                block_count: 1, // the empty block created below
+                ..CreateDocumentDto::default()
+            },
             root.id,
             -1,
         )?;
-- 
2.43.0


From e8e573fecf67a90ba70d685f6fd619ec0c028166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:21 +0000
Subject: [PATCH 22/63] fix: events of long operations reached on_change
 callbacks only with the next edit

---
 crates/public_api/src/document.rs | 66 +++++++++++++++++++------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 31cb103..9267c1e 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -88,12 +88,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Progress), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let (op_id, percent, message) = parse_progress_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationProgress {
-                            operation_id: op_id,
-                            percent,
-                            message,
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationProgress {
+                                operation_id: op_id,
+                                percent,
+                                message,
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -105,13 +109,17 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Completed), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.finish_import(&op_id);
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: true,
-                            error: None,
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.finish_import(&op_id);
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: true,
+                                error: None,
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -123,12 +131,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Cancelled), move |event| {
                     if let Some(inner) = w.upgrade() {
                         let op_id = parse_id_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some("cancelled".into()),
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some("cancelled".into()),
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
@@ -139,12 +151,16 @@ impl TextDocument {
                 .subscribe(Origin::LongOperation(LOE::Failed), move |event| {
                     if let Some(inner) = weak.upgrade() {
                         let (op_id, error) = parse_failed_data(&event.data);
-                        let mut inner = inner.lock();
-                        inner.queue_event(DocumentEvent::LongOperationFinished {
-                            operation_id: op_id,
-                            success: false,
-                            error: Some(error),
-                        });
+                        let queued = {
+                            let mut inner = inner.lock();
+                            inner.queue_event(DocumentEvent::LongOperationFinished {
+                                operation_id: op_id,
+                                success: false,
+                                error: Some(error),
+                            });
+                            inner.take_queued_events()
+                        };
+                        crate::inner::dispatch_queued_events(queued);
                     }
                 });
 
-- 
2.43.0


From fed3b34d4f5c11a50d9cdbd0378dca9aefa57d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 23/63] fix: DOCX export wrote quotations and tables after all
 other paragraphs

---
 .../src/use_cases/export_docx_uc.rs           | 241 +++++++++++-------
 1 file changed, 143 insertions(+), 98 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index e0550a4..4c440e4 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -8,7 +8,7 @@ use common::entities::{Block, Document, Frame, List, Root, Table, TableCell};
 use common::format_runs::InlineContent;
 use common::long_operation::LongOperation;
 use common::types::{EntityId, ROOT_ENTITY_ID};
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
 pub trait ExportDocxUnitOfWorkFactoryTrait: Send + Sync {
@@ -122,122 +122,117 @@ impl LongOperation for ExportDocxUseCase {
             Some("Walking document tree...".to_string()),
         ));
 
+        // Sub-frames and table anchors are written where the frame that holds
+        // them names them in its `child_order`.
+        let mut nested_frame_ids: HashSet<EntityId> = HashSet::new();
         for frame_id in &frame_ids {
+            if let Some(frame) = uow.get_frame(frame_id)? {
+                nested_frame_ids.extend(
+                    frame
+                        .child_order
+                        .iter()
+                        .filter(|entry| **entry < 0)
+                        .map(|entry| (-entry) as EntityId),
+                );
+            }
+        }
+        let mut items: Vec<FlowItem> = Vec::new();
+        for frame_id in &frame_ids {
+            if !nested_frame_ids.contains(frame_id) {
+                Self::collect_flow_items(&*uow, frame_id, &cell_frame_ids, &mut items)?;
+            }
+        }
+        let total = items.len();
+
+        for (idx, item) in items.iter().enumerate() {
             if cancel_flag.load(Ordering::Relaxed) {
                 uow.end_transaction()?;
                 return Err(anyhow!("Operation was cancelled"));
             }
 
-            // Skip cell frames — they're rendered as part of their table
-            if cell_frame_ids.contains(frame_id) {
-                continue;
+            let block = match item {
+                FlowItem::Table(table_id) => {
+                    let table = self.render_table_docx(&*uow, table_id)?;
+                    docx = docx.add_table(table);
+                    paragraph_count += 1;
+                    continue;
+                }
+                FlowItem::Block(block) => block,
+            };
+
+            let block_text = block_content_via_store(block, &uow.store());
+            let elements = common::format_runs_query::inline_segments_for_block(
+                &uow.store(),
+                block.id,
+                &block_text,
+            );
+
+            let mut paragraph = Paragraph::new();
+
+            // Apply heading style
+            if let Some(level) = block.fmt_heading_level {
+                let style_name = format!("Heading{}", level.clamp(1, 6));
+                paragraph = paragraph.style(&style_name);
             }
-
-            // Check if this is a table anchor frame
-            let frame = uow.get_frame(frame_id)?;
-            if let Some(ref f) = frame
-                && let Some(table_id) = f.table
-            {
-                let table = self.render_table_docx(&*uow, &table_id)?;
-                docx = docx.add_table(table);
-                paragraph_count += 1;
-                continue;
+            // Apply line height (thousandths → 240ths: 1000 = 240, 1500 = 360)
+            if let Some(lh) = block.fmt_line_height {
+                let twips = (lh as f64 / 1000.0 * 240.0) as i32;
+                paragraph = paragraph.line_spacing(
+                    LineSpacing::new()
+                        .line_rule(LineSpacingType::Auto)
+                        .line(twips),
+                );
             }
-
-            let block_ids = uow.get_frame_relationship(
-                frame_id,
-                &common::direct_access::frame::FrameRelationshipField::Blocks,
-            )?;
-
-            if block_ids.is_empty() {
-                continue;
+            // Apply non-breakable lines
+            if block.fmt_non_breakable_lines == Some(true) {
+                paragraph = paragraph.keep_lines(true);
             }
+            // Note: bidi (RTL direction) and paragraph shading (background_color)
+            // are not directly exposed on Paragraph in docx-rs 0.4.
+
+            for elem in &elements {
+                let text = match &elem.content {
+                    InlineContent::Text(t) => t.clone(),
+                    InlineContent::Image { name, .. } => {
+                        format!("[Image: {}]", name)
+                    }
+                    InlineContent::Empty => String::new(),
+                };
 
-            let blocks_opt = uow.get_block_multi(&block_ids)?;
-            let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-            blocks.sort_by_key(|b| b.document_position);
-            let total = blocks.len();
-
-            for (idx, block) in blocks.iter().enumerate() {
-                if cancel_flag.load(Ordering::Relaxed) {
-                    uow.end_transaction()?;
-                    return Err(anyhow!("Operation was cancelled"));
+                if text.is_empty() {
+                    continue;
                 }
 
-                let block_text = block_content_via_store(block, &uow.store());
-                let elements = common::format_runs_query::inline_segments_for_block(
-                    &uow.store(),
-                    block.id,
-                    &block_text,
-                );
-
-                let mut paragraph = Paragraph::new();
+                let mut run = Run::new().add_text(text);
 
-                // Apply heading style
-                if let Some(level) = block.fmt_heading_level {
-                    let style_name = format!("Heading{}", level.clamp(1, 6));
-                    paragraph = paragraph.style(&style_name);
+                if elem.fmt_font_bold == Some(true) {
+                    run = run.bold();
                 }
-                // Apply line height (thousandths → 240ths: 1000 = 240, 1500 = 360)
-                if let Some(lh) = block.fmt_line_height {
-                    let twips = (lh as f64 / 1000.0 * 240.0) as i32;
-                    paragraph = paragraph.line_spacing(
-                        LineSpacing::new()
-                            .line_rule(LineSpacingType::Auto)
-                            .line(twips),
-                    );
+                if elem.fmt_font_italic == Some(true) {
+                    run = run.italic();
                 }
-                // Apply non-breakable lines
-                if block.fmt_non_breakable_lines == Some(true) {
-                    paragraph = paragraph.keep_lines(true);
+                if elem.fmt_font_underline == Some(true) {
+                    run = run.underline("single");
                 }
-                // Note: bidi (RTL direction) and paragraph shading (background_color)
-                // are not directly exposed on Paragraph in docx-rs 0.4.
-
-                for elem in &elements {
-                    let text = match &elem.content {
-                        InlineContent::Text(t) => t.clone(),
-                        InlineContent::Image { name, .. } => {
-                            format!("[Image: {}]", name)
-                        }
-                        InlineContent::Empty => String::new(),
-                    };
-
-                    if text.is_empty() {
-                        continue;
-                    }
-
-                    let mut run = Run::new().add_text(text);
-
-                    if elem.fmt_font_bold == Some(true) {
-                        run = run.bold();
-                    }
-                    if elem.fmt_font_italic == Some(true) {
-                        run = run.italic();
-                    }
-                    if elem.fmt_font_underline == Some(true) {
-                        run = run.underline("single");
-                    }
-                    if elem.fmt_font_strikeout == Some(true) {
-                        run = run.strike();
-                    }
-                    if elem.fmt_font_family.as_deref() == Some("monospace") {
-                        run = run.fonts(RunFonts::new().ascii("Courier New"));
-                    }
-
-                    paragraph = paragraph.add_run(run);
+                if elem.fmt_font_strikeout == Some(true) {
+                    run = run.strike();
+                }
+                if elem.fmt_font_family.as_deref() == Some("monospace") {
+                    run = run.fonts(RunFonts::new().ascii("Courier New"));
                 }
 
-                docx = docx.add_paragraph(paragraph);
-                paragraph_count += 1;
+                paragraph = paragraph.add_run(run);
+            }
+
+            docx = docx.add_paragraph(paragraph);
+            paragraph_count += 1;
 
-                if idx % 10 == 0 {
-                    let pct = 10.0 + (idx as f32 / total as f32) * 80.0;
-                    progress_callback(common::long_operation::OperationProgress::new(
-                        pct,
-                        Some(format!("Processing paragraph {}/{}", idx + 1, total)),
-                    ));
-                }
+            if idx % 10 == 0 {
+                let pct = 10.0 + (idx as f32 / total as f32) * 80.0;
+                progress_callback(common::long_operation::OperationProgress::new(
+                    pct,
+                    Some(format!("Processing paragraph {}/{}", idx + 1, total)),
+                ));
             }
         }
 
@@ -272,7 +267,57 @@ impl LongOperation for ExportDocxUseCase {
     }
 }
 
+enum FlowItem {
+    Block(Block),
+    Table(EntityId),
+}
+
 impl ExportDocxUseCase {
+    /// Collect the blocks and tables of a frame and its sub-frames in document order.
+    fn collect_flow_items(
+        uow: &dyn ExportDocxUnitOfWorkTrait,
+        frame_id: &EntityId,
+        cell_frame_ids: &HashSet<EntityId>,
+        items: &mut Vec<FlowItem>,
+    ) -> Result<()> {
+        // Cell frames are rendered as part of their table
+        if cell_frame_ids.contains(frame_id) {
+            return Ok(());
+        }
+        let Some(frame) = uow.get_frame(frame_id)? else {
+            return Ok(());
+        };
+        if let Some(table_id) = frame.table {
+            items.push(FlowItem::Table(table_id));
+            return Ok(());
+        }
+
+        let block_ids = uow.get_frame_relationship(
+            frame_id,
+            &common::direct_access::frame::FrameRelationshipField::Blocks,
+        )?;
+        let mut blocks: Vec<Block> = uow
+            .get_block_multi(&block_ids)?
+            .into_iter()
+            .flatten()
+            .collect();
+        if frame.child_order.is_empty() {
+            blocks.sort_by_key(|b| b.document_position);
+            items.extend(blocks.into_iter().map(FlowItem::Block));
+            return Ok(());
+        }
+        let mut by_id: HashMap<EntityId, Block> = blocks.into_iter().map(|b| (b.id, b)).collect();
+        for &entry in &frame.child_order {
+            if entry > 0 {
+                items.extend(by_id.remove(&(entry as EntityId)).map(FlowItem::Block));
+            } else {
+                let sub_frame_id = (-entry) as EntityId;
+                Self::collect_flow_items(uow, &sub_frame_id, cell_frame_ids, items)?;
+            }
+        }
+        Ok(())
+    }
+
     fn render_table_docx(
         &self,
         uow: &dyn ExportDocxUnitOfWorkTrait,
-- 
2.43.0


From 735aa736eda5e7d0c07267bd988e2b2daa300d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 24/63] fix: DOCX export dropped the line breaks inside code
 blocks

---
 .../src/use_cases/export_docx_uc.rs           | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index 4c440e4..41f69b4 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -203,7 +203,7 @@ impl LongOperation for ExportDocxUseCase {
                     continue;
                 }
 
-                let mut run = Run::new().add_text(text);
+                let mut run = text_run(&text);
 
                 if elem.fmt_font_bold == Some(true) {
                     run = run.bold();
@@ -422,7 +422,7 @@ impl ExportDocxUseCase {
                                     continue;
                                 }
 
-                                let mut run = Run::new().add_text(text);
+                                let mut run = text_run(&text);
                                 if elem.fmt_font_bold == Some(true) {
                                     run = run.bold();
                                 }
@@ -476,3 +476,18 @@ impl ExportDocxUseCase {
         Ok(docx_table)
     }
 }
+
+/// A run holding `text`, with a line break for each newline in it (as in
+/// code blocks): `w:t` cannot carry one.
+fn text_run(text: &str) -> docx_rs::Run {
+    let mut run = docx_rs::Run::new();
+    for (i, line) in text.split('\n').enumerate() {
+        if i > 0 {
+            run = run.add_break(docx_rs::BreakType::TextWrapping);
+        }
+        if !line.is_empty() {
+            run = run.add_text(line);
+        }
+    }
+    run
+}
-- 
2.43.0


From e64d95a91bdc90d395963c4f5e9d4104681a2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:54 +0000
Subject: [PATCH 25/63] fix: loading new content kept the lists and tables of
 the old content

---
 .../src/units_of_work/import_html_uow.rs         |  2 ++
 .../src/units_of_work/import_markdown_uow.rs     |  2 ++
 .../src/units_of_work/import_plain_text_uow.rs   |  2 ++
 .../document_io/src/use_cases/import_html_uc.rs  | 16 ++++++++++++++++
 .../src/use_cases/import_markdown_uc.rs          | 16 ++++++++++++++++
 .../src/use_cases/import_plain_text_uc.rs        | 16 ++++++++++++++++
 6 files changed, 54 insertions(+)

diff --git a/crates/document_io/src/units_of_work/import_html_uow.rs b/crates/document_io/src/units_of_work/import_html_uow.rs
index 461a766..5c7edb1 100644
--- a/crates/document_io/src/units_of_work/import_html_uow.rs
+++ b/crates/document_io/src/units_of_work/import_html_uow.rs
@@ -98,6 +98,8 @@ impl CommandUnitOfWork for ImportHtmlUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Update", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
diff --git a/crates/document_io/src/units_of_work/import_markdown_uow.rs b/crates/document_io/src/units_of_work/import_markdown_uow.rs
index 2f8ccc6..ba8b86d 100644
--- a/crates/document_io/src/units_of_work/import_markdown_uow.rs
+++ b/crates/document_io/src/units_of_work/import_markdown_uow.rs
@@ -103,6 +103,8 @@ impl CommandUnitOfWork for ImportMarkdownUnitOfWork {
     thread_safe = true
 )]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
diff --git a/crates/document_io/src/units_of_work/import_plain_text_uow.rs b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
index ee2abd4..1b63f72 100644
--- a/crates/document_io/src/units_of_work/import_plain_text_uow.rs
+++ b/crates/document_io/src/units_of_work/import_plain_text_uow.rs
@@ -95,6 +95,8 @@ impl CommandUnitOfWork for ImportPlainTextUnitOfWork {
 #[macros::uow_action(entity = "Frame", action = "Create")]
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
+#[macros::uow_action(entity = "List", action = "Remove")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
diff --git a/crates/document_io/src/use_cases/import_html_uc.rs b/crates/document_io/src/use_cases/import_html_uc.rs
index 1e6d724..7e4f7e0 100644
--- a/crates/document_io/src/use_cases/import_html_uc.rs
+++ b/crates/document_io/src/use_cases/import_html_uc.rs
@@ -31,6 +31,8 @@ pub trait ImportHtmlUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Update", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
@@ -104,6 +106,20 @@ impl LongOperation for ImportHtmlUseCase {
         for frame_id in &frame_ids {
             uow.remove_frame(frame_id)?;
         }
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
 
         if cancel_flag.load(Ordering::Relaxed) {
             uow.rollback()?;
diff --git a/crates/document_io/src/use_cases/import_markdown_uc.rs b/crates/document_io/src/use_cases/import_markdown_uc.rs
index cb6e719..bcc8fd8 100644
--- a/crates/document_io/src/use_cases/import_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/import_markdown_uc.rs
@@ -32,6 +32,8 @@ pub trait ImportMarkdownUnitOfWorkFactoryTrait: Send + Sync {
     thread_safe = true
 )]
 #[macros::uow_action(entity = "Frame", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "List", action = "Remove", thread_safe = true)]
+#[macros::uow_action(entity = "Table", action = "Remove", thread_safe = true)]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "Create", thread_safe = true)]
 #[macros::uow_action(entity = "Block", action = "SetRelationship", thread_safe = true)]
@@ -91,6 +93,20 @@ fn import_parsed_elements(
     for frame_id in &frame_ids {
         uow.remove_frame(frame_id)?;
     }
+    let list_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Lists,
+    )?;
+    for list_id in &list_ids {
+        uow.remove_list(list_id)?;
+    }
+    let table_ids = uow.get_document_relationship(
+        &doc_id,
+        &common::direct_access::document::DocumentRelationshipField::Tables,
+    )?;
+    for table_id in &table_ids {
+        uow.remove_table(table_id)?;
+    }
 
     if cancel_flag.load(Ordering::Relaxed) {
         return Err(anyhow!("Operation was cancelled"));
diff --git a/crates/document_io/src/use_cases/import_plain_text_uc.rs b/crates/document_io/src/use_cases/import_plain_text_uc.rs
index 168e6c4..386377e 100644
--- a/crates/document_io/src/use_cases/import_plain_text_uc.rs
+++ b/crates/document_io/src/use_cases/import_plain_text_uc.rs
@@ -19,6 +19,8 @@ pub trait ImportPlainTextUnitOfWorkFactoryTrait: Send + Sync {
 #[macros::uow_action(entity = "Frame", action = "Create")]
 #[macros::uow_action(entity = "Frame", action = "Update")]
 #[macros::uow_action(entity = "Frame", action = "Remove")]
+#[macros::uow_action(entity = "List", action = "Remove")]
+#[macros::uow_action(entity = "Table", action = "Remove")]
 #[macros::uow_action(entity = "Frame", action = "GetRelationship")]
 #[macros::uow_action(entity = "Block", action = "Create")]
 #[macros::uow_action(entity = "Block", action = "CreateMulti")]
@@ -56,6 +58,20 @@ impl ImportPlainTextUseCase {
         for frame_id in &frame_ids {
             uow.remove_frame(frame_id)?;
         }
+        let list_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Lists,
+        )?;
+        for list_id in &list_ids {
+            uow.remove_list(list_id)?;
+        }
+        let table_ids = uow.get_document_relationship(
+            &doc_id,
+            &common::direct_access::document::DocumentRelationshipField::Tables,
+        )?;
+        for table_id in &table_ids {
+            uow.remove_table(table_id)?;
+        }
 
         let new_frame = Frame::default();
         let created_frame = uow.create_frame(&new_frame, doc_id, -1)?;
-- 
2.43.0


From d5de0bc9b046281a359e733332cff4a0bcb257fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 26/63] fix: edits set the modified flag without announcing it

---
 crates/public_api/src/cursor.rs   | 44 +++++++++++++++----------------
 crates/public_api/src/document.rs |  7 ++---
 crates/public_api/src/inner.rs    |  8 ++++++
 3 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index c9271d8..7960074 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -140,7 +140,7 @@ impl TextCursor {
             d.position = new_pos;
             d.anchor = new_pos;
         }
-        inner.modified = true;
+        inner.set_modified(true);
         inner.invalidate_text_cache();
         inner.rehighlight_affected(edit_pos);
         inner.queue_event(DocumentEvent::ContentsChanged {
@@ -665,7 +665,7 @@ impl TextCursor {
             document_editing_commands::insert_frame(&inner.ctx, Some(inner.stack_id), &dto)?;
             // Frame insertion adds structural content; adjust cursors and emit event.
             // The backend doesn't return a new_position, so the cursor stays put.
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_affected(pos.min(anchor));
             inner.queue_event(DocumentEvent::ContentsChanged {
@@ -707,7 +707,7 @@ impl TextCursor {
                 d.position = new_pos;
                 d.anchor = new_pos;
             }
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_affected(pos.min(anchor));
             inner.queue_event(DocumentEvent::ContentsChanged {
@@ -782,7 +782,7 @@ impl TextCursor {
                 table_id: to_i64(table_id),
             };
             document_editing_commands::remove_table(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -802,7 +802,7 @@ impl TextCursor {
                 row_index: to_i64(row_index),
             };
             document_editing_commands::insert_table_row(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -821,7 +821,7 @@ impl TextCursor {
                 column_index: to_i64(column_index),
             };
             document_editing_commands::insert_table_column(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -840,7 +840,7 @@ impl TextCursor {
                 row_index: to_i64(row_index),
             };
             document_editing_commands::remove_table_row(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -859,7 +859,7 @@ impl TextCursor {
                 column_index: to_i64(column_index),
             };
             document_editing_commands::remove_table_column(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -888,7 +888,7 @@ impl TextCursor {
                 end_column: to_i64(end_column),
             };
             document_editing_commands::merge_table_cells(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -913,7 +913,7 @@ impl TextCursor {
                 split_columns: to_i64(split_columns),
             };
             document_editing_commands::split_table_cell(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_all();
             inner.check_block_count_changed();
@@ -935,7 +935,7 @@ impl TextCursor {
             let mut inner = self.doc.lock();
             let dto = format.to_set_dto(table_id);
             document_formatting_commands::set_table_format(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: 0,
                 length: 0,
@@ -961,7 +961,7 @@ impl TextCursor {
                 Some(inner.stack_id),
                 &dto,
             )?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: 0,
                 length: 0,
@@ -1535,7 +1535,7 @@ impl TextCursor {
                 d.position = new_pos;
                 d.anchor = new_pos;
             }
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_affected(edit_pos);
             inner.queue_event(DocumentEvent::ContentsChanged {
@@ -1580,7 +1580,7 @@ impl TextCursor {
                 style: style.clone(),
             };
             document_editing_commands::create_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.rehighlight_affected(pos.min(anchor));
             inner.queue_event(DocumentEvent::ContentsChanged {
                 position: pos.min(anchor),
@@ -1621,7 +1621,7 @@ impl TextCursor {
             let mut inner = self.doc.lock();
             let dto = format.to_set_dto(list_id);
             document_formatting_commands::set_list_format(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: 0,
                 length: 0,
@@ -1651,7 +1651,7 @@ impl TextCursor {
                 list_id: to_i64(list_id),
             };
             document_editing_commands::add_block_to_list(&inner.ctx, Some(inner.stack_id), &dto)?;
-            inner.modified = true;
+            inner.set_modified(true);
             // List membership is a formatting/layout concern, not a text
             // change — fire FormatChanged so consumers re-layout (the
             // block's horizontal position and list marker depend on
@@ -1690,7 +1690,7 @@ impl TextCursor {
                 Some(inner.stack_id),
                 &dto,
             )?;
-            inner.modified = true;
+            inner.set_modified(true);
             // See `add_block_to_list` — list-membership is a
             // formatting/layout change, not a text content change.
             inner.queue_event(DocumentEvent::FormatChanged {
@@ -1806,7 +1806,7 @@ impl TextCursor {
             document_formatting_commands::set_text_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
             let length = pos.max(anchor) - start;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: start,
                 length,
@@ -1831,7 +1831,7 @@ impl TextCursor {
             )?;
             let start = pos.min(anchor);
             let length = pos.max(anchor) - start;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: start,
                 length,
@@ -1852,7 +1852,7 @@ impl TextCursor {
             document_formatting_commands::set_block_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
             let length = pos.max(anchor) - start;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: start,
                 length,
@@ -1873,7 +1873,7 @@ impl TextCursor {
             document_formatting_commands::set_frame_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
             let length = pos.max(anchor) - start;
-            inner.modified = true;
+            inner.set_modified(true);
             inner.queue_event(DocumentEvent::FormatChanged {
                 position: start,
                 length,
@@ -1963,7 +1963,7 @@ impl TextCursor {
                 d.position = new_pos;
                 d.anchor = new_pos;
             }
-            inner.modified = true;
+            inner.set_modified(true);
             inner.invalidate_text_cache();
             inner.rehighlight_affected(edit_pos);
             inner.queue_event(DocumentEvent::ContentsChanged {
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 9267c1e..8340209 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -726,7 +726,7 @@ impl TextDocument {
             let count = to_usize(result.replacements_count);
             inner.invalidate_text_cache();
             if count > 0 {
-                inner.modified = true;
+                inner.set_modified(true);
                 inner.rehighlight_all();
                 // Replacements are scattered across the document — we can't
                 // provide a single position/chars delta. Signal "content changed
@@ -882,10 +882,7 @@ impl TextDocument {
     pub fn set_modified(&self, modified: bool) {
         let queued = {
             let mut inner = self.inner.lock();
-            if inner.modified != modified {
-                inner.modified = modified;
-                inner.queue_event(DocumentEvent::ModificationChanged(modified));
-            }
+            inner.set_modified(modified);
             inner.take_queued_events()
         };
         crate::inner::dispatch_queued_events(queued);
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 1c4dd82..669e2dd 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -149,6 +149,14 @@ impl TextDocumentInner {
         self.pending_events.push(event);
     }
 
+    /// Set or clear the modified flag, announcing a change.
+    pub fn set_modified(&mut self, modified: bool) {
+        if self.modified != modified {
+            self.modified = modified;
+            self.queue_event(DocumentEvent::ModificationChanged(modified));
+        }
+    }
+
     /// Return events added since the last `poll_events()` call.
     ///
     /// This path is independent of callback dispatch — using both
-- 
2.43.0


From 40c084a7d43bd4950144562d1d642095ea0ba35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 27/63] fix: undo and redo announced wrong or no regions of
 change

---
 crates/public_api/src/document.rs | 53 +++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 8340209..d91a823 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -7,8 +7,9 @@ use parking_lot::Mutex;
 use anyhow::Result;
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD as BASE64;
+use common::format_runs::InlineSegment;
 
-use crate::{ResourceType, TextDirection, WrapMode};
+use crate::{ListStyle, ResourceType, TextDirection, WrapMode};
 use frontend::commands::{
     block_commands, document_commands, document_inspection_commands, document_io_commands,
     document_search_commands, frame_commands, resource_commands, table_cell_commands,
@@ -1043,13 +1044,24 @@ struct UndoBlockState {
     position: i64,
     text_length: i64,
     plain_text: String,
+    segments: Vec<InlineSegment>,
     format: BlockFormat,
+    list: Option<ListState>,
 }
 
+/// The list of a block: id, style, indent, prefix and suffix.
+type ListState = (u64, ListStyle, i64, String, String);
+
 /// Capture the state of all blocks, sorted by document_position.
 fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
     let mut all_blocks =
         frontend::commands::block_commands::get_all_block(&inner.ctx).unwrap_or_default();
+    let lists: std::collections::HashMap<u64, ListState> =
+        frontend::commands::list_commands::get_all_list(&inner.ctx)
+            .unwrap_or_default()
+            .into_iter()
+            .map(|l| (l.id, (l.id, l.style, l.indent, l.prefix, l.suffix)))
+            .collect();
     let store = inner.ctx.db_context.get_store();
     crate::inner::refresh_block_positions(&mut all_blocks, store);
     let mut states: Vec<UndoBlockState> = all_blocks
@@ -1060,12 +1072,16 @@ fn capture_block_state(inner: &TextDocumentInner) -> Vec<UndoBlockState> {
             let plain_text =
                 common::database::rope_helpers::block_content_via_store(&entity, store);
             let text_length = common::database::rope_helpers::block_char_length(&entity, store);
+            let segments =
+                common::format_runs_query::inline_segments_for_block(store, b.id, &plain_text);
             UndoBlockState {
                 id: b.id,
                 position: b.document_position,
                 text_length,
                 plain_text,
+                segments,
                 format,
+                list: b.list.and_then(|id| lists.get(&id).cloned()),
             }
         })
         .collect();
@@ -1130,7 +1146,8 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     let mut new_end: usize = 0;
     let mut blocks_affected: usize = 0;
 
-    let mut format_only_changes: Vec<(usize, usize)> = Vec::new(); // (position, length)
+    // (position, length, kind)
+    let mut format_only_changes: Vec<(usize, usize, FormatChangeKind)> = Vec::new();
 
     // Check blocks present in both before and after.
     for after_state in &after {
@@ -1149,10 +1166,17 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
                         + before_state.text_length.max(0) as usize,
                 );
                 new_end = new_end.max(pos + after_state.text_length.max(0) as usize);
-            } else if format_changed {
+            } else {
                 let pos = after_state.position.max(0) as usize;
                 let len = after_state.text_length.max(0) as usize;
-                format_only_changes.push((pos, len));
+                if format_changed {
+                    format_only_changes.push((pos, len, FormatChangeKind::Block));
+                } else if before_state.segments != after_state.segments {
+                    format_only_changes.push((pos, len, FormatChangeKind::Character));
+                }
+                if before_state.list != after_state.list {
+                    format_only_changes.push((pos, len, FormatChangeKind::List));
+                }
             }
         } else {
             // Block exists in after but not in before — new block from undo/redo.
@@ -1176,16 +1200,25 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     if content_changed {
-        let position = earliest_pos.unwrap_or(0);
-        let chars_removed = old_end.saturating_sub(position);
-        let chars_added = new_end.saturating_sub(position);
-
         // Use a precise text-level diff for cursor adjustment so cursors land
         // at the actual edit point rather than the end of the affected block.
         let before_text = build_doc_text(before);
         let after_text = build_doc_text(&after);
         let (edit_offset, precise_removed, precise_added) =
             compute_text_edit(&before_text, &after_text);
+
+        // The affected blocks, widened to take in the edit (a block that
+        // appears or disappears takes a separator with it) and to leave the
+        // same untouched text after them on both sides.
+        let before_len = before_text.chars().count();
+        let after_len = after_text.chars().count();
+        let position = earliest_pos.unwrap_or(0).min(edit_offset);
+        let untouched = before_len
+            .saturating_sub(old_end.max(edit_offset + precise_removed))
+            .min(after_len.saturating_sub(new_end.max(edit_offset + precise_added)));
+        let chars_removed = before_len - untouched - position;
+        let chars_added = after_len - untouched - position;
+
         if precise_removed > 0 || precise_added > 0 {
             inner.adjust_cursors(edit_offset, precise_removed, precise_added);
         }
@@ -1199,11 +1232,11 @@ fn emit_undo_redo_change_events(inner: &mut TextDocumentInner, before: &[UndoBlo
     }
 
     // Emit FormatChanged for blocks where only formatting changed (not content).
-    for (position, length) in format_only_changes {
+    for (position, length, kind) in format_only_changes {
         inner.queue_event(DocumentEvent::FormatChanged {
             position,
             length,
-            kind: FormatChangeKind::Block,
+            kind,
         });
     }
 }
-- 
2.43.0


From 3ffa57d983bb02b806d4966b9d873e5ec610f932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 28/63] fix: replacing nothing pushed an undo step and dropped
 the redo history

---
 crates/document_search/src/document_search_controller.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/document_search/src/document_search_controller.rs b/crates/document_search/src/document_search_controller.rs
index b2373d4..4b06acb 100644
--- a/crates/document_search/src/document_search_controller.rs
+++ b/crates/document_search/src/document_search_controller.rs
@@ -67,7 +67,11 @@ pub fn replace_text(
     let uow_context = ReplaceTextUnitOfWorkFactory::new(db_context, event_hub);
     let mut uc = ReplaceTextUseCase::new(Box::new(uow_context));
     let return_dto = uc.execute(dto)?;
-    undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;
+    // Replacing nothing is not an edit: it neither can be undone nor
+    // invalidates what can be redone.
+    if return_dto.replacements_count > 0 {
+        undo_redo_manager.add_command_to_stack(Box::new(uc), stack_id)?;
+    }
     // Notify that the handling manifest has been loaded
     event_hub.send_event(Event {
         origin: Origin::DocumentSearch(ReplaceText),
-- 
2.43.0


From f8a1e0303faae0f9c6b1ab4894b8f44f21bceea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 29/63] fix: create_list announced only the first block

---
 crates/public_api/src/cursor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 7960074..ded3d1a 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1588,6 +1588,12 @@ impl TextCursor {
                 chars_added: 0,
                 blocks_affected: 1,
             });
+            // As in `add_block_to_list`, for all the blocks of the selection
+            inner.queue_event(DocumentEvent::FormatChanged {
+                position: 0,
+                length: 0,
+                kind: crate::flow::FormatChangeKind::List,
+            });
             self.queue_undo_redo_event(&mut inner)
         };
         crate::inner::dispatch_queued_events(queued);
-- 
2.43.0


From 0a529aa194b56eb2d4bccf74420bdacaa40e0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 30/63] fix: replacing across blocks and insert_list did not
 announce changed flow elements

---
 crates/public_api/src/cursor.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index ded3d1a..a89a4bf 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -438,7 +438,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 to_usize(result.blocks_affected),
-                false,
+                pos != anchor,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -491,7 +491,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                pos != anchor,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -646,7 +646,7 @@ impl TextCursor {
                 removed,
                 to_usize(result.new_position),
                 1,
-                false,
+                pos != anchor,
             )
         };
         crate::inner::dispatch_queued_events(queued);
@@ -1615,7 +1615,7 @@ impl TextCursor {
             // The item is a new block after the current one: nothing is
             // removed, and only the separator in front of it is added.
             let new_pos = to_usize(result.new_position);
-            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, false)
+            self.finish_edit_ext(&mut inner, new_pos.saturating_sub(1), 0, new_pos, 1, true)
         };
         crate::inner::dispatch_queued_events(queued);
         Ok(())
-- 
2.43.0


From 796fc01c5d383f7445707ff95fa364683d0fa7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 31/63] fix: copying a quotation copied its paragraphs twice

---
 .../document_inspection/src/use_cases/extract_fragment_uc.rs   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
index 10ab4c2..df68428 100644
--- a/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
+++ b/crates/document_inspection/src/use_cases/extract_fragment_uc.rs
@@ -103,6 +103,9 @@ impl ExtractFragmentUseCase {
         for frame_id in &frame_ids {
             collect_block_ids_recursive_ro(&*uow, frame_id, &mut all_block_ids)?;
         }
+        // Nested frames are listed by the document and by their parent
+        let mut seen: HashSet<EntityId> = HashSet::new();
+        all_block_ids.retain(|id| seen.insert(*id));
 
         let blocks_opt = uow.get_block_multi(&all_block_ids)?;
         let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
-- 
2.43.0


From f680878b73b963ffcb3ee1b8d472b829e42fbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:47 +0000
Subject: [PATCH 32/63] fix: fragment Markdown lost code blocks, list nesting
 and formats on code

---
 crates/public_api/src/fragment.rs | 155 ++++++++++++++++++------------
 1 file changed, 94 insertions(+), 61 deletions(-)

diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index ab364ff..ee7075e 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -2,7 +2,7 @@
 
 use crate::{InlineContent, ListStyle};
 use frontend::common::parser_tools::content_parser::{
-    ParsedElement, ParsedSpan, markdown_code_span,
+    ParsedElement, ParsedSpan, markdown_code_span, markdown_fence,
 };
 use frontend::common::parser_tools::fragment_schema::{
     FragmentBlock, FragmentData, FragmentElement, FragmentTable, FragmentTableCell,
@@ -244,8 +244,7 @@ impl DocumentFragment {
 
         // (rendered_text, is_list_item) — used for join logic
         let mut parts: Vec<(String, bool)> = Vec::new();
-        let mut prev_was_list = false;
-        let mut list_counter: u32 = 0;
+        let mut list_levels: Vec<ListLevel> = Vec::new();
 
         // Sort tables by block_insert_index for interleaving
         let mut sorted_tables: Vec<&FragmentTable> = fragment_data.tables.iter().collect();
@@ -258,52 +257,59 @@ impl DocumentFragment {
                 && sorted_tables[table_cursor].block_insert_index <= blk_idx
             {
                 parts.push((render_table_markdown(sorted_tables[table_cursor]), false));
-                prev_was_list = false;
-                list_counter = 0;
+                list_levels.clear();
                 table_cursor += 1;
             }
 
-            let inline_text = render_inline_markdown(&block.elements);
-            let is_list = block.list.is_some();
+            if block.is_code_block == Some(true) {
+                let text = &block.plain_text;
+                let fence = markdown_fence(text, 3);
+                let lang = block.code_language.as_deref().unwrap_or("");
+                parts.push((format!("{}{}\n{}\n{}", fence, lang, text, fence), false));
+                list_levels.clear();
+                continue;
+            }
 
-            let indent_prefix = match block.indent {
-                Some(n) if n > 0 => "  ".repeat(n as usize),
-                _ => String::new(),
-            };
+            let inline_text = render_inline_markdown(&block.elements);
 
             if let Some(level) = block.heading_level {
                 let n = level.clamp(1, 6) as usize;
                 let prefix = "#".repeat(n);
                 parts.push((format!("{} {}", prefix, inline_text), false));
-                prev_was_list = false;
-                list_counter = 0;
+                list_levels.clear();
             } else if let Some(ref list) = block.list {
-                let is_ordered = is_ordered_list_style(&list.style);
-                if !prev_was_list {
-                    list_counter = 0;
+                // As in the document export, what counts is how the indent
+                // compares to the items above, and a nested item starts past
+                // the marker of the item it is in.
+                while list_levels
+                    .last()
+                    .is_some_and(|level| level.indent > list.indent)
+                {
+                    list_levels.pop();
+                }
+                if list_levels
+                    .last()
+                    .is_none_or(|level| level.indent < list.indent)
+                {
+                    list_levels.push(ListLevel {
+                        indent: list.indent,
+                        counter: 0,
+                    });
                 }
-                if is_ordered {
-                    list_counter += 1;
+                let indent_prefix = "    ".repeat(list_levels.len() - 1);
+                if is_ordered_list_style(&list.style) {
+                    let level = list_levels.last_mut().expect("just pushed");
+                    level.counter += 1;
                     parts.push((
-                        format!("{}{}. {}", indent_prefix, list_counter, inline_text),
+                        format!("{}{}. {}", indent_prefix, level.counter, inline_text),
                         true,
                     ));
                 } else {
                     parts.push((format!("{}- {}", indent_prefix, inline_text), true));
                 }
-                prev_was_list = true;
             } else {
-                if indent_prefix.is_empty() {
-                    parts.push((inline_text, false));
-                } else {
-                    parts.push((format!("{}{}", indent_prefix, inline_text), false));
-                }
-                prev_was_list = false;
-                list_counter = 0;
-            }
-
-            if !is_list {
-                prev_was_list = false;
+                parts.push((inline_text, false));
+                list_levels.clear();
             }
         }
 
@@ -542,45 +548,72 @@ fn escape_markdown(s: &str) -> String {
     out
 }
 
+/// A nesting level of the list items being written.
+struct ListLevel {
+    indent: i64,
+    counter: u32,
+}
+
+/// Whether two elements have the same formatting as far as Markdown goes.
+fn same_markdown_format(a: &FragmentElement, b: &FragmentElement) -> bool {
+    let key = |e: &FragmentElement| {
+        (
+            e.fmt_font_family.as_deref() == Some("monospace"),
+            e.fmt_font_bold == Some(true),
+            e.fmt_font_italic == Some(true),
+            e.fmt_font_strikeout == Some(true),
+            e.fmt_is_anchor == Some(true),
+            e.fmt_anchor_href.clone(),
+        )
+    };
+    key(a) == key(b)
+}
+
 fn render_inline_markdown(elements: &[FragmentElement]) -> String {
-    let mut out = String::new();
+    // Elements that only differ in what Markdown cannot express are written
+    // as one: the delimiters of adjacent elements would run together.
+    let mut merged: Vec<FragmentElement> = Vec::with_capacity(elements.len());
     for elem in elements {
-        let raw_text = match &elem.content {
-            InlineContent::Text(t) => t.clone(),
-            InlineContent::Image { name, .. } => format!("![{}]({})", name, name),
-            InlineContent::Empty => String::new(),
-        };
+        if let (Some(last), InlineContent::Text(t)) = (merged.last_mut(), &elem.content)
+            && same_markdown_format(last, elem)
+            && let InlineContent::Text(text) = &mut last.content
+        {
+            text.push_str(t);
+            continue;
+        }
+        merged.push(elem.clone());
+    }
 
-        let is_monospace = elem
-            .fmt_font_family
-            .as_deref()
-            .is_some_and(|f| f == "monospace");
+    let mut out = String::new();
+    for elem in &merged {
+        let is_monospace = elem.fmt_font_family.as_deref() == Some("monospace");
         let is_bold = elem.fmt_font_bold.unwrap_or(false);
         let is_italic = elem.fmt_font_italic.unwrap_or(false);
         let is_strikeout = elem.fmt_font_strikeout.unwrap_or(false);
         let is_anchor = elem.fmt_is_anchor.unwrap_or(false);
 
-        if is_monospace {
-            out.push_str(&markdown_code_span(&raw_text));
-        } else {
-            let mut text = escape_markdown(&raw_text);
-            if is_bold && is_italic {
-                text = format!("***{}***", text);
-            } else if is_bold {
-                text = format!("**{}**", text);
-            } else if is_italic {
-                text = format!("*{}*", text);
-            }
-            if is_strikeout {
-                text = format!("~~{}~~", text);
-            }
-            if is_anchor {
-                let href = elem.fmt_anchor_href.as_deref().unwrap_or("");
-                out.push_str(&format!("[{}]({})", text, href));
-            } else {
-                out.push_str(&text);
-            }
+        let mut text = match &elem.content {
+            InlineContent::Text(t) if t.is_empty() => continue,
+            InlineContent::Text(t) if is_monospace => markdown_code_span(t),
+            InlineContent::Text(t) => escape_markdown(t),
+            InlineContent::Image { name, .. } => format!("![{}]({})", name, name),
+            InlineContent::Empty => continue,
+        };
+        if is_strikeout {
+            text = format!("~~{}~~", text);
+        }
+        if is_bold && is_italic {
+            text = format!("***{}***", text);
+        } else if is_bold {
+            text = format!("**{}**", text);
+        } else if is_italic {
+            text = format!("*{}*", text);
+        }
+        if is_anchor {
+            let href = elem.fmt_anchor_href.as_deref().unwrap_or("");
+            text = format!("[{}]({})", text, href);
         }
+        out.push_str(&text);
     }
     out
 }
-- 
2.43.0


From e3ab0c49557699876d8cf41e19357de6f4745a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 33/63] fix: pasted blocks were left without highlighting

---
 crates/public_api/src/highlight.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/highlight.rs b/crates/public_api/src/highlight.rs
index ac3b79a..7ded608 100644
--- a/crates/public_api/src/highlight.rs
+++ b/crates/public_api/src/highlight.rs
@@ -540,7 +540,7 @@ impl TextDocumentInner {
                 .unwrap()
                 .blocks
                 .get(&bid)
-                .map_or(-1, |d| d.state);
+                .map(|d| d.state);
 
             let mut ctx = HighlightContext::new(bid, previous_state, user_data);
             highlighter.highlight_block(text, &mut ctx);
@@ -557,8 +557,8 @@ impl TextDocumentInner {
             );
 
             // If we are past the initial block and the state didn't change,
-            // stop cascading.
-            if i > start_idx && state == old_state {
+            // stop cascading. A block that was never highlighted is new.
+            if i > start_idx && Some(state) == old_state {
                 break;
             }
         }
-- 
2.43.0


From 62f20e0eac6dc730c9c1a1bce2c0d6576654ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 34/63] fix: resource looked up the first of several resources
 of a name, or a stale one after undo and redo

---
 crates/public_api/src/document.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index d91a823..224a16c 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -798,9 +798,12 @@ impl TextDocument {
             inner.resource_cache.remove(name);
         }
 
-        // Slow path: linear scan, then populate cache for the match.
-        let all = resource_commands::get_all_resource(&inner.ctx)?;
-        for r in &all {
+        // Slow path: scan from the latest, then populate cache for the match.
+        let Some(doc) = document_commands::get_document(&inner.ctx, &inner.document_id)? else {
+            return Ok(None);
+        };
+        let all = resource_commands::get_resource_multi(&inner.ctx, &doc.resources)?;
+        for r in all.iter().rev().flatten() {
             if r.name == name {
                 inner.resource_cache.insert(name.to_string(), r.id);
                 let bytes = BASE64.decode(&r.data_base64)?;
@@ -819,6 +822,7 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::undo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
@@ -840,6 +844,7 @@ impl TextDocument {
             let before = capture_block_state(&inner);
             let result = undo_redo_commands::redo(&inner.ctx, Some(inner.stack_id));
             inner.invalidate_text_cache();
+            inner.resource_cache.clear();
             result?;
             inner.rehighlight_all();
             emit_undo_redo_change_events(&mut inner, &before);
-- 
2.43.0


From efd2d2704a3190dc52c4bfa3b59904e13d7daf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 35/63] fix: changes of properties and resources, edit blocks
 and clear_undo_redo did not announce the undo state

---
 crates/public_api/src/cursor.rs   |  8 ++-
 crates/public_api/src/document.rs | 99 +++++++++++++++++++------------
 crates/public_api/src/inner.rs    |  9 +++
 3 files changed, 77 insertions(+), 39 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index a89a4bf..22476eb 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -1901,8 +1901,12 @@ impl TextCursor {
 
     /// End the current edit block.
     pub fn end_edit_block(&self) {
-        let inner = self.doc.lock();
-        undo_redo_commands::end_composite(&inner.ctx);
+        let queued = {
+            let mut inner = self.doc.lock();
+            undo_redo_commands::end_composite(&inner.ctx);
+            self.queue_undo_redo_event(&mut inner)
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     /// Alias for [`begin_edit_block`](Self::begin_edit_block).
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 224a16c..0a0f8d8 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -761,24 +761,29 @@ impl TextDocument {
         mime_type: &str,
         data: &[u8],
     ) -> Result<()> {
-        let mut inner = self.inner.lock();
-        let dto = frontend::resource::dtos::CreateResourceDto {
-            created_at: Default::default(),
-            updated_at: Default::default(),
-            resource_type,
-            name: name.into(),
-            url: String::new(),
-            mime_type: mime_type.into(),
-            data_base64: BASE64.encode(data),
+        let queued = {
+            let mut inner = self.inner.lock();
+            let dto = frontend::resource::dtos::CreateResourceDto {
+                created_at: Default::default(),
+                updated_at: Default::default(),
+                resource_type,
+                name: name.into(),
+                url: String::new(),
+                mime_type: mime_type.into(),
+                data_base64: BASE64.encode(data),
+            };
+            let created = resource_commands::create_resource(
+                &inner.ctx,
+                Some(inner.stack_id),
+                &dto,
+                inner.document_id,
+                -1,
+            )?;
+            inner.resource_cache.insert(name.to_string(), created.id);
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
         };
-        let created = resource_commands::create_resource(
-            &inner.ctx,
-            Some(inner.stack_id),
-            &dto,
-            inner.document_id,
-            -1,
-        )?;
-        inner.resource_cache.insert(name.to_string(), created.id);
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -873,8 +878,13 @@ impl TextDocument {
 
     /// Clear all undo/redo history.
     pub fn clear_undo_redo(&self) {
-        let inner = self.inner.lock();
-        undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+        let queued = {
+            let mut inner = self.inner.lock();
+            undo_redo_commands::clear_stack(&inner.ctx, inner.stack_id);
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
     }
 
     // ── Modified state ───────────────────────────────────────
@@ -908,12 +918,17 @@ impl TextDocument {
 
     /// Set the document title.
     pub fn set_title(&self, title: &str) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.title = title.into();
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.title = title.into();
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -929,12 +944,17 @@ impl TextDocument {
 
     /// Set the text direction.
     pub fn set_text_direction(&self, direction: TextDirection) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.text_direction = direction;
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.text_direction = direction;
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
@@ -950,12 +970,17 @@ impl TextDocument {
 
     /// Set the default wrap mode.
     pub fn set_default_wrap_mode(&self, mode: WrapMode) -> Result<()> {
-        let inner = self.inner.lock();
-        let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
-            .ok_or_else(|| anyhow::anyhow!("document not found"))?;
-        let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
-        update.default_wrap_mode = mode;
-        document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+        let queued = {
+            let mut inner = self.inner.lock();
+            let doc = document_commands::get_document(&inner.ctx, &inner.document_id)?
+                .ok_or_else(|| anyhow::anyhow!("document not found"))?;
+            let mut update: frontend::document::dtos::UpdateDocumentDto = doc.into();
+            update.default_wrap_mode = mode;
+            document_commands::update_document(&inner.ctx, Some(inner.stack_id), &update)?;
+            inner.queue_undo_redo_changed();
+            inner.take_queued_events()
+        };
+        crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
 
diff --git a/crates/public_api/src/inner.rs b/crates/public_api/src/inner.rs
index 669e2dd..ce65687 100644
--- a/crates/public_api/src/inner.rs
+++ b/crates/public_api/src/inner.rs
@@ -149,6 +149,15 @@ impl TextDocumentInner {
         self.pending_events.push(event);
     }
 
+    /// Announce whether undo and redo are possible now.
+    pub fn queue_undo_redo_changed(&mut self) {
+        let can_undo =
+            frontend::commands::undo_redo_commands::can_undo(&self.ctx, Some(self.stack_id));
+        let can_redo =
+            frontend::commands::undo_redo_commands::can_redo(&self.ctx, Some(self.stack_id));
+        self.queue_event(DocumentEvent::UndoRedoChanged { can_undo, can_redo });
+    }
+
     /// Set or clear the modified flag, announcing a change.
     pub fn set_modified(&mut self, modified: bool) {
         if self.modified != modified {
-- 
2.43.0


From 49308728781f001cf781f8ddba4b21f834af9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 36/63] fix: the replace command wrote plain text into LaTeX
 and DOCX files

---
 crates/cli/src/main.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/cli/src/main.rs b/crates/cli/src/main.rs
index 50236f3..64c3367 100644
--- a/crates/cli/src/main.rs
+++ b/crates/cli/src/main.rs
@@ -155,10 +155,14 @@ fn format_name(fmt: FileFormat) -> &'static str {
     }
 }
 
-// ── Command handlers ────────────────────────────────────────────
-
-fn cmd_convert(input: &str, output: &str, document_class: &str, preamble: bool) -> Result<()> {
-    let doc = load_document(input)?;
+// ── Document saving ─────────────────────────────────────────────
+
+fn write_document(
+    doc: &TextDocument,
+    output: &str,
+    document_class: &str,
+    preamble: bool,
+) -> Result<FileFormat> {
     let out_format = detect_format(output);
 
     match out_format {
@@ -183,6 +187,15 @@ fn cmd_convert(input: &str, output: &str, document_class: &str, preamble: bool)
         }
     }
 
+    Ok(out_format)
+}
+
+// ── Command handlers ────────────────────────────────────────────
+
+fn cmd_convert(input: &str, output: &str, document_class: &str, preamble: bool) -> Result<()> {
+    let doc = load_document(input)?;
+    let out_format = write_document(&doc, output, document_class, preamble)?;
+
     eprintln!("{} -> {} ({})", input, output, format_name(out_format));
     Ok(())
 }
@@ -260,14 +273,7 @@ fn cmd_replace(
     }
 
     let out_path = output.unwrap_or(file);
-    let out_format = detect_format(out_path);
-    let content = match out_format {
-        FileFormat::PlainText => doc.to_plain_text()?,
-        FileFormat::Markdown => doc.to_markdown()?,
-        FileFormat::Html => doc.to_html()?,
-        _ => doc.to_plain_text()?,
-    };
-    std::fs::write(out_path, content)?;
+    write_document(&doc, out_path, "article", false)?;
     eprintln!("{count} replacement(s), written to {out_path}");
     Ok(())
 }
-- 
2.43.0


From 4366578b528da2a354183104fa03a56687966cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 37/63] fix: inserting an empty formatted text aborted on an
 empty format run

---
 .../document_editing/src/use_cases/insert_formatted_text_uc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
index 05c568a..ed56925 100644
--- a/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_formatted_text_uc.rs
@@ -165,6 +165,9 @@ fn insert_formatted_at(
     let block_text = block_content_via_store(block, &store);
     let byte_offset = logical_offset_to_byte(&block_text, &images_before, char_offset);
     let inserted_byte_len = dto.text.len() as u32;
+    if inserted_byte_len == 0 {
+        return Ok((byte_offset, 0));
+    }
 
     let mut new_plain = block_text.clone();
     new_plain.insert_str(byte_offset as usize, &dto.text);
-- 
2.43.0


From 1d8f9ad82881598446a21b4dae648b78d2c5960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 38/63] fix: positions and lengths beyond i64::MAX overflowed

---
 crates/public_api/src/convert.rs  | 4 ++--
 crates/public_api/src/document.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/public_api/src/convert.rs b/crates/public_api/src/convert.rs
index 1e8a615..3fc6763 100644
--- a/crates/public_api/src/convert.rs
+++ b/crates/public_api/src/convert.rs
@@ -10,9 +10,9 @@ use crate::{
 
 // ── Position conversion ─────────────────────────────────────────
 
+/// Values beyond `i64::MAX` are far beyond any document: they saturate.
 pub fn to_i64(v: usize) -> i64 {
-    debug_assert!(v <= i64::MAX as usize, "position overflow: {v}");
-    v as i64
+    i64::try_from(v).unwrap_or(i64::MAX)
 }
 
 pub fn to_usize(v: i64) -> usize {
diff --git a/crates/public_api/src/document.rs b/crates/public_api/src/document.rs
index 0a0f8d8..b33792f 100644
--- a/crates/public_api/src/document.rs
+++ b/crates/public_api/src/document.rs
@@ -653,7 +653,7 @@ impl TextDocument {
         sorted.sort_by_key(|b| b.document_position);
 
         let range_start = position;
-        let range_end = position + length;
+        let range_end = position.saturating_add(length);
         sorted
             .iter()
             .filter(|b| {
-- 
2.43.0


From f46e604fb4a940d50c9fff96c6f0deefe53fd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 39/63] fix: moving back from a cursor far beyond the end did
 not come to an end

---
 crates/public_api/src/cursor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index 22476eb..d5adc46 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2014,7 +2014,10 @@ impl TextCursor {
                 cur
             }
             MoveOperation::PreviousCharacter | MoveOperation::Left => {
-                let mut cur = pos;
+                // A cursor may sit beyond the end of the document: one step
+                // back takes it to the end.
+                let end = self.resolve_move(MoveOperation::End, 1);
+                let mut cur = pos.min(end + 1);
                 for _ in 0..n {
                     let prev = self.prev_grapheme_boundary(cur);
                     if prev == cur {
@@ -2096,6 +2099,9 @@ impl TextCursor {
                 }
             }
             MoveOperation::PreviousWord | MoveOperation::StartOfWord | MoveOperation::WordLeft => {
+                // A cursor may sit beyond the end of the document: there are no
+                // words to look for out there.
+                let pos = pos.min(self.resolve_move(MoveOperation::End, 1));
                 let (start, _) = self.find_word_boundaries(pos);
                 if start < pos {
                     start
-- 
2.43.0


From 20e6128556e35cd269f9d59d0f0c67590107bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 40/63] fix: deleting beyond the end of the document made the
 character count too small

---
 crates/document_editing/src/use_cases/delete_text_uc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 57fa641..6e24664 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -594,6 +594,10 @@ fn execute_delete(
 
     let (end_block, end_block_idx, end_offset) =
         find_block_at_position(&blocks, end, &uow.store())?;
+    // A position beyond the document was resolved to the end of its last
+    // block: count what is really deleted.
+    let start = start_block.document_position + start_offset;
+    let end = end_block.document_position + end_offset;
     let delete_len = end - start;
 
     if start_block_idx == end_block_idx {
-- 
2.43.0


From b53f198082f0fb3f39cd547f8af6d9b0bd0f3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:57 +0000
Subject: [PATCH 41/63] fix: deeply nested Markdown block quotes overflowed the
 stack

---
 crates/common/src/parser_tools/content_parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index a2959a6..077bcc3 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -473,9 +473,19 @@ pub fn parse_markdown(markdown: &str) -> Vec<ParsedElement> {
         }));
     }
 
+    // Nested quotes become nested frames, which are walked recursively.
+    for element in &mut elements {
+        if let ParsedElement::Block(block) = element {
+            block.blockquote_depth = block.blockquote_depth.min(MAX_BLOCKQUOTE_DEPTH);
+        }
+    }
+
     elements
 }
 
+/// Deepest block quote nesting read from Markdown; deeper quotes are flattened.
+const MAX_BLOCKQUOTE_DEPTH: u32 = 256;
+
 /// A run of backticks longer than any in `text` (at least `min`).
 pub fn markdown_fence(text: &str, min: usize) -> String {
     let longest = text
-- 
2.43.0


From eeee42df163c5a3716906a07aac17c3c25d7c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:07 +0000
Subject: [PATCH 42/63] fix: inserting a row or column across a merged cell put
 new cells under it

---
 .../src/use_cases/insert_table_column_uc.rs        | 14 ++++++++++++--
 .../src/use_cases/insert_table_row_uc.rs           | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index dc92612..c40458d 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -117,6 +117,16 @@ fn execute_insert_table_column(
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.rows as usize);
     for r in 0..table.rows {
+        // A merged cell that spans across the new column already covers this position
+        let covered = cells.iter().any(|cell| {
+            cell.column < dto.column_index
+                && cell.column + cell.column_span > dto.column_index
+                && cell.row <= r
+                && cell.row + cell.row_span > r
+        });
+        if covered {
+            continue;
+        }
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -181,7 +191,7 @@ fn execute_insert_table_column(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.rows;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -209,7 +219,7 @@ fn execute_insert_table_column(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.rows;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index 88a858c..d49dc5b 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -117,6 +117,16 @@ fn execute_insert_table_row(
     // graph is in place.
     let mut new_cell_blocks: Vec<Block> = Vec::with_capacity(table.columns as usize);
     for c in 0..table.columns {
+        // A merged cell that spans across the new row already covers this position
+        let covered = cells.iter().any(|cell| {
+            cell.row < dto.row_index
+                && cell.row + cell.row_span > dto.row_index
+                && cell.column <= c
+                && cell.column + cell.column_span > c
+        });
+        if covered {
+            continue;
+        }
         let (cell_frame_id, created_block) = create_cell_frame(&mut *uow, doc_id, now)?;
         new_cell_blocks.push(created_block);
 
@@ -179,7 +189,7 @@ fn execute_insert_table_row(
     }
 
     // Shift non-table blocks after the table
-    let added_cells = table.columns;
+    let added_cells = new_cell_blocks.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> = cell_frame_ids.into_iter().collect();
     let mut shifted_blocks: Vec<Block> = Vec::new();
@@ -207,7 +217,7 @@ fn execute_insert_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count += table.columns;
+    updated_doc.block_count += added_cells;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From 8f6b5189534bd4f18556796790278146525acb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:07 +0000
Subject: [PATCH 43/63] fix: inserting a column into a table without column
 widths gave it a single width

---
 .../src/use_cases/insert_table_column_uc.rs                | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index c40458d..698c47b 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -150,8 +150,11 @@ fn execute_insert_table_column(
     // Update table column count and column_widths
     let mut updated_table = table.clone();
     updated_table.columns += 1;
-    let insert_idx = (dto.column_index as usize).min(updated_table.column_widths.len());
-    updated_table.column_widths.insert(insert_idx, 0);
+    // Imported tables have no column widths at all
+    if !updated_table.column_widths.is_empty() {
+        let insert_idx = (dto.column_index as usize).min(updated_table.column_widths.len());
+        updated_table.column_widths.insert(insert_idx, 0);
+    }
     updated_table.updated_at = now;
     uow.update_table(&updated_table)?;
 
-- 
2.43.0


From 00c9aeb6eb252dcd7f64493b5cc3eda0a8645fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:07 +0000
Subject: [PATCH 44/63] fix: merging cells accepted a range that cuts a merged
 cell starting outside it

---
 .../src/use_cases/merge_table_cells_uc.rs             | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 84d5215..cc1a268 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -118,9 +118,14 @@ fn execute_merge_table_cells(
         })
         .collect();
 
-    // Validate: no cell in the range already has row_span > 1 or column_span > 1
-    for cell in &cells_in_range {
-        if cell.row_span > 1 || cell.column_span > 1 {
+    // Validate: no cell that reaches into the range already has row_span > 1
+    // or column_span > 1, wherever it starts
+    for cell in &cells {
+        let reaches_range = cell.row <= dto.end_row
+            && cell.row + cell.row_span > dto.start_row
+            && cell.column <= dto.end_column
+            && cell.column + cell.column_span > dto.start_column;
+        if reaches_range && (cell.row_span > 1 || cell.column_span > 1) {
             return Err(anyhow!(
                 "Cell at row={}, column={} already has span (row_span={}, column_span={}). Cannot merge already-merged cells.",
                 cell.row,
-- 
2.43.0


From 996416b169c49a3d38637ab40bf82076b0479997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 45/63] fix: removing table rows, columns or cells kept their
 text in the character count

---
 .../src/use_cases/editing_helpers.rs             | 16 ++++++++++++++++
 .../src/use_cases/merge_table_cells_uc.rs        |  7 +++++--
 .../src/use_cases/remove_table_column_uc.rs      |  7 +++++--
 .../src/use_cases/remove_table_row_uc.rs         |  7 +++++--
 .../src/use_cases/remove_table_uc.rs             |  4 ++++
 5 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index 7066dee..b713401 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -151,6 +151,22 @@ pub fn compute_table_base_pos(
     Ok(base_pos.unwrap_or(0))
 }
 
+/// Total characters held by the blocks of the given cell frames.
+pub fn cell_frames_char_count(
+    uow: &dyn CellBlockReader,
+    cell_frame_ids: &[EntityId],
+    store: &Store,
+) -> Result<i64> {
+    let mut chars = 0;
+    for cf_id in cell_frame_ids {
+        let block_ids = uow.cbr_get_frame_relationship(cf_id, &FrameRelationshipField::Blocks)?;
+        for block in uow.cbr_get_block_multi(&block_ids)?.iter().flatten() {
+            chars += block_char_length(block, store);
+        }
+    }
+    Ok(chars)
+}
+
 /// Returns true for punctuation characters that should break undo merge groups.
 pub fn is_word_boundary_punct(c: char) -> bool {
     matches!(
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index cc1a268..30e3c29 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, cell_frames_char_count, compute_table_base_pos, impl_cell_block_reader,
+    reassign_cell_block_positions,
 };
 use crate::MergeTableCellsDto;
 use crate::MergeTableCellsResultDto;
@@ -173,6 +174,7 @@ fn execute_merge_table_cells(
         .iter()
         .filter_map(|c| c.cell_frame)
         .collect();
+    let removed_chars = cell_frames_char_count(&*uow, &remove_frame_ids, &uow.store())?;
     let mut removed_cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &remove_frame_ids {
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
@@ -249,7 +251,8 @@ fn execute_merge_table_cells(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cell_count;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count -= removed_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_column_uc.rs b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
index 5651273..4099b67 100644
--- a/crates/document_editing/src/use_cases/remove_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, cell_frames_char_count, compute_table_base_pos, impl_cell_block_reader,
+    reassign_cell_block_positions,
 };
 use crate::RemoveTableColumnDto;
 use crate::RemoveTableColumnResultDto;
@@ -139,6 +140,7 @@ fn execute_remove_table_column(
         .iter()
         .filter_map(|c| c.cell_frame)
         .collect();
+    let removed_chars = cell_frames_char_count(&*uow, &column_cell_frame_ids, &uow.store())?;
     let mut removed_cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &column_cell_frame_ids {
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
@@ -226,7 +228,8 @@ fn execute_remove_table_column(
 
     // Update Document.block_count
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count -= removed_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_row_uc.rs b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
index 6852055..074457e 100644
--- a/crates/document_editing/src/use_cases/remove_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
@@ -1,5 +1,6 @@
 use super::editing_helpers::{
-    CellBlockReader, compute_table_base_pos, impl_cell_block_reader, reassign_cell_block_positions,
+    CellBlockReader, cell_frames_char_count, compute_table_base_pos, impl_cell_block_reader,
+    reassign_cell_block_positions,
 };
 use crate::RemoveTableRowDto;
 use crate::RemoveTableRowResultDto;
@@ -137,6 +138,7 @@ fn execute_remove_table_row(
         .iter()
         .filter_map(|c| c.cell_frame)
         .collect();
+    let removed_chars = cell_frames_char_count(&*uow, &row_cell_frame_ids, &uow.store())?;
     let mut removed_cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &row_cell_frame_ids {
         let bids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
@@ -219,7 +221,8 @@ fn execute_remove_table_row(
 
     // Update Document stats
     let mut updated_doc = document.clone();
-    updated_doc.block_count -= removed_cells;
+    updated_doc.block_count -= removed_cell_block_ids.len() as i64;
+    updated_doc.character_count -= removed_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index 0abf111..d4033df 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -83,6 +83,7 @@ fn execute_remove_table(
     // global rope before the entity cascade below.
     let mut total_cell_blocks: i64 = 0;
     let mut min_cell_position: Option<i64> = None;
+    let mut total_cell_chars: i64 = 0;
     let mut cell_block_ids: Vec<EntityId> = Vec::new();
     for fid in &cell_frame_ids {
         let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
@@ -90,6 +91,8 @@ fn execute_remove_table(
             let blocks_opt = uow.get_block_multi(&block_ids)?;
             for block in blocks_opt.into_iter().flatten() {
                 total_cell_blocks += 1;
+                total_cell_chars +=
+                    common::database::rope_helpers::block_char_length(&block, &uow.store());
                 cell_block_ids.push(block.id);
                 match min_cell_position {
                     None => min_cell_position = Some(block.document_position),
@@ -182,6 +185,7 @@ fn execute_remove_table(
     // Update Document stats
     let mut updated_doc = document.clone();
     updated_doc.block_count -= total_cell_blocks;
+    updated_doc.character_count -= total_cell_chars;
     updated_doc.updated_at = now;
     uow.update_document(&updated_doc)?;
 
-- 
2.43.0


From 48e696ccef185d71326e4536cb8718758aad906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 46/63] fix: Enter inside a table cell put the new paragraph
 outside the table

---
 .../src/use_cases/insert_block_uc.rs          | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_block_uc.rs b/crates/document_editing/src/use_cases/insert_block_uc.rs
index a5c0266..7ea9622 100644
--- a/crates/document_editing/src/use_cases/insert_block_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_block_uc.rs
@@ -3,7 +3,9 @@ use crate::InsertBlockDto;
 use crate::InsertBlockResultDto;
 use anyhow::{Result, anyhow};
 use common::database::CommandUnitOfWork;
-use common::database::rope_helpers::{block_content_via_store, rope_split_block};
+use common::database::rope_helpers::{
+    block_char_length, block_content_via_store, rope_split_block,
+};
 use common::direct_access::document::document_repository::DocumentRelationshipField;
 use common::direct_access::frame::frame_repository::FrameRelationshipField;
 use common::direct_access::root::root_repository::RootRelationshipField;
@@ -88,13 +90,20 @@ fn execute_insert_block(
     )?;
 
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
-    let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+    let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+
+    // Positions follow the flow order; the stored ones can be stale.
+    let store = uow.store();
+    let mut running: i64 = 0;
+    for b in blocks.iter_mut() {
+        b.document_position = running;
+        running += block_char_length(b, &store) + 1;
+    }
 
     let (current_block, block_idx, offset) =
         find_block_at_position(&blocks, position, &uow.store())?;
 
     // Split byte offset inside current_block.plain_text accounting for images.
-    let store = uow.store();
     let current_runs = store
         .format_runs
         .read()
@@ -195,7 +204,18 @@ fn execute_insert_block(
         }
         Ok(None)
     }
-    let owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?.unwrap_or(frame_id);
+    let mut owner_frame_id = find_owner_frame(&**uow, &frame_id, current_block.id)?;
+    if owner_frame_id.is_none() {
+        // Cell frames hang off their table, not off a child_order.
+        for fid in &frame_ids {
+            let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+            if block_ids.contains(&current_block.id) {
+                owner_frame_id = Some(*fid);
+                break;
+            }
+        }
+    }
+    let owner_frame_id = owner_frame_id.unwrap_or(frame_id);
 
     let created_block = uow.create_block(&new_block, owner_frame_id, -1)?;
 
-- 
2.43.0


From 131252676717e22bd4656b083371cbcf4736f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 47/63] fix: deleting inside a table cell emptied the cell and
 damaged the text after the table

---
 .../src/use_cases/delete_text_uc.rs           | 68 ++++++++++++-------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/crates/document_editing/src/use_cases/delete_text_uc.rs b/crates/document_editing/src/use_cases/delete_text_uc.rs
index 6e24664..918e5fe 100644
--- a/crates/document_editing/src/use_cases/delete_text_uc.rs
+++ b/crates/document_editing/src/use_cases/delete_text_uc.rs
@@ -181,19 +181,56 @@ fn execute_delete(
     let blocks_opt = uow.get_block_multi(&all_block_ids)?;
     let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
 
+    let table_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Tables)?;
+    let mut block_to_cell_frame: std::collections::HashMap<EntityId, EntityId> =
+        std::collections::HashMap::new();
+    for &tid in &table_ids {
+        let cell_ids = uow.get_table_relationship(&tid, &TableRelationshipField::Cells)?;
+        let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
+        for cell in cells_opt.into_iter().flatten() {
+            if let Some(cf_id) = cell.cell_frame {
+                let blk_ids =
+                    uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?;
+                for bid in blk_ids {
+                    block_to_cell_frame.insert(bid, cf_id);
+                }
+            }
+        }
+    }
+
+    // The flow-order extent of the selection: a range that stays within one
+    // cell, or within paragraphs outside every table, is resolved in flow
+    // order, which is the order positions are handed out in.
+    let stays_in_one_container = {
+        let mut pos: i64 = 0;
+        let mut first: Option<Option<EntityId>> = None;
+        let mut same = true;
+        for b in &blocks {
+            let block_end = pos + block_char_length(b, &store);
+            if block_end >= start && pos <= end {
+                let cell = block_to_cell_frame.get(&b.id).copied();
+                same &= *first.get_or_insert(cell) == cell;
+            }
+            pos = block_end + 1;
+        }
+        same
+    };
+
     // Refresh stored block positions from child_order + text_length, since
-    // insert_text's fast path leaves them stale. Cell-frame blocks remain
-    // in their cell-local position space.
+    // insert_text's fast path leaves them stale. In a selection that crosses
+    // cells, cell-frame blocks remain in their cell-local position space.
     let root_frame = uow
         .get_frame(&frame_id)?
         .ok_or_else(|| anyhow!("Root frame not found"))?;
     let mut running: i64 = 0;
     let mut blocks_to_refresh: Vec<Block> = Vec::new();
-    for &entry in &root_frame.child_order {
-        if entry <= 0 {
-            continue;
-        }
-        let id = entry as EntityId;
+    let refresh_ids: Vec<EntityId> = if stays_in_one_container {
+        all_block_ids.clone()
+    } else {
+        let own = root_frame.child_order.iter().filter(|&&entry| entry > 0);
+        own.map(|&entry| entry as EntityId).collect()
+    };
+    for id in refresh_ids {
         if let Some(b) = blocks.iter_mut().find(|b| b.id == id) {
             if b.document_position != running {
                 b.document_position = running;
@@ -211,23 +248,6 @@ fn execute_delete(
         find_block_at_position(&blocks, start, &uow.store())?;
 
     // ── Cell selection safety: detect cross-cell deletion ──────────
-    let table_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Tables)?;
-    let mut block_to_cell_frame: std::collections::HashMap<EntityId, EntityId> =
-        std::collections::HashMap::new();
-    for &tid in &table_ids {
-        let cell_ids = uow.get_table_relationship(&tid, &TableRelationshipField::Cells)?;
-        let cells_opt = uow.get_table_cell_multi(&cell_ids)?;
-        for cell in cells_opt.into_iter().flatten() {
-            if let Some(cf_id) = cell.cell_frame {
-                let blk_ids =
-                    uow.get_frame_relationship(&cf_id, &FrameRelationshipField::Blocks)?;
-                for bid in blk_ids {
-                    block_to_cell_frame.insert(bid, cf_id);
-                }
-            }
-        }
-    }
-
     let is_cross_cell = {
         let mut first_cell: Option<Option<EntityId>> = None;
         let mut cross = false;
-- 
2.43.0


From cd005654942fcd3c40963520ab814bdf96028965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 48/63] fix: undoing typing left the paragraphs of a table cell
 in the wrong order

---
 .../src/use_cases/insert_text_uc.rs           | 72 ++++++++++++-------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/crates/document_editing/src/use_cases/insert_text_uc.rs b/crates/document_editing/src/use_cases/insert_text_uc.rs
index 8b04eea..be1cd4e 100644
--- a/crates/document_editing/src/use_cases/insert_text_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_text_uc.rs
@@ -384,30 +384,7 @@ fn execute_insert_simple(
     // walk here is unnecessary and dominated per-keystroke cost on
     // /large/1000para benches. The catch-up logic in `insert_table_uc`
     // brings stored values back into sync if a table is later added.
-    if !common::database::rope_helpers::rope_positions_match_flow(&store) {
-        let frame_ids =
-            uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
-        let mut all_blocks: Vec<Block> = Vec::new();
-        for fid in &frame_ids {
-            let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
-            if !block_ids.is_empty() {
-                let blocks_opt = uow.get_block_multi(&block_ids)?;
-                all_blocks.extend(blocks_opt.into_iter().flatten());
-            }
-        }
-        let mut blocks_to_update: Vec<Block> = Vec::new();
-        for b in all_blocks {
-            if b.id != block.id && b.document_position > block.document_position {
-                let mut ub = b;
-                ub.document_position += inserted_char_len;
-                ub.updated_at = chrono::Utc::now();
-                blocks_to_update.push(ub);
-            }
-        }
-        if !blocks_to_update.is_empty() {
-            uow.update_block_multi(&blocks_to_update)?;
-        }
-    }
+    shift_stored_positions_after(uow, &doc_id, &block, inserted_char_len)?;
 
     let mut updated_doc = document.clone();
     updated_doc.character_count += inserted_char_len;
@@ -434,6 +411,42 @@ fn execute_insert_simple(
     ))
 }
 
+/// Shift the stored position of every block after `block` by `delta`, in the
+/// documents whose stored positions are maintained (tables or sub-frames).
+fn shift_stored_positions_after(
+    uow: &mut Box<dyn InsertTextUnitOfWorkTrait>,
+    doc_id: &EntityId,
+    block: &Block,
+    delta: i64,
+) -> Result<()> {
+    let store = uow.store();
+    if !common::database::rope_helpers::rope_positions_match_flow(&store) {
+        let frame_ids =
+            uow.get_document_relationship(doc_id, &DocumentRelationshipField::Frames)?;
+        let mut all_blocks: Vec<Block> = Vec::new();
+        for fid in &frame_ids {
+            let block_ids = uow.get_frame_relationship(fid, &FrameRelationshipField::Blocks)?;
+            if !block_ids.is_empty() {
+                let blocks_opt = uow.get_block_multi(&block_ids)?;
+                all_blocks.extend(blocks_opt.into_iter().flatten());
+            }
+        }
+        let mut blocks_to_update: Vec<Block> = Vec::new();
+        for b in all_blocks {
+            if b.id != block.id && b.document_position > block.document_position {
+                let mut ub = b;
+                ub.document_position += delta;
+                ub.updated_at = chrono::Utc::now();
+                blocks_to_update.push(ub);
+            }
+        }
+        if !blocks_to_update.is_empty() {
+            uow.update_block_multi(&blocks_to_update)?;
+        }
+    }
+    Ok(())
+}
+
 /// Slow-path block lookup for tabled documents. Walks the ordered
 /// block list, computing positions sequentially. Only used when the
 /// O(log n) fast path `find_block_at_char_position` returns `None`
@@ -547,14 +560,23 @@ impl UndoRedoCommand for InsertTextUseCase {
                     .unwrap()
                     .insert(data.block_id, data.original_block_images.clone());
 
-                // Revert the rope mutation done by the forward path.
+                // Revert the rope mutation done by the forward path, and the
+                // shift of the stored positions where they are maintained.
                 if data.inserted_byte_len > 0 {
+                    let len_before = block_char_length(&data.original_block, &store);
                     rope_delete_in_block(
                         &store,
                         data.block_id,
                         data.inserted_byte_offset,
                         data.inserted_byte_offset + data.inserted_byte_len,
                     );
+                    let removed = len_before - block_char_length(&data.original_block, &store);
+                    shift_stored_positions_after(
+                        &mut uow,
+                        &data.doc_id,
+                        &data.original_block,
+                        -removed,
+                    )?;
                 }
 
                 let mut doc = uow
-- 
2.43.0


From 315fa67754f9c076ffa1f21f7ffe34fb25caf3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 49/63] fix: Markdown export wrote link targets unescaped

---
 .../common/src/parser_tools/content_parser.rs | 25 +++++++++++++++++++
 .../src/use_cases/export_markdown_uc.rs       |  6 +++--
 crates/public_api/src/fragment.rs             |  4 +--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/parser_tools/content_parser.rs b/crates/common/src/parser_tools/content_parser.rs
index 077bcc3..9784272 100644
--- a/crates/common/src/parser_tools/content_parser.rs
+++ b/crates/common/src/parser_tools/content_parser.rs
@@ -1231,6 +1231,31 @@ pub fn format_runs_from_spans(
     (plain_text, runs)
 }
 
+/// Write a link target as a Markdown link destination. Targets that would not
+/// be read back as they are go between angle brackets with escapes.
+pub fn markdown_link_destination(href: &str) -> String {
+    let plain = !href.is_empty()
+        && !href.contains(|c: char| c.is_whitespace() || c.is_control() || "<>()\\".contains(c))
+        && !(href.contains('&') && href.contains(';'));
+    if plain {
+        return href.to_string();
+    }
+    let mut result = String::from("<");
+    for c in href.chars() {
+        match c {
+            '<' | '>' | '\\' | '&' => {
+                result.push('\\');
+                result.push(c);
+            }
+            '\n' => result.push_str("&#10;"),
+            '\r' => result.push_str("&#13;"),
+            _ => result.push(c),
+        }
+    }
+    result.push('>');
+    result
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 021ea70..91ba110 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -5,7 +5,9 @@ use common::database::QueryUnitOfWork;
 use common::database::rope_helpers::block_content_via_store;
 use common::entities::{Block, Document, Frame, List, ListStyle, Root, Table, TableCell};
 use common::format_runs::{InlineContent, InlineSegment};
-use common::parser_tools::content_parser::{markdown_code_span, markdown_fence};
+use common::parser_tools::content_parser::{
+    markdown_code_span, markdown_fence, markdown_link_destination,
+};
 use common::types::{EntityId, ROOT_ENTITY_ID};
 use std::collections::HashSet;
 
@@ -428,7 +430,7 @@ impl ExportMarkdownUseCase {
                 formatted = format!("*{}*", formatted);
             }
             if let Some(ref href) = elem.fmt_anchor_href {
-                formatted = format!("[{}]({})", formatted, href);
+                formatted = format!("[{}]({})", formatted, markdown_link_destination(href));
             }
 
             inline_md.push_str(&formatted);
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index ee7075e..8782e37 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -2,7 +2,7 @@
 
 use crate::{InlineContent, ListStyle};
 use frontend::common::parser_tools::content_parser::{
-    ParsedElement, ParsedSpan, markdown_code_span, markdown_fence,
+    ParsedElement, ParsedSpan, markdown_code_span, markdown_fence, markdown_link_destination,
 };
 use frontend::common::parser_tools::fragment_schema::{
     FragmentBlock, FragmentData, FragmentElement, FragmentTable, FragmentTableCell,
@@ -611,7 +611,7 @@ fn render_inline_markdown(elements: &[FragmentElement]) -> String {
         }
         if is_anchor {
             let href = elem.fmt_anchor_href.as_deref().unwrap_or("");
-            text = format!("[{}]({})", text, href);
+            text = format!("[{}]({})", text, markdown_link_destination(href));
         }
         out.push_str(&text);
     }
-- 
2.43.0


From 4e32a28003b1224ae7e1b46fef6ee497204ef49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 50/63] fix: HTML and LaTeX exports wrote the paragraphs of a
 table cell in the wrong order

---
 crates/document_io/src/use_cases/export_html_uc.rs  | 3 ++-
 crates/document_io/src/use_cases/export_latex_uc.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_html_uc.rs b/crates/document_io/src/use_cases/export_html_uc.rs
index 0b506c4..9a76dce 100644
--- a/crates/document_io/src/use_cases/export_html_uc.rs
+++ b/crates/document_io/src/use_cases/export_html_uc.rs
@@ -420,7 +420,8 @@ impl ExportHtmlUseCase {
                             &common::direct_access::frame::FrameRelationshipField::Blocks,
                         )?;
                         let blocks_opt = uow.get_block_multi(&block_ids)?;
-                        let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        blocks.sort_by_key(|b| b.document_position);
 
                         let mut cell_parts: Vec<String> = Vec::new();
                         for block in &blocks {
diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 6223565..8cec51a 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -466,7 +466,8 @@ impl ExportLatexUseCase {
                             &common::direct_access::frame::FrameRelationshipField::Blocks,
                         )?;
                         let blocks_opt = uow.get_block_multi(&block_ids)?;
-                        let blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        let mut blocks: Vec<Block> = blocks_opt.into_iter().flatten().collect();
+                        blocks.sort_by_key(|b| b.document_position);
 
                         let mut cell_parts: Vec<String> = Vec::new();
                         for block in &blocks {
-- 
2.43.0


From be1902f1d9f80b5ea38949ffbf16ee34f06efb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 51/63] fix: LaTeX export shifted the cells beside a cell that
 spans rows

---
 .../src/use_cases/export_latex_uc.rs          | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_latex_uc.rs b/crates/document_io/src/use_cases/export_latex_uc.rs
index 8cec51a..1ebffc7 100644
--- a/crates/document_io/src/use_cases/export_latex_uc.rs
+++ b/crates/document_io/src/use_cases/export_latex_uc.rs
@@ -121,7 +121,7 @@ impl ExportLatexUseCase {
                 &dto.document_class
             };
             format!(
-                "\\documentclass{{{}}}\n\\usepackage{{hyperref}}\n\\usepackage{{ulem}}\n\\usepackage{{graphicx}}\n\\usepackage{{setspace}}\n\\usepackage{{xcolor}}\n\\begin{{document}}\n\n{}\n\n\\end{{document}}",
+                "\\documentclass{{{}}}\n\\usepackage{{hyperref}}\n\\usepackage{{multirow}}\n\\usepackage{{ulem}}\n\\usepackage{{graphicx}}\n\\usepackage{{setspace}}\n\\usepackage{{xcolor}}\n\\begin{{document}}\n\n{}\n\n\\end{{document}}",
                 doc_class, body
             )
         } else {
@@ -438,7 +438,9 @@ impl ExportLatexUseCase {
 
         let rows = table.rows as usize;
         let cols = table.columns as usize;
-        let mut covered = vec![vec![false; cols]; rows];
+        // The number of columns of the cell above that spans into a position,
+        // at the leftmost of these columns
+        let mut covered = vec![vec![0; cols]; rows];
 
         // Build column spec: |l|l|...|l|
         let col_spec = format!("|{}|", vec!["l"; cols].join("|"));
@@ -448,8 +450,14 @@ impl ExportLatexUseCase {
             let mut row_parts: Vec<String> = Vec::new();
             let mut c = 0;
             while c < cols {
-                if covered[r][c] {
-                    c += 1;
+                // A position below a spanning cell has to stay in the row, empty
+                if covered[r][c] > 0 {
+                    row_parts.push(if covered[r][c] > 1 {
+                        format!("\\multicolumn{{{}}}{{|l|}}{{}}", covered[r][c])
+                    } else {
+                        String::new()
+                    });
+                    c += covered[r][c];
                     continue;
                 }
 
@@ -485,22 +493,12 @@ impl ExportLatexUseCase {
                     let wrapped = if cell.row_span > 1 && cell.column_span > 1 {
                         let cs = cell.column_span as usize;
                         let rs = cell.row_span as usize;
-                        for sc in 1..cs {
-                            if c + sc < cols {
-                                covered[r][c + sc] = true;
-                            }
-                        }
                         format!(
                             "\\multicolumn{{{}}}{{|l|}}{{\\multirow{{{}}}{{*}}{{{}}}}}",
                             cs, rs, content
                         )
                     } else if cell.column_span > 1 {
                         let cs = cell.column_span as usize;
-                        for sc in 1..cs {
-                            if c + sc < cols {
-                                covered[r][c + sc] = true;
-                            }
-                        }
                         format!("\\multicolumn{{{}}}{{|l|}}{{{}}}", cs, content)
                     } else if cell.row_span > 1 {
                         let rs = cell.row_span as usize;
@@ -512,10 +510,8 @@ impl ExportLatexUseCase {
 
                     // Mark row-spanned cells as covered
                     for sr in 1..cell.row_span as usize {
-                        for sc in 0..cell.column_span as usize {
-                            if r + sr < rows && c + sc < cols {
-                                covered[r + sr][c + sc] = true;
-                            }
+                        if r + sr < rows {
+                            covered[r + sr][c] = cell.column_span as usize;
                         }
                     }
 
-- 
2.43.0


From 2d9a696884ddbb35d8b280c26b54d88145a464bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 52/63] fix: DOCX export left the rows below a merged cell
 short of columns

---
 .../src/use_cases/export_docx_uc.rs           | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_docx_uc.rs b/crates/document_io/src/use_cases/export_docx_uc.rs
index 41f69b4..c3a93ac 100644
--- a/crates/document_io/src/use_cases/export_docx_uc.rs
+++ b/crates/document_io/src/use_cases/export_docx_uc.rs
@@ -356,17 +356,18 @@ impl ExportDocxUseCase {
                     // In DOCX, vertically merged continuation cells still need a <w:tc>
                     // with vMerge continue. For column spans, the cell is simply absent.
                     // Check if this is a vertical merge continuation (a cell above spans into this row)
-                    let needs_vmerge_continue = r > 0 && {
-                        // Look for a cell above that spans into this row
-                        cells.iter().any(|cell| {
-                            cell.column == c as i64
-                                && cell.row < r as i64
-                                && (cell.row + cell.row_span) > r as i64
-                        })
-                    };
-                    if needs_vmerge_continue {
-                        let cont_cell =
+                    // Look for a cell above that spans into this row
+                    let spanning = cells.iter().find(|cell| {
+                        cell.column == c as i64
+                            && cell.row < r as i64
+                            && (cell.row + cell.row_span) > r as i64
+                    });
+                    if let Some(spanning) = spanning {
+                        let mut cont_cell =
                             docx_rs::TableCell::new().vertical_merge(VMergeType::Continue);
+                        if spanning.column_span > 1 {
+                            cont_cell = cont_cell.grid_span(spanning.column_span as usize);
+                        }
                         docx_cells.push(cont_cell);
                     }
                     continue;
-- 
2.43.0


From ae8fdd35382edf72f186cb42a018282860ceb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:10 +0000
Subject: [PATCH 53/63] fix: Markdown export let a pipe in code or in a link
 end the table cell

---
 .../src/use_cases/export_markdown_uc.rs       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 91ba110..9e5f623 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -320,7 +320,7 @@ impl ExportMarkdownUseCase {
         let is_list_item = list.is_some();
 
         // Build inline markdown text
-        let inline_md = self.render_inline_segments(&elements)?;
+        let inline_md = self.render_inline_segments(&elements, false)?;
 
         // Build the block line
         let block_line = if let Some(level) = block.fmt_heading_level {
@@ -377,7 +377,7 @@ impl ExportMarkdownUseCase {
     }
 
     /// Render inline segments into markdown text with formatting.
-    fn render_inline_segments(&self, elements: &[InlineSegment]) -> Result<String> {
+    fn render_inline_segments(&self, elements: &[InlineSegment], in_table: bool) -> Result<String> {
         // Segments that only differ in what Markdown cannot express are written
         // as one: the delimiters of adjacent segments would run together.
         let mut merged: Vec<InlineSegment> = Vec::with_capacity(elements.len());
@@ -417,7 +417,7 @@ impl ExportMarkdownUseCase {
 
             // Apply formatting (innermost first)
             if elem.fmt_font_family.as_deref() == Some("monospace") {
-                formatted = markdown_code_span(&formatted);
+                formatted = escape_pipes(markdown_code_span(&formatted), in_table);
             }
             if elem.fmt_font_strikeout == Some(true) {
                 formatted = format!("~~{}~~", formatted);
@@ -430,7 +430,8 @@ impl ExportMarkdownUseCase {
                 formatted = format!("*{}*", formatted);
             }
             if let Some(ref href) = elem.fmt_anchor_href {
-                formatted = format!("[{}]({})", formatted, markdown_link_destination(href));
+                let destination = escape_pipes(markdown_link_destination(href), in_table);
+                formatted = format!("[{}]({})", formatted, destination);
             }
 
             inline_md.push_str(&formatted);
@@ -480,7 +481,7 @@ impl ExportMarkdownUseCase {
 
                 let mut parts: Vec<String> = Vec::new();
                 for block in &blocks {
-                    let inline_md = self.render_inline_markdown(uow, block)?;
+                    let inline_md = self.render_inline_markdown(uow, block, true)?;
                     if !inline_md.is_empty() {
                         parts.push(inline_md);
                     }
@@ -525,6 +526,7 @@ impl ExportMarkdownUseCase {
         &self,
         uow: &dyn ExportMarkdownUnitOfWorkTrait,
         block: &Block,
+        in_table: bool,
     ) -> Result<String> {
         let block_text = block_content_via_store(block, &uow.store());
         let elements = common::format_runs_query::inline_segments_for_block(
@@ -533,7 +535,7 @@ impl ExportMarkdownUseCase {
             &block_text,
         );
 
-        self.render_inline_segments(&elements)
+        self.render_inline_segments(&elements, in_table)
     }
 }
 
@@ -559,6 +561,15 @@ fn same_markdown_format(a: &InlineSegment, b: &InlineSegment) -> bool {
     key(a) == key(b)
 }
 
+/// In a table a pipe ends the cell, even within a code span or a link.
+fn escape_pipes(text: String, in_table: bool) -> String {
+    if in_table {
+        text.replace('|', "\\|")
+    } else {
+        text
+    }
+}
+
 /// Prefix every line of `text` with `prefix`.
 fn prefix_lines(text: &str, prefix: &str) -> String {
     text.lines()
-- 
2.43.0


From 523a78a0a0e58eaebe48fb24737e28d0de4e0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:01 +0000
Subject: [PATCH 54/63] fix: undoing a relationship change let later entities
 take IDs already in use

Undo restored the ID counters along with the store, so after redo a new
entity got the ID of a re-created one and overwrote it.
---
 crates/common/src/database/rope_store.rs   | 18 ++++++++++++++----
 crates/common/src/database/transactions.rs |  4 +++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/common/src/database/rope_store.rs b/crates/common/src/database/rope_store.rs
index 06d642e..a58432c 100644
--- a/crates/common/src/database/rope_store.rs
+++ b/crates/common/src/database/rope_store.rs
@@ -124,14 +124,24 @@ impl RopeStore {
     }
 
     pub fn restore_savepoint(&self, savepoint_id: u64) {
-        let snap = self
-            .savepoints
+        let snap = self.savepoint(savepoint_id);
+        self.restore(&snap);
+    }
+
+    /// Like [`restore_savepoint`](Self::restore_savepoint), but keeps the
+    /// ID counters — used by undo, where IDs must not be handed out twice.
+    pub fn restore_savepoint_without_counters(&self, savepoint_id: u64) {
+        let snap = self.savepoint(savepoint_id);
+        self.restore_without_counters(&snap);
+    }
+
+    fn savepoint(&self, savepoint_id: u64) -> RopeStoreSnapshot {
+        self.savepoints
             .read()
             .unwrap()
             .get(&savepoint_id)
             .expect("savepoint not found")
-            .clone();
-        self.restore(&snap);
+            .clone()
     }
 
     pub fn discard_savepoint(&self, savepoint_id: u64) {
diff --git a/crates/common/src/database/transactions.rs b/crates/common/src/database/transactions.rs
index 3e3b035..b8d4fc0 100644
--- a/crates/common/src/database/transactions.rs
+++ b/crates/common/src/database/transactions.rs
@@ -76,11 +76,13 @@ impl Transaction {
         Ok(self.store.create_savepoint())
     }
 
+    /// Go back to a savepoint (undo). Unlike a rollback this preserves the ID
+    /// counters: IDs handed out since may be in the redo history.
     pub fn restore_to_savepoint(&mut self, savepoint: types::Savepoint) -> Result<()> {
         if !self.is_write {
             bail!("Cannot restore savepoint on a read transaction");
         }
-        self.store.restore_savepoint(savepoint);
+        self.store.restore_savepoint_without_counters(savepoint);
         Ok(())
     }
 
-- 
2.43.0


From a25a42c9c80e090eb13bf8fa1238955a7cfc721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:02 +0000
Subject: [PATCH 55/63] fix: a relationship change could be redone only once

---
 crates/common/src/direct_access/use_cases/move_relationship.rs | 3 +++
 crates/common/src/direct_access/use_cases/set_relationship.rs  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/crates/common/src/direct_access/use_cases/move_relationship.rs b/crates/common/src/direct_access/use_cases/move_relationship.rs
index 888852a..8b8e437 100644
--- a/crates/common/src/direct_access/use_cases/move_relationship.rs
+++ b/crates/common/src/direct_access/use_cases/move_relationship.rs
@@ -98,6 +98,9 @@ impl<RF: Clone + Send + 'static, F: WriteRelUoWFactory<RF> + Send + 'static> Und
             uow.move_relationship(&id, &field, &ids_to_move, new_index)?;
             uow.commit()?;
             self.undo_stack.push_back(savepoint);
+            // Keep the parameters for the next redo
+            self.redo_stack
+                .push_back((id, field, ids_to_move, new_index));
         }
         Ok(())
     }
diff --git a/crates/common/src/direct_access/use_cases/set_relationship.rs b/crates/common/src/direct_access/use_cases/set_relationship.rs
index 5432b2e..f64bea2 100644
--- a/crates/common/src/direct_access/use_cases/set_relationship.rs
+++ b/crates/common/src/direct_access/use_cases/set_relationship.rs
@@ -86,6 +86,8 @@ impl<RF: Clone + Send + 'static, F: WriteRelUoWFactory<RF> + Send + 'static> Und
             uow.set_relationship(&id, &field, &right_ids)?;
             uow.commit()?;
             self.undo_stack.push_back(savepoint);
+            // Keep the parameters for the next redo
+            self.redo_stack.push_back((id, field, right_ids));
         }
         Ok(())
     }
-- 
2.43.0


From 87fa8245653678da34e4317608295109beaf1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:46 +0000
Subject: [PATCH 56/63] fix: an undo or redo failing inside an edit block left
 the block half undone

---
 crates/common/src/undo_redo.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 1fe132a..37ac11e 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -127,16 +127,34 @@ impl CompositeCommand {
 impl UndoRedoCommand for CompositeCommand {
     fn undo(&mut self) -> Result<()> {
         // Undo commands in reverse order
-        for command in self.commands.iter_mut().rev() {
-            command.undo()?;
+        for i in (0..self.commands.len()).rev() {
+            if let Err(e) = self.commands[i].undo() {
+                // The composite stays on the undo stack: put back what was undone
+                for command in self.commands[i + 1..].iter_mut() {
+                    if let Err(e) = command.redo() {
+                        log::error!("Could not put back a partly undone composite: {e}");
+                        break;
+                    }
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
 
     fn redo(&mut self) -> Result<()> {
         // Redo commands in original order
-        for command in self.commands.iter_mut() {
-            command.redo()?;
+        for i in 0..self.commands.len() {
+            if let Err(e) = self.commands[i].redo() {
+                // The composite stays on the redo stack: take back what was redone
+                for command in self.commands[..i].iter_mut().rev() {
+                    if let Err(e) = command.undo() {
+                        log::error!("Could not take back a partly redone composite: {e}");
+                        break;
+                    }
+                }
+                return Err(e);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 04f508bd509f999ea4e220315dcd8e1cd3f4b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:52 +0000
Subject: [PATCH 57/63] fix: one composite bound all later ones to its undo
 stack, and a missing stack panicked when it ended

---
 crates/common/src/undo_redo.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/common/src/undo_redo.rs b/crates/common/src/undo_redo.rs
index 37ac11e..28009cd 100644
--- a/crates/common/src/undo_redo.rs
+++ b/crates/common/src/undo_redo.rs
@@ -327,11 +327,19 @@ impl UndoRedoManager {
     /// // Now undo() will undo both commands as a single unit
     /// ```
     pub fn begin_composite(&mut self, stack_id: Option<u64>) -> Result<()> {
-        if self.composite_stack_id.is_some() && self.composite_stack_id != stack_id {
+        if let Some(composite) = &self.in_progress_composite
+            && composite.stack_id != stack_id.unwrap_or(0)
+        {
             return Err(anyhow!(
                 "Cannot begin a composite on a different stack while another composite is in progress"
             ));
         }
+        if !self.stacks.contains_key(&stack_id.unwrap_or(0)) {
+            return Err(anyhow!(
+                "Stack with ID {} does not exist",
+                stack_id.unwrap_or(0)
+            ));
+        }
 
         // Set the target stack ID for this composite
         self.composite_stack_id = stack_id;
@@ -371,12 +379,11 @@ impl UndoRedoManager {
                 && !composite.is_empty()
             {
                 let target_stack_id = self.composite_stack_id.unwrap_or(0);
-                let stack = self
-                    .stacks
-                    .get_mut(&target_stack_id)
-                    .expect("Stack must exist");
-                stack.undo_stack.push(Box::new(composite));
-                stack.redo_stack.clear();
+                // A stack deleted in the meantime takes its history with it
+                if let Some(stack) = self.stacks.get_mut(&target_stack_id) {
+                    stack.undo_stack.push(Box::new(composite));
+                    stack.redo_stack.clear();
+                }
             }
             // not sure if we want to send events for composites
             if let Some(event_hub) = &self.event_hub {
-- 
2.43.0


From fe43ee9584f7e244d7aa58f3c0a20c425b87fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 58/63] fix: edits by cursors on several threads used positions
 from before other threads' edits

---
 crates/public_api/src/cursor.rs | 127 ++++++++++++++++----------------
 1 file changed, 63 insertions(+), 64 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index d5adc46..fc163d9 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -2,7 +2,7 @@
 
 use std::sync::Arc;
 
-use parking_lot::Mutex;
+use parking_lot::{Mutex, MutexGuard};
 
 use anyhow::Result;
 
@@ -97,8 +97,9 @@ impl Clone for TextCursor {
 }
 
 impl TextCursor {
-    // ── Helpers (called while doc lock is NOT held) ──────────
+    // ── Helpers ──────────────────────────────────────────────
 
+    /// Called while the doc lock is held, as edits of other threads move the cursor.
     fn read_cursor(&self) -> (usize, usize) {
         let d = self.data.lock();
         (d.position, d.anchor)
@@ -188,13 +189,13 @@ impl TextCursor {
 
     /// Get the selected text. Returns empty string if no selection.
     pub fn selected_text(&self) -> Result<String> {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
         if pos == anchor {
             return Ok(String::new());
         }
         let start = pos.min(anchor);
         let len = pos.max(anchor) - start;
-        let inner = self.doc.lock();
         let dto = frontend::document_inspection::GetTextAtPositionDto {
             position: to_i64(start),
             length: to_i64(len),
@@ -213,8 +214,8 @@ impl TextCursor {
 
     /// True if the cursor is at the start of a block.
     pub fn at_block_start(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         if let Ok(info) = block_info_at_cursor(&inner, pos) {
             pos == to_usize(info.block_start)
         } else {
@@ -224,8 +225,8 @@ impl TextCursor {
 
     /// True if the cursor is at the end of a block.
     pub fn at_block_end(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         if let Ok(info) = block_info_at_cursor(&inner, pos) {
             pos == to_usize(info.block_start) + to_usize(info.block_length)
         } else {
@@ -240,8 +241,8 @@ impl TextCursor {
 
     /// True if the cursor is at the very end of the document.
     pub fn at_end(&self) -> bool {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let stats = document_inspection_commands::get_document_stats(&inner.ctx).unwrap_or({
             frontend::document_inspection::DocumentStatsDto {
                 character_count: 0,
@@ -258,8 +259,8 @@ impl TextCursor {
 
     /// The block number (0-indexed) containing the cursor.
     pub fn block_number(&self) -> usize {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         block_info_at_cursor(&inner, pos)
             .map(|info| to_usize(info.block_number))
             .unwrap_or(0)
@@ -267,8 +268,8 @@ impl TextCursor {
 
     /// The cursor's column within the current block (0-indexed).
     pub fn position_in_block(&self) -> usize {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         block_info_at_cursor(&inner, pos)
             .map(|info| pos.saturating_sub(to_usize(info.block_start)))
             .unwrap_or(0)
@@ -394,17 +395,16 @@ impl TextCursor {
 
     /// Insert plain text at the cursor. Replaces selection if any.
     pub fn insert_text(&self, text: &str) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
-        // Try direct insert first (handles same-block selection and no-selection cases)
-        let dto = frontend::document_editing::InsertTextDto {
-            position: to_i64(pos),
-            anchor: to_i64(anchor),
-            text: text.into(),
-        };
-
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+
+            // Try direct insert first (handles same-block selection and no-selection cases)
+            let dto = frontend::document_editing::InsertTextDto {
+                position: to_i64(pos),
+                anchor: to_i64(anchor),
+                text: text.into(),
+            };
             let result = match document_editing_commands::insert_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -447,8 +447,6 @@ impl TextCursor {
 
     /// Insert text with a specific character format. Replaces selection if any.
     pub fn insert_formatted_text(&self, text: &str, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-
         let make_dto = |p: usize, a: usize| frontend::document_editing::InsertFormattedTextDto {
             position: to_i64(p),
             anchor: to_i64(a),
@@ -463,6 +461,7 @@ impl TextCursor {
 
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let result = match document_editing_commands::insert_formatted_text(
                 &inner.ctx,
                 Some(inner.stack_id),
@@ -500,9 +499,9 @@ impl TextCursor {
 
     /// Insert a block break (new paragraph). Replaces selection if any.
     pub fn insert_block(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             // Selection active: delete first, then split (Word convention)
             let (result, removed) = Self::replace_selection(&inner, pos, anchor, |insert_pos| {
@@ -541,13 +540,13 @@ impl TextCursor {
 
     /// Insert a document fragment at the cursor. Replaces selection if any.
     pub fn insert_fragment(&self, fragment: &DocumentFragment) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
-        // Nothing to insert: fail before the selection is deleted.
-        if pos != anchor && !fragment.has_content() {
-            anyhow::bail!("Fragment contains no blocks or tables");
-        }
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            // Nothing to insert: fail before the selection is deleted.
+            if pos != anchor && !fragment.has_content() {
+                anyhow::bail!("Fragment contains no blocks or tables");
+            }
 
             let (result, removed) = Self::replace_selection(&inner, pos, anchor, |insert_pos| {
                 let dto = frontend::document_editing::InsertFragmentDto {
@@ -624,9 +623,9 @@ impl TextCursor {
 
     /// Insert an image at the cursor. Replaces selection if any.
     pub fn insert_image(&self, name: &str, width: u32, height: u32) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
 
             let (result, removed) = Self::replace_selection(&inner, pos, anchor, |insert_pos| {
                 let dto = frontend::document_editing::InsertImageDto {
@@ -655,9 +654,9 @@ impl TextCursor {
 
     /// Insert a new frame at the cursor.
     pub fn insert_frame(&self) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertFrameDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -688,9 +687,9 @@ impl TextCursor {
     /// The cursor moves into the first cell of the table.
     /// Returns a handle to the created table.
     pub fn insert_table(&self, rows: usize, columns: usize) -> Result<TextTable> {
-        let (pos, anchor) = self.read_cursor();
         let (table_id, queued) = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertTableDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -740,8 +739,8 @@ impl TextCursor {
     /// Returns `None` if the cursor is not inside a table cell.
     /// When `Some`, provides the table, row, and column.
     pub fn current_table_cell(&self) -> Option<TableCellRef> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         // Find the block at cursor position
         let dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos),
@@ -1469,39 +1468,38 @@ impl TextCursor {
 
     /// Delete the character after the cursor (Delete key).
     pub fn delete_char(&self) -> Result<()> {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
         let (del_pos, del_anchor) = if pos != anchor {
             (pos, anchor)
         } else {
             // No-op at end of document (symmetric with delete_previous_char at start)
-            let end = {
-                let inner = self.doc.lock();
-                document_inspection_commands::get_document_stats(&inner.ctx)
-                    .map(|s| max_cursor_position(&s))
-                    .unwrap_or(0)
-            };
+            let end = document_inspection_commands::get_document_stats(&inner.ctx)
+                .map(|s| max_cursor_position(&s))
+                .unwrap_or(0);
             if pos >= end {
                 return Ok(());
             }
             // Delete the whole grapheme cluster after the cursor so a
             // single Delete on `👋🏻` or `e\u{0301}` removes the
             // user-perceived character, not just its first scalar.
-            let to = self.next_grapheme_boundary(pos);
+            let to = Self::next_grapheme_boundary(&inner, pos);
             if to == pos {
                 return Ok(());
             }
             (pos, to)
         };
-        self.do_delete(del_pos, del_anchor)
+        self.do_delete(inner, del_pos, del_anchor)
     }
 
     /// Delete the character before the cursor (Backspace key).
     pub fn delete_previous_char(&self) -> Result<()> {
+        let inner = self.doc.lock();
         let (pos, anchor) = self.read_cursor();
         let (del_pos, del_anchor) = if pos != anchor {
             (pos, anchor)
         } else if pos > 0 {
-            let from = self.prev_grapheme_boundary(pos);
+            let from = Self::prev_grapheme_boundary(&inner, pos);
             if from == pos {
                 return Ok(());
             }
@@ -1509,17 +1507,17 @@ impl TextCursor {
         } else {
             return Ok(());
         };
-        self.do_delete(del_pos, del_anchor)
+        self.do_delete(inner, del_pos, del_anchor)
     }
 
     /// Delete the selected text. Returns the deleted text. No-op if no selection.
     pub fn remove_selected_text(&self) -> Result<String> {
-        let (pos, anchor) = self.read_cursor();
-        if pos == anchor {
-            return Ok(String::new());
-        }
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
+            if pos == anchor {
+                return Ok(String::new());
+            }
             let dto = frontend::document_editing::DeleteTextDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1558,8 +1556,8 @@ impl TextCursor {
     /// Returns the list that the block at the cursor position belongs to,
     /// or `None` if the current block is not a list item.
     pub fn current_list(&self) -> Option<crate::TextList> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let block_info = block_info_at_cursor(&inner, pos).ok()?;
         let block = crate::text_block::TextBlock {
             doc: self.doc.clone(),
@@ -1571,9 +1569,9 @@ impl TextCursor {
 
     /// Turn the block(s) in the selection into a list.
     pub fn create_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::CreateListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1602,9 +1600,9 @@ impl TextCursor {
 
     /// Insert a new list item at the cursor position.
     pub fn insert_list(&self, style: ListStyle) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = frontend::document_editing::InsertListDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1677,8 +1675,8 @@ impl TextCursor {
 
     /// Add the block at the cursor position to a list.
     pub fn add_current_block_to_list(&self, list_id: usize) -> Result<()> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let block_info = block_info_at_cursor(&inner, pos)?;
         drop(inner);
         self.add_block_to_list(block_info.block_id as usize, list_id)
@@ -1713,8 +1711,8 @@ impl TextCursor {
     /// Remove the block at the cursor position from its list.
     /// Returns an error if the current block is not a list item.
     pub fn remove_current_block_from_list(&self) -> Result<()> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let block_info = block_info_at_cursor(&inner, pos)?;
         drop(inner);
         self.remove_block_from_list(block_info.block_id as usize)
@@ -1738,8 +1736,8 @@ impl TextCursor {
     /// Get the character format at the cursor position. Reads the
     /// covering `FormatRun` (or image anchor) directly from the store.
     pub fn char_format(&self) -> Result<TextFormat> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
 
         // Locate the block containing the cursor.
         let block_info = block_info_at_cursor(&inner, pos)?;
@@ -1792,8 +1790,8 @@ impl TextCursor {
 
     /// Get the block format of the block containing the cursor.
     pub fn block_format(&self) -> Result<BlockFormat> {
-        let pos = self.position();
         let inner = self.doc.lock();
+        let pos = self.position();
         let block_info = block_info_at_cursor(&inner, pos)?;
         let block_id = block_info.block_id as u64;
         let block = frontend::commands::block_commands::get_block(&inner.ctx, &block_id)?
@@ -1805,9 +1803,9 @@ impl TextCursor {
 
     /// Set the character format for the selection.
     pub fn set_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_text_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1826,9 +1824,9 @@ impl TextCursor {
 
     /// Merge a character format into the selection.
     pub fn merge_char_format(&self, format: &TextFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_merge_dto(pos, anchor);
             document_formatting_commands::merge_text_format(
                 &inner.ctx,
@@ -1851,9 +1849,9 @@ impl TextCursor {
 
     /// Set the block format for the current block (or all blocks in selection).
     pub fn set_block_format(&self, format: &BlockFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor);
             document_formatting_commands::set_block_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1872,9 +1870,9 @@ impl TextCursor {
 
     /// Set the frame format.
     pub fn set_frame_format(&self, frame_id: usize, format: &FrameFormat) -> Result<()> {
-        let (pos, anchor) = self.read_cursor();
         let queued = {
             let mut inner = self.doc.lock();
+            let (pos, anchor) = self.read_cursor();
             let dto = format.to_set_dto(pos, anchor, frame_id);
             document_formatting_commands::set_frame_format(&inner.ctx, Some(inner.stack_id), &dto)?;
             let start = pos.min(anchor);
@@ -1955,9 +1953,13 @@ impl TextCursor {
         inner.take_queued_events()
     }
 
-    fn do_delete(&self, pos: usize, anchor: usize) -> Result<()> {
+    fn do_delete(
+        &self,
+        mut inner: MutexGuard<'_, TextDocumentInner>,
+        pos: usize,
+        anchor: usize,
+    ) -> Result<()> {
         let queued = {
-            let mut inner = self.doc.lock();
             let dto = frontend::document_editing::DeleteTextDto {
                 position: to_i64(pos),
                 anchor: to_i64(anchor),
@@ -1986,6 +1988,7 @@ impl TextCursor {
             inner.check_flow_changed();
             self.queue_undo_redo_event(&mut inner)
         };
+        drop(inner);
         crate::inner::dispatch_queued_events(queued);
         Ok(())
     }
@@ -2005,7 +2008,7 @@ impl TextCursor {
             MoveOperation::NextCharacter | MoveOperation::Right => {
                 let mut cur = pos;
                 for _ in 0..n {
-                    let next = self.next_grapheme_boundary(cur);
+                    let next = Self::next_grapheme_boundary(&self.doc.lock(), cur);
                     if next == cur {
                         break;
                     }
@@ -2019,7 +2022,7 @@ impl TextCursor {
                 let end = self.resolve_move(MoveOperation::End, 1);
                 let mut cur = pos.min(end + 1);
                 for _ in 0..n {
-                    let prev = self.prev_grapheme_boundary(cur);
+                    let prev = Self::prev_grapheme_boundary(&self.doc.lock(), cur);
                     if prev == cur {
                         break;
                     }
@@ -2228,8 +2231,7 @@ impl TextCursor {
     /// from the end of a block goes to the start of the next block
     /// (one scalar forward) without touching the grapheme path.
     /// Returns `pos` unchanged when already at the document end.
-    fn next_grapheme_boundary(&self, pos: usize) -> usize {
-        let inner = self.doc.lock();
+    fn next_grapheme_boundary(inner: &TextDocumentInner, pos: usize) -> usize {
         let end = document_inspection_commands::get_document_stats(&inner.ctx)
             .map(|s| max_cursor_position(&s))
             .unwrap_or(pos);
@@ -2260,7 +2262,6 @@ impl TextCursor {
             Ok(r) => r.text,
             Err(_) => return pos + 1,
         };
-        drop(inner);
         match text.graphemes(true).next() {
             Some(g) if !g.is_empty() => (pos + g.chars().count()).min(end),
             _ => (pos + 1).min(end),
@@ -2270,11 +2271,10 @@ impl TextCursor {
     /// Return the cursor position before the extended grapheme cluster
     /// that ends at `pos`. Counterpart to [`Self::next_grapheme_boundary`].
     /// Crosses block separators one scalar at a time.
-    fn prev_grapheme_boundary(&self, pos: usize) -> usize {
+    fn prev_grapheme_boundary(inner: &TextDocumentInner, pos: usize) -> usize {
         if pos == 0 {
             return 0;
         }
-        let inner = self.doc.lock();
         let block_dto = frontend::document_inspection::GetBlockAtPositionDto {
             position: to_i64(pos.saturating_sub(1)),
         };
@@ -2304,7 +2304,6 @@ impl TextCursor {
             Ok(r) => r.text,
             Err(_) => return pos - 1,
         };
-        drop(inner);
         match text.graphemes(true).next_back() {
             Some(g) if !g.is_empty() => pos - g.chars().count(),
             _ => pos - 1,
-- 
2.43.0


From bd53e7fe914848ad6dc4e871face586d6c0f024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:49 +0000
Subject: [PATCH 59/63] fix: table structure edits left the positions of cell
 blocks wrong

The blocks of the cells were numbered one position apart whatever their
text, and the blocks after the table were moved as if the removed cells
had held no text.
---
 crates/document_editing/src/use_cases/editing_helpers.rs    | 5 +++--
 .../src/use_cases/insert_table_column_uc.rs                 | 2 +-
 .../document_editing/src/use_cases/insert_table_row_uc.rs   | 2 +-
 .../document_editing/src/use_cases/merge_table_cells_uc.rs  | 6 ++----
 .../src/use_cases/remove_table_column_uc.rs                 | 5 ++---
 .../document_editing/src/use_cases/remove_table_row_uc.rs   | 5 ++---
 crates/document_editing/src/use_cases/remove_table_uc.rs    | 2 +-
 .../document_editing/src/use_cases/split_table_cell_uc.rs   | 2 +-
 8 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/crates/document_editing/src/use_cases/editing_helpers.rs b/crates/document_editing/src/use_cases/editing_helpers.rs
index b713401..fc0af63 100644
--- a/crates/document_editing/src/use_cases/editing_helpers.rs
+++ b/crates/document_editing/src/use_cases/editing_helpers.rs
@@ -103,12 +103,13 @@ pub(crate) use impl_cell_block_reader;
 
 /// Compute the minimum document_position across all blocks in the given cell frames.
 /// Reassign document_position for all blocks across table cells in row-major order.
-/// Returns the blocks that need updating and the total block count.
+/// Returns the blocks that need updating and the characters the cells span.
 pub fn reassign_cell_block_positions(
     uow: &dyn CellBlockReader,
     cells: &[common::entities::TableCell],
     base_pos: i64,
     now: chrono::DateTime<chrono::Utc>,
+    store: &Store,
 ) -> Result<(Vec<Block>, i64)> {
     let mut blocks_to_update: Vec<Block> = Vec::new();
     let mut running_pos: i64 = 0;
@@ -122,8 +123,8 @@ pub fn reassign_cell_block_positions(
             for mut block in blocks {
                 block.document_position = base_pos + running_pos;
                 block.updated_at = now;
+                running_pos += block_char_length(&block, store) + 1;
                 blocks_to_update.push(block);
-                running_pos += 1;
             }
         }
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_column_uc.rs b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
index 698c47b..6ac2c1c 100644
--- a/crates/document_editing/src/use_cases/insert_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_column_uc.rs
@@ -188,7 +188,7 @@ fn execute_insert_table_column(
 
     // Assign positions in row-major order (handles multi-block cells)
     let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now, &uow.store())?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
diff --git a/crates/document_editing/src/use_cases/insert_table_row_uc.rs b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
index d49dc5b..6d3a6d2 100644
--- a/crates/document_editing/src/use_cases/insert_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/insert_table_row_uc.rs
@@ -183,7 +183,7 @@ fn execute_insert_table_row(
 
     // Assign positions in row-major order (handles multi-block cells)
     let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now, &uow.store())?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
diff --git a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
index 30e3c29..3f89647 100644
--- a/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
+++ b/crates/document_editing/src/use_cases/merge_table_cells_uc.rs
@@ -160,8 +160,6 @@ fn execute_merge_table_cells(
         .copied()
         .collect();
 
-    let removed_cell_count = cells_to_remove.len() as i64;
-
     // Find base_pos from existing cell blocks BEFORE any mutation
     let existing_cell_frame_ids: Vec<EntityId> =
         cells.iter().filter_map(|c| c.cell_frame).collect();
@@ -217,7 +215,7 @@ fn execute_merge_table_cells(
 
     // Assign positions in row-major order (handles multi-block cells)
     let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
+        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now, &uow.store())?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
@@ -239,7 +237,7 @@ fn execute_merge_table_cells(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cell_count;
+                shifted.document_position -= removed_cell_block_ids.len() as i64 + removed_chars;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
diff --git a/crates/document_editing/src/use_cases/remove_table_column_uc.rs b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
index 4099b67..7d04dcb 100644
--- a/crates/document_editing/src/use_cases/remove_table_column_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_column_uc.rs
@@ -193,13 +193,12 @@ fn execute_remove_table_column(
 
     // Assign positions in row-major order (handles multi-block cells)
     let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
+        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now, &uow.store())?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_cell_frame_ids.into_iter().collect();
@@ -216,7 +215,7 @@ fn execute_remove_table_column(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position -= removed_cell_block_ids.len() as i64 + removed_chars;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
diff --git a/crates/document_editing/src/use_cases/remove_table_row_uc.rs b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
index 074457e..9523852 100644
--- a/crates/document_editing/src/use_cases/remove_table_row_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_row_uc.rs
@@ -186,13 +186,12 @@ fn execute_remove_table_row(
 
     // Assign positions in row-major order (handles multi-block cells)
     let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now)?;
+        reassign_cell_block_positions(&*uow, &remaining_cells, base_pos, now, &uow.store())?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
 
     // Shift non-table blocks after the table
-    let removed_cells = cells_to_remove.len() as i64;
     let frame_ids = uow.get_document_relationship(&doc_id, &DocumentRelationshipField::Frames)?;
     let cell_frame_set: std::collections::HashSet<EntityId> =
         remaining_frame_ids.into_iter().collect();
@@ -209,7 +208,7 @@ fn execute_remove_table_row(
         for block in blocks_opt.into_iter().flatten() {
             if block.document_position >= base_pos {
                 let mut shifted = block;
-                shifted.document_position -= removed_cells;
+                shifted.document_position -= removed_cell_block_ids.len() as i64 + removed_chars;
                 shifted.updated_at = now;
                 shifted_blocks.push(shifted);
             }
diff --git a/crates/document_editing/src/use_cases/remove_table_uc.rs b/crates/document_editing/src/use_cases/remove_table_uc.rs
index d4033df..a69d9f8 100644
--- a/crates/document_editing/src/use_cases/remove_table_uc.rs
+++ b/crates/document_editing/src/use_cases/remove_table_uc.rs
@@ -170,7 +170,7 @@ fn execute_remove_table(
                 for block in blocks_opt.into_iter().flatten() {
                     if block.document_position >= table_start_pos {
                         let mut shifted = block;
-                        shifted.document_position -= total_cell_blocks;
+                        shifted.document_position -= total_cell_blocks + total_cell_chars;
                         shifted.updated_at = now;
                         blocks_to_shift.push(shifted);
                     }
diff --git a/crates/document_editing/src/use_cases/split_table_cell_uc.rs b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
index e13859a..0c459e9 100644
--- a/crates/document_editing/src/use_cases/split_table_cell_uc.rs
+++ b/crates/document_editing/src/use_cases/split_table_cell_uc.rs
@@ -216,7 +216,7 @@ fn execute_split_table_cell(
     let cell_frame_ids: Vec<EntityId> = all_cells.iter().filter_map(|c| c.cell_frame).collect();
 
     let (cell_blocks_to_update, _) =
-        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now)?;
+        reassign_cell_block_positions(&*uow, &all_cells, base_pos, now, &uow.store())?;
     if !cell_blocks_to_update.is_empty() {
         uow.update_block_multi(&cell_blocks_to_update)?;
     }
-- 
2.43.0


From 58953ddfdd9a23e3d1673b16d69a44bcdc53382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 60/63] fix: pasting a table after an empty last paragraph
 corrupted the text

The position of the empty paragraph was moved past the table, so that
reading the text of either panicked or gave parts of the other.
---
 crates/common/src/database/rope_helpers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 7141559..2bc13b5 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -653,7 +653,8 @@ pub fn rope_insert_table_anchor(
             "\n\u{FFFC}",
             insert_pos + 1,
             target_idx + 1,
-            insert_pos,
+            // An empty target starts where it ends: it stays.
+            insert_pos + 1,
             4i32,
         )
     };
-- 
2.43.0


From 9c24cec5deb239704e6b1b178d83b0cda5c1728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 61/63] fix: removing the last table after an empty paragraph
 corrupted the text

The position of the empty paragraph was moved back with the end of the
document, into the paragraph before it.
---
 crates/common/src/database/rope_helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/common/src/database/rope_helpers.rs b/crates/common/src/database/rope_helpers.rs
index 2bc13b5..d1f3e88 100644
--- a/crates/common/src/database/rope_helpers.rs
+++ b/crates/common/src/database/rope_helpers.rs
@@ -762,11 +762,13 @@ pub fn rope_remove_table_anchor(store: &Store, table_id: EntityId) {
         let mut offsets = store.block_offsets.write().unwrap();
         offsets.remove_at(anchor_idx);
     }
+    // Shift entries past the removed range: an empty predecessor starts where
+    // the range starts, and stays.
     store
         .block_offsets
         .write()
         .unwrap()
-        .shift_after(remove_start, -4);
+        .shift_after(remove_end, -4);
 }
 
 /// Remove a registered block from the rope: drops its content bytes
-- 
2.43.0


From dee84c0c6960609431e8ebe6be5e42f58d4950ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 62/63] fix: extending a selection out of a table moved its end
 to the wrong side

Of a selection from inside a table to before it, the moving end jumped to
the paragraph after the table. The end inside the table moves instead.
---
 crates/public_api/src/cursor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/public_api/src/cursor.rs b/crates/public_api/src/cursor.rs
index fc163d9..742f1c6 100644
--- a/crates/public_api/src/cursor.rs
+++ b/crates/public_api/src/cursor.rs
@@ -280,8 +280,8 @@ impl TextCursor {
     /// Set the cursor to an absolute position.
     ///
     /// When extending a selection (`KeepAnchor`) across a table boundary,
-    /// the position is snapped to the adjacent block outside the table so
-    /// the entire table is "trapped" inside the selection range. This
+    /// the endpoint inside the table is snapped to the adjacent block outside
+    /// the table so the entire table is "trapped" inside the selection range. This
     /// mirrors LibreOffice's behaviour: partial table selections from
     /// outside are not allowed; the table is always fully enclosed.
     ///
@@ -297,6 +297,7 @@ impl TextCursor {
                 .unwrap_or(0)
         };
         let mut pos = position.min(end);
+        let mut snapped_anchor = None;
 
         // Table-trap snap: when extending a selection, if one endpoint is
         // inside a table and the other is outside, relocate the inside
@@ -315,10 +316,10 @@ impl TextCursor {
                 }
                 (None, Some(tc)) => {
                     // Anchor is inside a table, position is outside.
-                    // Snap the position so the table is enclosed.
+                    // Snap the anchor so the table is enclosed.
                     let before = pos < anchor;
                     if let Some(boundary) = self.table_boundary_position(tc.table.id(), !before) {
-                        pos = boundary;
+                        snapped_anchor = Some(boundary);
                     }
                 }
                 _ => {}
@@ -330,6 +331,8 @@ impl TextCursor {
             d.position = pos;
             if mode == MoveMode::MoveAnchor {
                 d.anchor = pos;
+            } else if let Some(anchor) = snapped_anchor {
+                d.anchor = anchor;
             }
             d.cell_selection_override = None;
         }
-- 
2.43.0


From e6bd32bd417bdbb87f34428d1b8d8a70e9e9224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:31 +0000
Subject: [PATCH 63/63] fix: keep items nested in item 100 and up of a numbered
 list nested in Markdown

---
 .../src/use_cases/export_markdown_uc.rs        | 18 ++++++++++++------
 crates/public_api/src/fragment.rs              | 16 ++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/document_io/src/use_cases/export_markdown_uc.rs b/crates/document_io/src/use_cases/export_markdown_uc.rs
index 9e5f623..8c6e2d2 100644
--- a/crates/document_io/src/use_cases/export_markdown_uc.rs
+++ b/crates/document_io/src/use_cases/export_markdown_uc.rs
@@ -345,9 +345,11 @@ impl ExportMarkdownUseCase {
                     indent: list_entity.indent,
                     list_id: None,
                     counter: 0,
+                    width: 4,
                 });
             }
-            let indent_prefix = "    ".repeat(list_levels.len() - 1);
+            let outer_levels = &list_levels[..list_levels.len() - 1];
+            let indent_prefix = " ".repeat(outer_levels.iter().map(|level| level.width).sum());
             match list_entity.style {
                 ListStyle::Decimal
                 | ListStyle::LowerAlpha
@@ -361,12 +363,14 @@ impl ExportMarkdownUseCase {
                     } else {
                         level.counter += 1;
                     }
-                    format!(
-                        "{}{}{}. {}",
-                        quote_prefix, indent_prefix, level.counter, inline_md
-                    )
+                    let marker = format!("{}. ", level.counter);
+                    level.width = marker.len().max(4);
+                    format!("{}{}{}{}", quote_prefix, indent_prefix, marker, inline_md)
+                }
+                _ => {
+                    list_levels.last_mut().expect("just pushed").width = 4;
+                    format!("{}{}- {}", quote_prefix, indent_prefix, inline_md)
                 }
-                _ => format!("{}{}- {}", quote_prefix, indent_prefix, inline_md),
             }
         } else {
             list_levels.clear();
@@ -545,6 +549,8 @@ struct ListLevel {
     /// The ordered list last seen on this level, and the number it is at
     list_id: Option<EntityId>,
     counter: i64,
+    /// How far the items nested in the last item have to be indented
+    width: usize,
 }
 
 /// Whether two segments have the same formatting as far as Markdown goes.
diff --git a/crates/public_api/src/fragment.rs b/crates/public_api/src/fragment.rs
index 8782e37..4f52da9 100644
--- a/crates/public_api/src/fragment.rs
+++ b/crates/public_api/src/fragment.rs
@@ -294,17 +294,19 @@ impl DocumentFragment {
                     list_levels.push(ListLevel {
                         indent: list.indent,
                         counter: 0,
+                        width: 4,
                     });
                 }
-                let indent_prefix = "    ".repeat(list_levels.len() - 1);
+                let outer_levels = &list_levels[..list_levels.len() - 1];
+                let indent_prefix = " ".repeat(outer_levels.iter().map(|level| level.width).sum());
+                let level = list_levels.last_mut().expect("just pushed");
                 if is_ordered_list_style(&list.style) {
-                    let level = list_levels.last_mut().expect("just pushed");
                     level.counter += 1;
-                    parts.push((
-                        format!("{}{}. {}", indent_prefix, level.counter, inline_text),
-                        true,
-                    ));
+                    let marker = format!("{}. ", level.counter);
+                    level.width = marker.len().max(4);
+                    parts.push((format!("{}{}{}", indent_prefix, marker, inline_text), true));
                 } else {
+                    level.width = 4;
                     parts.push((format!("{}- {}", indent_prefix, inline_text), true));
                 }
             } else {
@@ -552,6 +554,8 @@ fn escape_markdown(s: &str) -> String {
 struct ListLevel {
     indent: i64,
     counter: u32,
+    /// How far the items nested in the last item have to be indented
+    width: usize,
 }
 
 /// Whether two elements have the same formatting as far as Markdown goes.
-- 
2.43.0

