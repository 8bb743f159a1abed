From 65b6eaba127d5cf6af29d086c37ae22435042bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 01/12] fix: Map positions over the whole gap buffer contents

Positions are counted in grapheme clusters, but the contents on either
side of the gap were segmented separately. A cluster spanning the gap was
counted as two, so positions, reads and edits depended on where the last
edit happened to leave the gap.
---
 src/buffer/gap_buffer.rs | 44 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..615deec 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,16 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can span the gap, so the
+        // contents need to be segmented as a whole.
+        let data = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in data.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                return Some(self.skip_gap(offset));
             }
 
             // Advance the line and offset characters.
@@ -247,8 +226,8 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
-        // be right after it, which means it's at the end of the buffer.
+        // We didn't find the position *within* the contents, but it could
+        // be right after them, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
             return Some(self.data.len());
         }
@@ -256,6 +235,15 @@ impl GapBuffer {
         None
     }
 
+    // Maps an offset in the buffer's contents to its equivalent in the data.
+    fn skip_gap(&self, offset: usize) -> usize {
+        if offset < self.gap_start {
+            offset
+        } else {
+            offset + self.gap_length
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
-- 
2.43.0


From b58622fe5e2e627609c8cf2d21f05d4c367be4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 02/12] fix: Treat CRLF as a line break when mapping positions

A carriage return and its line feed form a single grapheme cluster, which
never compared equal to a line feed: a document with CRLF line endings was
one long line to positions and to move_to_last_line, in disagreement with
line_count, search, tokens and the rest of the cursor's movement.
---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..f7bf274 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c == "\n" || c == "\r\n" {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 615deec..cb1b4ac 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -218,7 +218,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 39b60997d8c1612c32aa52d3357f469b000dc6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 03/12] fix: Avoid overflow when stepping past extreme
 positions

Deleting a range whose end lies on the largest representable line, or
moving or deleting with a cursor placed at such a position, overflowed
while computing the next line or offset. These positions are out of
bounds, and are now treated like any other.
---
 src/buffer/cursor.rs           | 4 ++--
 src/buffer/gap_buffer.rs       | 2 +-
 src/buffer/operation/delete.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index f7bf274..4d3cb12 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -112,7 +112,7 @@ impl Cursor {
     /// Increments the cursor line. The location is bounds-checked against
     /// the data and the cursor will not be updated if it is out-of-bounds.
     pub fn move_down(&mut self) {
-        let target_line = self.line + 1;
+        let target_line = self.line.saturating_add(1);
         let new_position = Position {
             line: target_line,
             offset: self.sticky_offset,
@@ -158,7 +158,7 @@ impl Cursor {
     pub fn move_right(&mut self) {
         let new_position = Position {
             line: self.line,
-            offset: self.offset + 1,
+            offset: self.offset.saturating_add(1),
         };
         self.move_to(new_position);
     }
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index cb1b4ac..f0f95de 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -165,7 +165,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..348355d 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -79,7 +79,7 @@ impl Buffer {
         // the current offset and delete the character to the right.
         let mut end = Position {
             line: self.cursor.line,
-            offset: self.cursor.offset + 1,
+            offset: self.cursor.offset.saturating_add(1),
         };
 
         // If there isn't a character to the right,
@@ -87,7 +87,7 @@ impl Buffer {
         // of the next line. If it doesn't exist, that's okay;
         // these values are bounds-checked by delete() anyway.
         if !self.data.borrow().in_bounds(&end) {
-            end.line += 1;
+            end.line = end.line.saturating_add(1);
             end.offset = 0;
         }
 
-- 
2.43.0


From cd35c769a881abe4f9f826feb1e907bde26acde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 04/12] fix: Reverse inserts and deletes by what they changed

Undoing an insert removed the range its content was computed to span, which
isn't a position when the content merges with its neighbours into a single
grapheme cluster; undoing a delete restored what could be read from its
range beforehand, which is nothing if the range's end is out of bounds, and
inserted it at a position that the deletion may have merged away. Track
byte offsets and the content actually removed instead.
---
 src/buffer/gap_buffer.rs       | 33 ++++++++++++++++++----
 src/buffer/operation/delete.rs | 20 ++++++++-----
 src/buffer/operation/insert.rs | 51 ++++++++++++----------------------
 3 files changed, 58 insertions(+), 46 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index f0f95de..eb3e614 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,6 +56,14 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.offset_of(position) {
+            self.insert_at(data, offset);
+        }
+    }
+
+    /// Inserts the specified data at the specified byte offset of the buffer's
+    /// contents, which must lie on a character boundary.
+    pub(crate) fn insert_at(&mut self, data: &str, offset: usize) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
@@ -76,15 +84,17 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap(self.skip_gap(offset));
         self.write_to_gap(data);
     }
 
+    /// Removes data from the buffer's contents, given its byte
+    /// offset and length, which must span whole characters.
+    pub(crate) fn delete_at(&mut self, offset: usize, length: usize) {
+        self.move_gap(self.skip_gap(offset));
+        self.gap_length += length;
+    }
+
     /// Returns the specified range of data from the buffer.
     /// If any part of the range does not exist, a none value will be returned.
     ///
@@ -235,6 +245,17 @@ impl GapBuffer {
         None
     }
 
+    /// Maps a position to its byte offset in the buffer's contents.
+    pub(crate) fn offset_of(&self, position: &Position) -> Option<usize> {
+        self.find_offset(position).map(|offset| {
+            if offset > self.gap_start {
+                offset - self.gap_length
+            } else {
+                offset
+            }
+        })
+    }
+
     // Maps an offset in the buffer's contents to its equivalent in the data.
     fn skip_gap(&self, offset: usize) -> usize {
         if offset < self.gap_start {
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 348355d..126d355 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -13,17 +13,25 @@ use std::clone::Clone;
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: usize,
     range: Range,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
-
         // Delete the data.
+        let offset = buffer.data.borrow().offset_of(&self.range.start());
+        let data = buffer.data();
         buffer.data.borrow_mut().delete(&self.range);
 
+        // Store the content we've deleted, which isn't necessarily what
+        // can be read using the range; its end may be out of bounds.
+        self.content = offset.map(|offset| {
+            let length = data.len() - buffer.data().len();
+            self.offset = offset;
+            data[offset..offset + length].to_string()
+        });
+
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
             callback(self.range.start())
@@ -32,10 +40,7 @@ impl Operation for Delete {
 
     fn reverse(&mut self, buffer: &mut Buffer) {
         if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+            buffer.data.borrow_mut().insert_at(content, self.offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -54,6 +59,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: 0,
             range,
         }
     }
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..221c508 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,8 +1,7 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
@@ -16,10 +15,14 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Track where the content ends up, so that we can remove it later on.
+        self.offset = buffer.data.borrow().offset_of(&self.position);
+
         buffer
             .data
             .borrow_mut()
@@ -31,38 +34,16 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
+    // Grapheme clusters in the content can merge with the ones surrounding it, in which
+    // case its end isn't a position in the buffer. Offsets aren't subject to that.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
         // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        if let Some(offset) = self.offset {
+            buffer
+                .data
+                .borrow_mut()
+                .delete_at(offset, self.content.len());
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +59,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From 02b0bd5dd35b4dfe68412619809f4846cf40a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 05/12] fix: Return search results as grapheme cluster
 positions

Results carried byte offsets, whereas every other position in the library
counts grapheme clusters; on a line with multi-byte characters before the
match they pointed elsewhere, or past the end of the line.
---
 src/buffer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..d762d71 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -328,8 +329,8 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
+            for (offset, (index, _)) in data.grapheme_indices(true).enumerate() {
+                let haystack = &data[index..];
 
                 // Check haystack length before slicing it and comparing bytes with needle.
                 if haystack.len() >= needle.len()
-- 
2.43.0


From 7365676beed29280e432e2a619c8a1249d8f4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 06/12] fix: Count grapheme clusters in distances

The offset of a distance was the byte length of the text's last line.
Distances are added to positions, whose offsets count grapheme clusters.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From 3a8465fbea30049ee7a2e6858a587c86f532cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 07/12] fix: Apply undo and redo to open operation groups
 consistently

Undoing an open operation group dropped it, so that it couldn't be redone,
while modifications undone before the group was started could still be
re-applied, on top of content that they weren't made to.
---
 src/buffer/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index d762d71..c4b6871 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -242,18 +242,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // Close any open operation group, so that it's
+        // undone as a unit and can be re-applied afterwards.
+        self.end_operation_group();
+
+        // Look for an operation to undo.
+        let operation: Option<Box<dyn Operation>> = self.history.previous();
 
         // If we found an eligible operation, reverse it.
         if let Some(mut op) = operation {
@@ -278,6 +272,11 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Modifications in an open operation group supersede the ones undone before it.
+        if self.operation_group.as_ref().map_or(false, |g| !g.is_empty()) {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
-- 
2.43.0


From 6a25ee30498e9a75045e253aea87270cbbc53241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 08/12] fix: Consider open operation groups when tracking
 modifications

Operations are added to the history when their group is ended: up to that
point a buffer changed in a group was reported as unmodified, and saving it
marked the point before the group as being in sync with the file.
---
 src/buffer/mod.rs               | 22 +++++++++++++++++++---
 src/buffer/operation/group.rs   | 22 +++++++++++++++++++++-
 src/buffer/operation/history.rs |  5 +++++
 3 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index c4b6871..2398d01 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -191,7 +191,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark();
 
         Ok(())
     }
@@ -370,7 +370,23 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        match self.operation_group {
+            // Operations in an open group aren't part of the history yet.
+            Some(ref group) if !group.is_empty() => !group.at_mark(),
+            _ => !self.history.at_mark(),
+        }
+    }
+
+    // Marks the current point in the history, which
+    // may be in the middle of an open operation group.
+    fn mark(&mut self) {
+        match self.operation_group {
+            Some(ref mut group) if !group.is_empty() => {
+                group.mark();
+                self.history.unmark();
+            }
+            _ => self.history.mark(),
+        }
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -419,7 +435,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark();
 
         Ok(())
     }
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index c3e7e27..8de16d3 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -13,6 +13,7 @@ use crate::buffer::Buffer;
 /// buffer type to signal the start and end of a group.
 pub struct OperationGroup {
     operations: Vec<Box<dyn Operation>>,
+    marked_length: Option<usize>,
 }
 
 impl Operation for OperationGroup {
@@ -39,6 +40,7 @@ impl Operation for OperationGroup {
                 .iter()
                 .map(|o| (*o).clone_operation())
                 .collect(),
+            marked_length: self.marked_length,
         })
     }
 }
@@ -48,6 +50,7 @@ impl OperationGroup {
     pub fn new() -> OperationGroup {
         OperationGroup {
             operations: Vec::new(),
+            marked_length: None,
         }
     }
 
@@ -60,6 +63,17 @@ impl OperationGroup {
     pub fn is_empty(&self) -> bool {
         self.operations.is_empty()
     }
+
+    /// Marks the current point in the group. Only
+    /// one point in the group can be marked.
+    pub fn mark(&mut self) {
+        self.marked_length = Some(self.operations.len());
+    }
+
+    /// Returns whether or not the group is at its marked point.
+    pub fn at_mark(&self) -> bool {
+        self.marked_length == Some(self.operations.len())
+    }
 }
 
 impl Buffer {
@@ -83,7 +97,13 @@ impl Buffer {
         // Push an open operation group on to the history stack, if one exists.
         if let Some(group) = self.operation_group.take() {
             if !group.is_empty() {
-                self.history.add(Box::new(group))
+                let at_mark = group.at_mark();
+                self.history.add(Box::new(group));
+
+                // Marking the end of the group marks the history following it.
+                if at_mark {
+                    self.history.mark();
+                }
             }
         }
     }
diff --git a/src/buffer/operation/history.rs b/src/buffer/operation/history.rs
index 288199b..c070104 100644
--- a/src/buffer/operation/history.rs
+++ b/src/buffer/operation/history.rs
@@ -64,6 +64,11 @@ impl History {
         self.marked_position = Some(self.previous.len())
     }
 
+    /// Discards the marked point in the history, if there is one.
+    pub fn unmark(&mut self) {
+        self.marked_position = None
+    }
+
     pub fn at_mark(&self) -> bool {
         if let Some(position) = self.marked_position {
             self.previous.len() == position
-- 
2.43.0


From 9cff5f43bc492c8eb71ff452d3fa3a7bd41153c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 09/12] fix: Always report buffers without a path as modified

Clearing the path of a buffer in sync with its file left it unmodified.
---
 src/buffer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 2398d01..2086d3d 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -370,6 +370,11 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
+        // Without a path, there's nothing for the buffer to be in sync with.
+        if self.path.is_none() {
+            return true;
+        }
+
         match self.operation_group {
             // Operations in an open group aren't part of the history yet.
             Some(ref group) if !group.is_empty() => !group.at_mark(),
-- 
2.43.0


From b20fff240e9a4297064438bce2f66bb7ea9e9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 10/12] fix: Keep token positions accurate when tokens split
 clusters

Positions were advanced by the number of clusters in each token on its own:
a cluster split across two tokens was counted twice, shifting the positions
of all of the tokens following it on that line.
---
 src/buffer/token/token_iterator.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..18d6ed7 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -2,8 +2,9 @@ use crate::buffer::{Lexeme, Position, Token};
 use crate::errors::*;
 use crate::util::LineIterator;
 use std::cmp;
+use std::iter::Peekable;
 use syntect::parsing::{ParseState, ScopeStack, ScopeStackOp, SyntaxReference, SyntaxSet};
-use unicode_segmentation::UnicodeSegmentation;
+use unicode_segmentation::{GraphemeIndices, UnicodeSegmentation};
 
 pub struct TokenIterator<'a> {
     scopes: ScopeStack,
@@ -12,6 +13,7 @@ pub struct TokenIterator<'a> {
     current_line: Option<&'a str>,
     current_byte_offset: usize,
     current_position: Position,
+    line_graphemes: Peekable<GraphemeIndices<'a>>,
     line_events: Vec<(usize, ScopeStackOp)>,
     syntaxes: &'a SyntaxSet,
     pub error: Option<Error>,
@@ -30,6 +32,7 @@ impl<'a> TokenIterator<'a> {
             current_line: None,
             current_byte_offset: 0,
             current_position: Position { line: 0, offset: 0 },
+            line_graphemes: "".grapheme_indices(true).peekable(),
             line_events: Vec::new(),
             syntaxes,
             error: None,
@@ -100,9 +103,15 @@ impl<'a> TokenIterator<'a> {
 
                     // The event/current offsets are byte-based, but
                     // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // Tokens can start and end inside of a cluster,
+                    // which must not be counted more than once.
+                    while self
+                        .line_graphemes
+                        .next_if(|(offset, _)| *offset < end_of_token)
+                        .is_some()
+                    {
+                        self.current_position.offset += 1;
+                    }
 
                     self.current_byte_offset = event_offset;
                 }
@@ -149,6 +158,8 @@ impl<'a> TokenIterator<'a> {
                 offset: 0,
             };
 
+            self.line_graphemes = line.grapheme_indices(true).peekable();
+
             // Reset byte-based line offset.
             self.current_byte_offset = 0;
         } else {
-- 
2.43.0


From effbde7c8c72d7c27c246c430fa47c95cc95e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 11/12] fix: Update the desired column at the end of a trailing
 empty line

Moving to the end of the line was ignored on the empty line following a
trailing newline, unlike on any other empty line: moving up afterwards
went to the column desired before.
---
 src/buffer/cursor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 4d3cb12..9bfc579 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -175,7 +175,8 @@ impl Cursor {
     /// Moves the cursor offset to after the last character on the current line.
     pub fn move_to_end_of_line(&mut self) {
         let data = self.data.borrow().to_string();
-        let current_line = data.lines().nth(self.line);
+        // A trailing newline is followed by one last, empty line.
+        let current_line = data.lines().nth(self.line).or(Some(""));
         if let Some(line) = current_line {
             let new_position = Position {
                 line: self.line,
-- 
2.43.0


From b7b00aeec074cfba423fb02c5bdc5488ba27a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 12/12] fix: Keep the token iterator halted after an error

---
 src/buffer/token/token_iterator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index 18d6ed7..c3b1b1a 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -174,6 +174,11 @@ impl<'a> Iterator for TokenIterator<'a> {
     type Item = Token<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Errors halt the iterator for good.
+        if self.error.is_some() {
+            return None;
+        }
+
         self.next_token()
     }
 }
-- 
2.43.0

