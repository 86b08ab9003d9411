From 06dd7a7cf239b255e3ab10f4370c5dd87f51f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 1/5] fix: keep links consistent when a node is inserted where
 it already is

---
 src/dynamic/hierarchy.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..298ec83 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -802,6 +802,13 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // If the range is already adjacent to its destination, nothing changes.
+        // The nodes must not be detached in such case, since `prev_sibling` or
+        // `next_sibling` is in the range being moved.
+        if prev_sibling == Some(self.last) || next_sibling == Some(self.first) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
-- 
2.43.0


From f2dfb454cbc6e474ed231f9560354239f85f43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 2/5] fix: return SiblingsWithoutParent when a sibling is
 inserted next to a root node

---
 src/dynamic/hierarchy.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 298ec83..7d01182 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -414,11 +414,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -427,9 +428,10 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
         let next_nbs = self
             .neighbors(next_sibling)
             .expect("[precondition] the next sibling must be alive");
-        let parent = next_nbs
-            .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+        let parent = match next_nbs.parent() {
+            Some(v) => v,
+            None => return Err(StructureError::SiblingsWithoutParent),
+        };
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -445,11 +447,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -458,9 +461,10 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
         let prev_nbs = self
             .neighbors(prev_sibling)
             .expect("[precondition] the previous sibling must be alive");
-        let parent = prev_nbs
-            .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+        let parent = match prev_nbs.parent() {
+            Some(v) => v,
+            None => return Err(StructureError::SiblingsWithoutParent),
+        };
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0


From 22e1e75a7164e9e53c7f920b2f196a69e83cf415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 3/5] fix: panic as documented when a node to be removed is not
 alive

---
 src/dynamic/forest.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index f02d8b4..6c682de 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -771,9 +771,6 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
@@ -886,9 +883,6 @@ impl<Id: NodeId, T> Forest<Id, T> {
             node: InternalId,
             mut f: F,
         ) {
-            if !hierarchy.is_alive(node) {
-                return;
-            }
             hierarchy.detach(node);
 
             let mut traverser = SafeModeDepthFirstTraverser::new(node, hierarchy);
-- 
2.43.0


From fc6fa3d8522cc86ba320648c8fa6f8b9fbc86431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 4/5] fix: align multi-line contents in debug printing

---
 src/dynamic/forest/debug_print.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..ea8030f 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -141,9 +141,21 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
+        // Trailing indents that consist of only whitespaces are not yet written
+        // at all by `write_indent_partial()`.
+        let num_unwritten = self
+            .indents
+            .iter()
+            .rev()
+            .take_while(|i| i.is_all_whitespace())
+            .count();
+        let (partial, unwritten) = self.indents.split_at(self.indents.len() - num_unwritten);
+        if let Some(indent) = partial.last() {
             self.fmt.write_str(indent.as_str_trailing_spaces())?;
         }
+        for indent in unwritten {
+            self.fmt.write_str(indent.as_str())?;
+        }
 
         Ok(())
     }
@@ -160,12 +172,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -181,6 +188,9 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0


From cd04319647ddd21af25622ad3eda846b25bc7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 5/5] fix: print nodes with empty contents in debug printing

---
 src/dynamic/forest/debug_print.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index ea8030f..ee2cc97 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -84,7 +84,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item has no indent to write.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
         }
     }
@@ -106,6 +107,9 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        // Start the line here, since the item may have empty content.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
 
         Ok(())
     }
-- 
2.43.0

