From 0f7791d38060f95f0bf48379e415d58ae538c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 1/8] Add verification hooks behind --cfg congee_verif

---
 src/base_node.rs |  3 +++
 src/lib.rs       | 13 ++++++++++++
 src/lock.rs      | 28 +++++++++++++++++++------
 src/node_16.rs   |  5 +++++
 src/node_256.rs  |  3 +++
 src/node_4.rs    |  5 +++++
 src/node_48.rs   |  4 ++++
 src/utils.rs     |  1 +
 src/verif.rs     | 53 ++++++++++++++++++++++++++++++++++++++++++++++++
 9 files changed, 109 insertions(+), 6 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/base_node.rs b/src/base_node.rs
index 3b3c385..5a224b9 100644
--- a/src/base_node.rs
+++ b/src/base_node.rs
@@ -120,6 +120,7 @@ macro_rules! gen_method {
     ($method_name:ident, ($($arg_n:ident : $args:ty),*), $return:ty) => {
         impl BaseNode {
             pub(crate) fn $method_name(&self, $($arg_n : $args),*) -> $return {
+                verif_point!(Access, self);
                 match self.get_type() {
                     NodeType::N4 => {
                         let node = self.as_n4();
@@ -274,6 +275,7 @@ impl BaseNode {
     }
 
     fn read_lock_inner<'a>(node: NonNull<BaseNode>) -> Result<ReadGuard<'a>, ArtError> {
+        verif_point!(ReadLock, node.as_ptr());
         let version = unsafe { node.as_ref() }
             .type_version_lock_obsolete
             .load(Ordering::Acquire);
@@ -284,6 +286,7 @@ impl BaseNode {
             return Err(ArtError::Locked);
         }
 
+        verif_point!(ReadLocked, node.as_ptr());
         Ok(ReadGuard::new(version, node))
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 619312b..c44deb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,19 @@
 #![allow(clippy::comparison_chain)]
 #![allow(clippy::len_without_is_empty)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
+
+/// Reports a step to the verification hook; expands to nothing without `--cfg congee_verif`.
+macro_rules! verif_point {
+    ($site:ident, $node:expr) => {
+        #[cfg(congee_verif)]
+        crate::verif::point(crate::verif::Site::$site, $node as *const _);
+    };
+}
+
+#[cfg(congee_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 mod base_node;
 mod error;
diff --git a/src/lock.rs b/src/lock.rs
index 6bab45c..9f3a463 100644
--- a/src/lock.rs
+++ b/src/lock.rs
@@ -17,6 +17,7 @@ impl<'a, T: Node> TypedReadGuard<'a, T> {
     }
 
     pub(crate) fn upgrade(self) -> Result<TypedWriteGuard<'a, T>, (Self, ArtError)> {
+        verif_point!(Upgrade, self.node);
         let new_version = self.version + 0b10;
         match self
             .as_ref()
@@ -28,9 +29,12 @@ impl<'a, T: Node> TypedReadGuard<'a, T> {
                 Ordering::Release,
                 Ordering::Relaxed,
             ) {
-            Ok(_) => Ok(TypedWriteGuard {
-                node: unsafe { &mut *(self.node as *mut T) },
-            }),
+            Ok(_) => {
+                verif_point!(Upgraded, self.node);
+                Ok(TypedWriteGuard {
+                    node: unsafe { &mut *(self.node as *mut T) },
+                })
+            }
             Err(_v) => {
                 #[cfg(all(feature = "shuttle", test))]
                 shuttle::thread::yield_now();
@@ -54,6 +58,7 @@ impl<T: Node> TypedWriteGuard<'_, T> {
     }
 
     pub(crate) fn mark_obsolete(&self) {
+        verif_point!(Obsolete, self.node);
         self.node
             .base()
             .type_version_lock_obsolete
@@ -63,10 +68,12 @@ impl<T: Node> TypedWriteGuard<'_, T> {
 
 impl<T: Node> Drop for TypedWriteGuard<'_, T> {
     fn drop(&mut self) {
+        verif_point!(Unlock, self.node);
         self.node
             .base()
             .type_version_lock_obsolete
             .fetch_add(0b10, Ordering::Release);
+        verif_point!(Unlocked, self.node);
     }
 }
 
@@ -86,10 +93,12 @@ impl<'a> ReadGuard<'a> {
     }
 
     pub(crate) fn check_version(&self) -> Result<usize, ArtError> {
+        verif_point!(Check, self.node.as_ptr());
         let v = self
             .as_ref()
             .type_version_lock_obsolete
             .load(Ordering::Acquire);
+        verif_point!(Checked, self.node.as_ptr());
 
         if v == self.version {
             Ok(v)
@@ -120,6 +129,7 @@ impl<'a> ReadGuard<'a> {
     }
 
     pub(crate) fn upgrade(self) -> Result<WriteGuard<'a>, (Self, ArtError)> {
+        verif_point!(Upgrade, self.node.as_ptr());
         let new_version = self.version + 0b10;
         match self
             .as_ref()
@@ -130,9 +140,12 @@ impl<'a> ReadGuard<'a> {
                 Ordering::Release,
                 Ordering::Relaxed,
             ) {
-            Ok(_) => Ok(WriteGuard {
-                node: unsafe { &mut *(self.node.as_ptr()) },
-            }),
+            Ok(_) => {
+                verif_point!(Upgraded, self.node.as_ptr());
+                Ok(WriteGuard {
+                    node: unsafe { &mut *(self.node.as_ptr()) },
+                })
+            }
             Err(_v) => {
                 #[cfg(all(feature = "shuttle", test))]
                 shuttle::thread::yield_now();
@@ -156,6 +169,7 @@ impl WriteGuard<'_> {
     }
 
     pub(crate) fn mark_obsolete(&mut self) {
+        verif_point!(Obsolete, self.node);
         self.node
             .type_version_lock_obsolete
             .fetch_add(0b01, Ordering::Release);
@@ -164,8 +178,10 @@ impl WriteGuard<'_> {
 
 impl Drop for WriteGuard<'_> {
     fn drop(&mut self) {
+        verif_point!(Unlock, self.node);
         self.node
             .type_version_lock_obsolete
             .fetch_add(0b10, Ordering::Release);
+        verif_point!(Unlocked, self.node);
     }
 }
diff --git a/src/node_16.rs b/src/node_16.rs
index d52ea4f..7465d79 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -94,8 +94,10 @@ impl Node for Node16 {
 
         self.keys
             .copy_within(pos + 1..self.base.meta.count as usize, pos);
+        verif_point!(Torn, self);
         self.children
             .copy_within(pos + 1..self.base.meta.count as usize, pos);
+        verif_point!(Torn, self);
 
         self.base.meta.count -= 1;
         debug_assert!(self.get_child(k).is_none());
@@ -122,12 +124,15 @@ impl Node for Node16 {
         if pos < self.base.meta.count as usize {
             self.keys
                 .copy_within(pos..self.base.meta.count as usize, pos + 1);
+            verif_point!(Torn, self);
             self.children
                 .copy_within(pos..self.base.meta.count as usize, pos + 1);
         }
+        verif_point!(Torn, self);
 
         self.keys[pos] = key;
         self.children[pos] = node;
+        verif_point!(Torn, self);
         self.base.meta.count += 1;
 
         assert!(self.base.meta.count <= 16);
diff --git a/src/node_256.rs b/src/node_256.rs
index 646f3e3..ac085fe 100644
--- a/src/node_256.rs
+++ b/src/node_256.rs
@@ -101,7 +101,9 @@ impl Node for Node256 {
 
     fn insert(&mut self, key: u8, node: NodePtr) {
         self.children[key as usize] = node;
+        verif_point!(Torn, self);
         self.set_mask(key as usize);
+        verif_point!(Torn, self);
         self.base.meta.count += 1;
     }
 
@@ -113,6 +115,7 @@ impl Node for Node256 {
 
     fn remove(&mut self, k: u8) {
         self.unset_mask(k as usize);
+        verif_point!(Torn, self);
         self.base.meta.count -= 1;
     }
 
diff --git a/src/node_4.rs b/src/node_4.rs
index bdfb735..e69a6cf 100644
--- a/src/node_4.rs
+++ b/src/node_4.rs
@@ -53,8 +53,10 @@ impl Node for Node4 {
         if let Some(pos) = self.keys.iter().position(|&key| key == k) {
             self.keys
                 .copy_within(pos + 1..self.base.meta.count as usize, pos);
+            verif_point!(Torn, self);
             self.children
                 .copy_within(pos + 1..self.base.meta.count as usize, pos);
+            verif_point!(Torn, self);
 
             self.base.meta.count -= 1;
         }
@@ -99,12 +101,15 @@ impl Node for Node4 {
         if pos < self.base.meta.count as usize {
             self.keys
                 .copy_within(pos..self.base.meta.count as usize, pos + 1);
+            verif_point!(Torn, self);
             self.children
                 .copy_within(pos..self.base.meta.count as usize, pos + 1);
         }
+        verif_point!(Torn, self);
 
         self.keys[pos] = key;
         self.children[pos] = node;
+        verif_point!(Torn, self);
         self.base.meta.count += 1;
     }
 
diff --git a/src/node_48.rs b/src/node_48.rs
index 91b6133..2090890 100644
--- a/src/node_48.rs
+++ b/src/node_48.rs
@@ -67,7 +67,9 @@ impl Node for Node48 {
         debug_assert!(self.child_idx[k as usize] != EMPTY_MARKER);
         let pos = self.child_idx[k as usize];
         self.children[pos as usize] = NodePtr::from_payload(self.next_empty as usize);
+        verif_point!(Torn, self);
         self.child_idx[k as usize] = EMPTY_MARKER;
+        verif_point!(Torn, self);
         self.next_empty = pos;
         self.base.meta.count -= 1;
         debug_assert!(self.get_child(k).is_none());
@@ -104,7 +106,9 @@ impl Node for Node48 {
         debug_assert!(pos < 48);
 
         self.children[pos] = node;
+        verif_point!(Torn, self);
         self.child_idx[key as usize] = pos as u8;
+        verif_point!(Torn, self);
         self.base.meta.count += 1;
     }
 
diff --git a/src/utils.rs b/src/utils.rs
index 0770ce1..18688d4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -26,6 +26,7 @@ impl Backoff {
 
     #[inline]
     pub(crate) fn spin(&self) {
+        verif_point!(Spin, std::ptr::null::<u8>());
         for _ in 0..1 << self.step.get().min(SPIN_LIMIT) {
             std::hint::spin_loop();
         }
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..1607372
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,53 @@
+//! Verification hooks, compiled in only with `--cfg congee_verif`.
+//!
+//! A hook is told about every step of the optimistic locking protocol (with the
+//! address of the node concerned) so that a test harness can decide which thread
+//! runs next and observe which nodes are touched.
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+#[derive(Clone, Copy, PartialEq, Eq, Debug)]
+#[repr(u8)]
+pub enum Site {
+    /// About to load the version word for a read lock.
+    ReadLock = 0,
+    /// The node is read locked.
+    ReadLocked = 1,
+    /// About to validate the version of a read-locked node.
+    Check = 2,
+    /// The validation loaded the version word.
+    Checked = 3,
+    /// About to upgrade a read lock to the write lock.
+    Upgrade = 4,
+    /// The write lock is held.
+    Upgraded = 5,
+    /// About to mark a write-locked node obsolete.
+    Obsolete = 6,
+    /// About to release the write lock.
+    Unlock = 7,
+    /// The write lock is released.
+    Unlocked = 8,
+    /// About to read children of a node.
+    Access = 9,
+    /// In the middle of modifying the content of a write-locked node.
+    Torn = 10,
+    /// About to back off before a retry.
+    Spin = 11,
+}
+
+pub type Hook = fn(Site, usize);
+
+static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Installs (or removes) the process-wide hook.
+pub fn set_hook(hook: Option<Hook>) {
+    HOOK.store(hook.map_or(0, |h| h as usize), Ordering::SeqCst);
+}
+
+#[inline]
+pub(crate) fn point<T>(site: Site, node: *const T) {
+    let h = HOOK.load(Ordering::Relaxed);
+    if h != 0 {
+        let hook: Hook = unsafe { std::mem::transmute::<usize, Hook>(h) };
+        hook(site, node as *const u8 as usize);
+    }
+}
-- 
2.43.0


From d6ec63facc56356b0c4518266a41f68cd98ce18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 2/8] verif hooks: report child iteration, re-export the
 allocation error

---
 src/node_16.rs  | 1 +
 src/node_256.rs | 1 +
 src/node_4.rs   | 1 +
 src/node_48.rs  | 1 +
 src/verif.rs    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/node_16.rs b/src/node_16.rs
index 7465d79..e997cf1 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -49,6 +49,7 @@ impl Iterator for Node16Iter<'_> {
     type Item = (u8, NodePtr);
 
     fn next(&mut self) -> Option<Self::Item> {
+        verif_point!(Access, self.node);
         if self.start_pos > self.end_pos {
             return None;
         }
diff --git a/src/node_256.rs b/src/node_256.rs
index ac085fe..5eed822 100644
--- a/src/node_256.rs
+++ b/src/node_256.rs
@@ -51,6 +51,7 @@ impl Iterator for Node256Iter<'_> {
     type Item = (u8, NodePtr);
 
     fn next(&mut self) -> Option<Self::Item> {
+        verif_point!(Access, self.node);
         loop {
             let cur = self.idx + self.start as u16;
 
diff --git a/src/node_4.rs b/src/node_4.rs
index e69a6cf..3420802 100644
--- a/src/node_4.rs
+++ b/src/node_4.rs
@@ -29,6 +29,7 @@ impl Iterator for Node4Iter<'_> {
     type Item = (u8, NodePtr);
 
     fn next(&mut self) -> Option<Self::Item> {
+        verif_point!(Access, self.node);
         loop {
             if self.idx >= self.cnt {
                 return None;
diff --git a/src/node_48.rs b/src/node_48.rs
index 2090890..aaf5ab8 100644
--- a/src/node_48.rs
+++ b/src/node_48.rs
@@ -42,6 +42,7 @@ impl Iterator for Node48Iter<'_> {
     type Item = (u8, NodePtr);
 
     fn next(&mut self) -> Option<Self::Item> {
+        verif_point!(Access, self.node);
         loop {
             if self.start > self.end {
                 return None;
diff --git a/src/verif.rs b/src/verif.rs
index 1607372..72eed27 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -3,6 +3,7 @@
 //! A hook is told about every step of the optimistic locking protocol (with the
 //! address of the node concerned) so that a test harness can decide which thread
 //! runs next and observe which nodes are touched.
+pub use crate::error::OOMError;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
-- 
2.43.0


From c32f7ba6d537d402301e9ffc67c02c0594f80ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 3/8] fix: give a node that never became part of the tree back
 to the allocator

A split that ran out of memory at its second allocation, and a panic of the
closure while a fresh node was under construction, leaked that node: dropping
AllocatedNode only dropped its content.
---
 src/base_node.rs |  7 ++++---
 src/node_ptr.rs  | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/base_node.rs b/src/base_node.rs
index 5a224b9..11840ba 100644
--- a/src/base_node.rs
+++ b/src/base_node.rs
@@ -199,10 +199,10 @@ impl BaseNode {
         }
     }
 
-    pub(crate) fn make_node<N: Node>(
+    pub(crate) fn make_node<'a, N: Node>(
         prefix: &[u8],
-        allocator: &impl Allocator,
-    ) -> Result<AllocatedNode<N>, ArtError> {
+        allocator: &'a impl Allocator,
+    ) -> Result<AllocatedNode<'a, N>, ArtError> {
         let layout = N::get_type().node_layout();
         let ptr = allocator
             .allocate_zeroed(layout)
@@ -219,6 +219,7 @@ impl BaseNode {
 
             Ok(AllocatedNode::new(
                 NonNull::new(base_ptr as *mut N).unwrap(),
+                allocator,
             ))
         }
     }
diff --git a/src/node_ptr.rs b/src/node_ptr.rs
index 87e29e0..26e27cc 100644
--- a/src/node_ptr.rs
+++ b/src/node_ptr.rs
@@ -3,6 +3,7 @@ use std::{fmt::Debug, ptr::NonNull};
 use crate::{
     base_node::{BaseNode, Node},
     utils::KeyTracker,
+    Allocator,
 };
 
 pub(crate) struct ChildIsPayload<'a> {
@@ -88,13 +89,15 @@ impl NodePtr {
     }
 }
 
-pub(crate) struct AllocatedNode<N: Node> {
+/// A node that is not yet part of the tree; dropping it gives its memory back to the allocator.
+pub(crate) struct AllocatedNode<'a, N: Node> {
     ptr: NonNull<N>,
+    allocator: &'a dyn Allocator,
 }
 
-impl<N: Node> AllocatedNode<N> {
-    pub(crate) fn new(ptr: NonNull<N>) -> Self {
-        Self { ptr }
+impl<'a, N: Node> AllocatedNode<'a, N> {
+    pub(crate) fn new(ptr: NonNull<N>, allocator: &'a dyn Allocator) -> Self {
+        Self { ptr, allocator }
     }
 
     pub(crate) fn as_mut(&mut self) -> &mut N {
@@ -114,10 +117,12 @@ impl<N: Node> AllocatedNode<N> {
     }
 }
 
-impl<N: Node> Drop for AllocatedNode<N> {
+impl<N: Node> Drop for AllocatedNode<'_, N> {
     fn drop(&mut self) {
         unsafe {
             std::ptr::drop_in_place(self.ptr.as_mut());
+            self.allocator
+                .deallocate(self.ptr.cast(), N::get_type().node_layout());
         }
     }
 }
-- 
2.43.0


From 2443e6f8617adbedaaeb77a3b83bbe4893ed439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 4/8] fix: report a failed allocation of the default allocator
 instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c44deb0..e397685 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -74,7 +74,7 @@ impl Allocator for DefaultAllocator {
     fn allocate(&self, layout: std::alloc::Layout) -> Result<std::ptr::NonNull<[u8]>, OOMError> {
         let ptr = unsafe { std::alloc::alloc(layout) };
         let ptr_slice = std::ptr::slice_from_raw_parts_mut(ptr, layout.size());
-        Ok(std::ptr::NonNull::new(ptr_slice).unwrap())
+        std::ptr::NonNull::new(ptr_slice).ok_or_else(OOMError::new)
     }
 
     unsafe fn deallocate(&self, ptr: std::ptr::NonNull<u8>, layout: std::alloc::Layout) {
-- 
2.43.0


From c33f6368736e52d65b2417e136e3f43dd910d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 5/8] fix: is_empty is true once every key is removed, also
 when emptied inner nodes remain

---
 src/tree.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index a25157f..47accad 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -100,14 +100,46 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     pub(crate) fn is_empty(&self, _guard: &Guard) -> bool {
+        let backoff = Backoff::new();
         loop {
-            if let Ok(node) = BaseNode::read_lock_root(self.root) {
-                let is_empty = node.as_ref().meta.count == 0;
-                if node.check_version().is_ok() {
-                    return is_empty;
+            if let Ok(is_empty) = self.is_empty_inner() {
+                return is_empty;
+            }
+            backoff.spin();
+        }
+    }
+
+    /// Inner nodes stay in the tree after their last child is gone, so the tree is
+    /// empty only if no node holds a value.
+    fn is_empty_inner(&self) -> Result<bool, ArtError> {
+        let mut visited = Vec::new();
+        if !Self::holds_no_value(BaseNode::read_lock_root(self.root)?, &mut visited)? {
+            return Ok(false);
+        }
+        for node in visited.iter() {
+            node.check_version()?;
+        }
+        Ok(true)
+    }
+
+    fn holds_no_value<'a>(
+        node: ReadGuard<'a>,
+        visited: &mut Vec<ReadGuard<'a>>,
+    ) -> Result<bool, ArtError> {
+        let level = node.as_ref().prefix().len();
+        for (_k, child) in node.as_ref().get_children(0, 255) {
+            node.check_version()?;
+            match child.downcast::<K_LEN>(level) {
+                PtrType::Payload(_) => return Ok(false),
+                PtrType::SubNode(sub_node) => {
+                    if !Self::holds_no_value(BaseNode::read_lock(sub_node)?, visited)? {
+                        return Ok(false);
+                    }
                 }
             }
         }
+        visited.push(node);
+        Ok(true)
     }
 
     #[inline]
-- 
2.43.0


From 3b525e5719852c1f418cea8da182c4862863e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 6/8] fix: a range scan checks the version of a node after it
 looked at its last child

---
 src/range_scan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/range_scan.rs b/src/range_scan.rs
index 401a3c1..2c90976 100644
--- a/src/range_scan.rs
+++ b/src/range_scan.rs
@@ -106,10 +106,12 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                                 return Ok(self.result_found);
                             }
                         }
+                        node.check_version()?;
                     } else {
                         let next_node_tmp = if let Some(n) = node.as_ref().get_child(start_level) {
                             n
                         } else {
+                            node.check_version()?;
                             return Ok(0);
                         };
                         node.check_version()?;
@@ -193,6 +195,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => {
@@ -251,6 +254,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => Ok(()),
@@ -299,6 +303,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
 
                     key_tracker.pop();
                 }
+                node.check_version()?;
             }
         };
 
-- 
2.43.0


From 4c59f73ad32cb9652e919bd33df7ca9364883aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 7/8] fix: stats takes its epoch guard first and starts over
 when a concurrent writer interferes

---
 src/stats.rs | 28 +++++++++++++++-------------
 src/tree.rs  |  5 +++--
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/stats.rs b/src/stats.rs
index a4a0af9..13157ed 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -1,7 +1,8 @@
-use std::{collections::HashMap, fmt::Display, ptr::NonNull};
+use std::{collections::HashMap, fmt::Display};
 
 use crate::{
-    base_node::{BaseNode, NodeType},
+    base_node::NodeType,
+    lock::ReadGuard,
     tree::{CongeeVisitor, RawCongee},
     Allocator,
 };
@@ -125,9 +126,7 @@ struct StatsVisitor {
 }
 
 impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
-    fn pre_visit_sub_node(&mut self, node: NonNull<BaseNode>, tree_level: usize) {
-        let node = BaseNode::read_lock(node).unwrap();
-
+    fn pre_visit_sub_node(&mut self, node: &ReadGuard, tree_level: usize) {
         self.node_stats
             .levels
             .entry(tree_level)
@@ -197,14 +196,17 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     /// Returns the node stats for the tree.
     pub fn stats(&self) -> NodeStats {
-        let mut visitor = StatsVisitor {
-            node_stats: NodeStats::default(),
-        };
-
-        self.dfs_visitor_slow(&mut visitor).unwrap();
         let pin = crossbeam_epoch::pin();
-        visitor.node_stats.kv_pairs = self.value_count(&pin);
-
-        visitor.node_stats
+        loop {
+            let mut visitor = StatsVisitor {
+                node_stats: NodeStats::default(),
+            };
+
+            // a concurrent writer makes the visit fail, start over
+            if self.dfs_visitor_slow(&mut visitor).is_ok() {
+                visitor.node_stats.kv_pairs = self.value_count(&pin);
+                return visitor.node_stats;
+            }
+        }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index 47accad..f0feeb6 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -37,7 +37,7 @@ impl<const K_LEN: usize> Default for RawCongee<K_LEN> {
 
 pub(crate) trait CongeeVisitor<const K_LEN: usize> {
     fn visit_payload(&mut self, _key: [u8; K_LEN], _payload: usize) {}
-    fn pre_visit_sub_node(&mut self, _node: NonNull<BaseNode>, _tree_level: usize) {}
+    fn pre_visit_sub_node(&mut self, _node: &ReadGuard, _tree_level: usize) {}
     fn post_visit_sub_node(&mut self, _node: NonNull<BaseNode>, _tree_level: usize) {}
 }
 
@@ -213,10 +213,11 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                 visitor.visit_payload(k, v);
             }
             VisitingEntry::SubNode(node_ptr) => {
-                visitor.pre_visit_sub_node(node_ptr, tree_level);
                 let node_lock = BaseNode::read_lock(node_ptr)?;
+                visitor.pre_visit_sub_node(&node_lock, tree_level);
                 let children = node_lock.as_ref().get_children(0, 255);
                 for (k, child_ptr) in children {
+                    node_lock.check_version()?;
                     let next = match child_ptr.downcast::<K_LEN>(node_lock.as_ref().prefix().len())
                     {
                         PtrType::Payload(tid) => {
-- 
2.43.0


From 9d632d4f27ed7b8d75322236eeb8a1573643761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:21 +0000
Subject: [PATCH 8/8] hooks: keep verification points type-checked when the
 guard is off, add congee_verif_silent

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e397685..f432409 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,10 +4,15 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![allow(unexpected_cfgs)]
 
-/// Reports a step to the verification hook; expands to nothing without `--cfg congee_verif`.
+/// Reports a step to the verification hook; does nothing without `--cfg congee_verif`, but is
+/// type-checked all the same. `--cfg congee_verif_silent` keeps the hook from being called.
 macro_rules! verif_point {
     ($site:ident, $node:expr) => {
-        #[cfg(congee_verif)]
+        #[cfg(not(congee_verif))]
+        if false {
+            let _ = std::ptr::eq($node as *const _, std::ptr::null());
+        }
+        #[cfg(all(congee_verif, not(congee_verif_silent)))]
         crate::verif::point(crate::verif::Site::$site, $node as *const _);
     };
 }
-- 
2.43.0

