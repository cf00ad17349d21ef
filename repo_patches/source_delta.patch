From cfc81fa9130c07b60d22504d732ec95f14106d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 01/10] fix: a key equal to the lower bound must also satisfy
 the upper bound

in_bounds returned early when a key matched min_value, so a range whose upper
bound lies below (or excludes) its lower bound yielded that key.
---
 src/traverse.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..e0ef08d 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -223,17 +223,18 @@ impl TraverseConfig {
             .partial_cmp(value)
             .expect("partial_cmp never returns none")
         {
-            std::cmp::Ordering::Greater => false,
-            std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
-                .max_value
-                .partial_cmp(value)
-                .expect("partial_cmp never returns none")
-            {
-                std::cmp::Ordering::Greater => true,
-                std::cmp::Ordering::Equal => self.max_inclusive,
-                std::cmp::Ordering::Less => false,
-            },
+            std::cmp::Ordering::Greater => return false,
+            std::cmp::Ordering::Equal if !self.min_inclusive => return false,
+            _ => (),
+        }
+        match self
+            .max_value
+            .partial_cmp(value)
+            .expect("partial_cmp never returns none")
+        {
+            std::cmp::Ordering::Greater => true,
+            std::cmp::Ordering::Equal => self.max_inclusive,
+            std::cmp::Ordering::Less => false,
         }
     }
 }
-- 
2.43.0


From 14971f5f90610a1e25238792760bcc74d80d9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 02/10] fix: accept traverse limits of which one is infinite

Building a TraverseConfig with both limits set was refused whenever one of them
was infinite, also for ranges like (-inf, key], [key, +inf) and (-inf, +inf).
---
 src/traverse.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index e0ef08d..e0cc80c 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -83,11 +83,8 @@ fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(
                     return Ok(());
                 }
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
+            // An infinite limit that is on the right side of the other one
+            _ => return Ok(()),
         },
         (_, _) => return Ok(()),
     }
-- 
2.43.0


From 40c07090c6ebe8bf60823c65d749bbb0345304b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 03/10] fix: do not poll a finished future after a traverse
 error

When building a node's iterator failed (a block that is missing or cannot be
read), the next poll of the stream polled the same future again and panicked.
---
 src/traverse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index e0cc80c..b6127d0 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -405,6 +405,9 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // The future is done and must not be polled again. Without the
+                            // iterator there is nothing to take from this node.
+                            self.iter = Some(Box::pin(0..0));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From 8e9ad4a957ad0553f6ca62152aa2f0d9f8993a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 04/10] fix: an unbounded traversal of a sub covers the keys of
 that sub only

An infinite limit was replaced by a limit made from the prefix without the
separator. Keys that share the prefix but are not in the sub (another sub's, or
plain ones) were yielded with a wrong part cut off, or panicked when too short,
and for an empty prefix or one ending in 0xff the sub's own keys were lost.
---
 src/prefixed.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..25ffae5 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,6 +5,7 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
         LimitValue::{Finite, Infinite},
@@ -135,10 +136,11 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        let start_of_sub = [&self.prefix[..], &self.conf.seperator[..]].concat();
 
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Positive) => (Infinite(Positive), false),
+            Infinite(Negative) => (Finite(start_of_sub.clone()), true),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -146,8 +148,12 @@ impl Prefixed {
         };
 
         let (max_value, max_inclusive) = match &conf.max_value {
-            // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            Infinite(Negative) => (Infinite(Negative), false),
+            // inclusive = false because we don't want to include the end of the sub if it is a key
+            Infinite(Positive) => match end_of_range(&start_of_sub) {
+                Some(end) => (Finite(end), false),
+                None => (Infinite(Positive), false),
+            },
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -176,6 +182,12 @@ impl Prefixed {
     }
 }
 
+/// The least key that is greater than every key starting with `start`, if there is one.
+fn end_of_range(start: &[u8]) -> Option<Vec<u8>> {
+    let n_kept = start.iter().rposition(|b| *b != u8::MAX)? + 1;
+    Some(increment_bytes(&start[..n_kept]))
+}
+
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
     let len = pref.len();
     if len == 0 {
-- 
2.43.0


From 38e34cf8f325f95e8309b7317acd46c02ca8e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 05/10] fix: writes change copies of the cached nodes

put and del edit the nodes on the path in place, and those nodes were the ones
held by the block cache. When the append failed, or the call was cancelled
before it, the cached old version stayed changed: later reads and writes saw
keys that are not in the log. A traversal in progress also saw later writes.

Hand out copies; repair gets the deficient node itself, since fetching it again
would give an unchanged one.
---
 src/blocks.rs | 13 ++++++++++---
 src/del.rs    |  8 ++++----
 src/lib.rs    |  8 +++++++-
 src/tree.rs   |  3 ++-
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..84965c9 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -214,15 +214,22 @@ impl BlockEntry {
 
     /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
     /// offset is the offset of the node within the hypercore block
-    pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
+    ///
+    /// This is a copy, which belongs to the caller. `put` and `del` change the nodes they get in
+    /// place, and the [`BlockEntry`] they came from stays in the cache.
+    pub async fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
+        let node = self
             .nodes
             .get(
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
             .expect("offset *should* always point to a real node")
-            .clone())
+            .read()
+            .await
+            .copy()
+            .await;
+        Ok(Arc::new(RwLock::new(node)))
     }
 }
 
diff --git a/src/del.rs b/src/del.rs
index 8327cbf..77e4147 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -354,16 +354,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has a deficient child, and that child
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -460,7 +460,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
diff --git a/src/lib.rs b/src/lib.rs
index 4592306..11426f5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ impl Children {
             .await
             .get(&seq, self.blocks.clone())
             .await?;
-        let node = block.read().await.get_tree_node(offset)?;
+        let node = block.read().await.get_tree_node(offset).await?;
         Ok(node)
     }
 
@@ -190,6 +190,12 @@ impl Node {
         }
     }
 
+    /// A node equal to this one that can be changed without changing this one
+    async fn copy(&self) -> Self {
+        let children = self.children.children.read().await.clone();
+        Node::new(self.keys.clone(), children, self.blocks.clone())
+    }
+
     pub async fn n_children(&self) -> usize {
         self.children.len().await
     }
diff --git a/src/tree.rs b/src/tree.rs
index b6a0f71..830e627 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -67,7 +67,8 @@ impl Tree {
             .await?
             .read()
             .await
-            .get_tree_node(0)?;
+            .get_tree_node(0)
+            .await?;
         Ok(Some(root))
     }
 
-- 
2.43.0


From 70bab3284224e7a4329a5ef5518529355ed424c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:15 +0000
Subject: [PATCH 06/10] fix: writes through one Hyperbee exclude each other

Two writes in progress at once (the API takes &self) could both start from the
same version; the later append then dropped the other's change and claimed the
other's seq as its own. Two first writes could also both write a header.
---
 src/del.rs  |  1 +
 src/put.rs  |  1 +
 src/tree.rs | 17 +++++++++++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/del.rs b/src/del.rs
index 77e4147..5521612 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -414,6 +414,7 @@ impl Tree {
         key: &[u8],
         compare_and_swap: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
+        let _guard = self.write_lock.lock().await;
         let Some(root) = self.get_root(false).await? else {
             return Ok(None);
         };
diff --git a/src/put.rs b/src/put.rs
index d0bd6c2..a3165f5 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -77,6 +77,7 @@ impl Tree {
         value: Option<&[u8]>,
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
+        let _guard = self.write_lock.lock().await;
         // NB: do this before we call `version` because it can add the header block
         let maybe_root = self.get_root(true).await?;
 
diff --git a/src/tree.rs b/src/tree.rs
index 830e627..f621cbf 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -16,7 +16,7 @@ use std::{
     path::{Path, PathBuf},
     sync::Arc,
 };
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 
 /// A key/value store built on [`hypercore::Hypercore`]. It uses an append only
 /// [B-Tree](https://en.wikipedia.org/wiki/B-tree) and is compatible with the [JavaScript Hyperbee
@@ -25,6 +25,10 @@ use tokio::sync::RwLock;
 #[builder(pattern = "owned", derive(Debug))]
 pub struct Tree {
     pub blocks: Shared<Blocks>,
+    /// Held while writing. A write reads the latest version and appends the next one, no other
+    /// write may come in between.
+    #[builder(default)]
+    pub(crate) write_lock: Arc<Mutex<()>>,
 }
 
 impl Tree {
@@ -106,7 +110,7 @@ impl Tree {
 
     /// Ensure the tree has a header
     async fn ensure_header(&self) -> Result<bool, HyperbeeError> {
-        match self.create_header(None).await {
+        match self.write_header(None).await {
             Ok(_) => Ok(true),
             Err(e) => match e {
                 HyperbeeError::HeaderAlreadyExists => Ok(false),
@@ -120,6 +124,14 @@ impl Tree {
     pub async fn create_header(
         &self,
         metadata: Option<Metadata>,
+    ) -> Result<AppendOutcome, HyperbeeError> {
+        let _guard = self.write_lock.lock().await;
+        self.write_header(metadata).await
+    }
+
+    async fn write_header(
+        &self,
+        metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
         if self.blocks.read().await.info().await.length != 0 {
             return Err(HyperbeeError::HeaderAlreadyExists);
@@ -194,6 +206,7 @@ impl Clone for Tree {
     fn clone(&self) -> Self {
         Self {
             blocks: self.blocks.clone(),
+            write_lock: self.write_lock.clone(),
         }
     }
 }
-- 
2.43.0


From 46518d62dd3f2ee7c88fe6bcf3c3e3eebb9d3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 07/10] fix: report malformed blocks as errors instead of
 panicking

---
 src/blocks.rs | 15 +++++++++++----
 src/error.rs  |  4 ++++
 src/lib.rs    |  5 ++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 84965c9..fe0e6b3 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -178,18 +178,25 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
 
 /// Deserialize bytes from a Hypercore block into [`Node`]s.
 fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
+    YoloIndex::decode(buf)?
         .levels
         .iter()
         .map(|level| {
             let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
             let mut children = vec![];
+            if level.children.len() % 2 != 0 {
+                return Err(DecodeError::new("a child without an offset"));
+            }
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
+            Ok(Arc::new(RwLock::new(Node::new(
+                keys,
+                children,
+                blocks.clone(),
+            ))))
         })
-        .collect())
+        .collect()
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
@@ -224,7 +231,7 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
+            .ok_or(HyperbeeError::NoNodeAtOffsetError(offset))?
             .read()
             .await
             .copy()
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..df3f4f9 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,6 +21,10 @@ pub enum HyperbeeError {
     DecodeError(#[from] DecodeError),
     #[error("No block at seq  `{0}`")]
     NoBlockAtSeqError(u64),
+    #[error("No tree node at offset `{0}` of a block")]
+    NoNodeAtOffsetError(u64),
+    #[error("A tree node has no child at index `{0}`")]
+    NoChildAtIndexError(usize),
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
diff --git a/src/lib.rs b/src/lib.rs
index 11426f5..b1fbb09 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -134,7 +134,10 @@ impl Children {
     #[tracing::instrument(skip(self))]
     async fn get_child(&self, index: usize) -> Result<Shared<Node>, HyperbeeError> {
         let (seq, offset) = {
-            let child_ref = &self.children.read().await[index].clone();
+            let children = self.children.read().await;
+            let child_ref = children
+                .get(index)
+                .ok_or(HyperbeeError::NoChildAtIndexError(index))?;
             (child_ref.seq, child_ref.offset)
         };
         let block = self
-- 
2.43.0


From 6d6b25009a37c92528dde0fb17b23ac80e975444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:42 +0000
Subject: [PATCH 08/10] fix: hb_get reports missing keys, keys without value
 and errors to the callback

---
 src/external.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..6bc94a1 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -18,7 +18,9 @@ type HyperbeePointer = *mut Hyperbee;
 type HbDiskPointer = HyperbeePointer;
 
 /// Type of callback we pass results to
+/// error_code != 0 means the lookup failed, error_message tells why
 /// seq == 0 means the key was not found
+/// value_buff == NULL means there is no value
 pub type HbGetResultCallback = unsafe extern "C" fn(
     error_code: i64,
     error_message: *const c_char,
@@ -48,6 +50,9 @@ unsafe extern "C" fn deallocate_rust_string(ptr: *mut c_char) {
 /// https://stackoverflow.com/questions/39224904/how-to-expose-a-rust-vect-to-ffi/39270881#39270881
 #[no_mangle]
 unsafe extern "C" fn deallocate_rust_buffer(ptr: *mut u8, len: size_t) {
+    if ptr.is_null() {
+        return;
+    }
     drop(Vec::from_raw_parts(ptr, len, len));
 }
 
@@ -134,17 +139,15 @@ pub extern "C" fn hb_get(
     let rkey = vec_from_c_vec(key_buff, key_size);
 
     rt.spawn(async move {
-        match hb.get(&rkey).await {
-            Ok(Some((seq, Some(value)))) => {
-                let (vec, size) = c_vec_from_vec(value);
-                let no_error_msg = CString::new("").unwrap().into_raw();
-                unsafe {
-                    callback(0, no_error_msg, seq, vec, size);
-                }
-            }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+        let (error_code, error_msg, seq, value) = match hb.get(&rkey).await {
+            Ok(Some((seq, value))) => (0, CString::default(), seq, value),
+            Ok(None) => (0, CString::default(), 0, None),
+            Err(e) => (1, CString::new(e.to_string()).unwrap_or_default(), 0, None),
         };
+        let (vec, size) = value.map_or((ptr::null_mut(), 0), c_vec_from_vec);
+        unsafe {
+            callback(error_code, error_msg.into_raw(), seq, vec, size);
+        }
     });
     0
 }
-- 
2.43.0


From bd77ad295301874e86c003ba4b19117481ecbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 09/10] fix: the C interface refuses a path that is not UTF-8
 instead of opening another one

---
 src/external.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.rs b/src/external.rs
index 6bc94a1..467a4d9 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -60,7 +60,7 @@ pub fn string_from_c_str(c_str: *const c_char) -> Option<String> {
     if c_str.is_null() {
         return None;
     }
-    unsafe { Some(CStr::from_ptr(c_str).to_string_lossy().into_owned()) }
+    unsafe { CStr::from_ptr(c_str).to_str().ok().map(str::to_owned) }
 }
 
 /// Initialize the async runtime
-- 
2.43.0


From 3c65f556dc309d17c34b0b0ee19a710bf266b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:32 +0000
Subject: [PATCH 10/10] fix: hb_get takes a NULL key of length 0 as the empty
 key

---
 src/external.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/external.rs b/src/external.rs
index 467a4d9..b63fa4b 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -122,6 +122,10 @@ pub extern "C" fn hyperbee_from_storage_directory(
 }
 
 fn vec_from_c_vec(bytes: *const c_uchar, bytes_length: size_t) -> Vec<u8> {
+    // C represents an empty buffer with NULL too
+    if bytes_length == 0 {
+        return vec![];
+    }
     let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
     Vec::from(bytes)
 }
-- 
2.43.0

