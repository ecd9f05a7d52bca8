From f89009904c106ddd1edf3dd7282911ecf50b66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 01/15] fix: reject update proofs whose leaf is not on the path
 of the inserted key

verify_update accepted, or panicked on, a proof whose leaf lies in another
subtree than the key it inserts: the split case never checked that the key
would have ended up at that leaf.
---
 src/types/proof/definition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..7c78ae6 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -331,6 +331,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                         // Step 3: we compute the new Merkle root
                         Ok(new_merkle_path.root_hash())
                     } else {
+                        // The key is about to split this leaf: check that it would indeed have
+                        // ended up in the subtree whose only key is the one of this leaf.
+                        self.verify_nonexistence(old_root_hash, new_element_key)?;
+
                         let new_merkle_path = self.compute_new_merkle_path_on_split(
                             leaf_node,
                             new_element_key,
-- 
2.43.0


From 5c6c10dd99cbe47ca38d372ef68ffeceff0ebdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 02/15] fix: reject update and range proofs with more than 256
 siblings

Both verifiers underflowed on such a proof instead of returning an error.
---
 src/types/proof/definition.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 7c78ae6..2da8e95 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -308,6 +308,13 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         new_element_key: KeyHash,
         new_element_value: Option<V>,
     ) -> Result<RootHash> {
+        ensure!(
+            self.siblings.len() <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            self.siblings.len(),
+        );
+
         if let Some(new_element_value) = new_element_value {
             // A value have been supplied, we need to prove that we inserted a given value at the new key
 
@@ -658,6 +665,12 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From ab845c1f8d6f0291b1a821f6fe6e1d20b24242e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 03/15] fix: prove the absence of the key when a deletion
 changes nothing

The proof of a deletion that changes nothing was empty, and verify_update
accepted an empty proof for the deletion of any key, also of one that is in the
tree. Return the absence proof of the key instead, and verify it.
---
 src/tree.rs                   | 25 +++++++------------------
 src/types/proof/definition.rs | 18 +++++++++---------
 2 files changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..e98313d 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -744,15 +744,8 @@ where
                         merkle_proof,
                     )
                 } else {
-                    // If there was no changes, don't generate a proof
-                    (
-                        PutResult::NotChanged,
-                        if with_proof {
-                            Some(SparseMerkleProof::new(None, vec![]))
-                        } else {
-                            None
-                        },
-                    )
+                    // Nothing to delete: the proof shows that the key is absent
+                    (PutResult::NotChanged, merkle_proof)
                 }
             }
         };
@@ -761,14 +754,7 @@ where
         let mut children: Children = internal_node.into();
         match put_result {
             PutResult::NotChanged => {
-                return Ok((
-                    PutResult::NotChanged,
-                    if with_proof {
-                        Some(SparseMerkleProof::new(None, vec![]))
-                    } else {
-                        None
-                    },
-                ));
+                return Ok((PutResult::NotChanged, merkle_proof));
             }
             PutResult::Updated((_, new_node)) => {
                 // update child
@@ -970,7 +956,10 @@ where
             Ok((
                 PutResult::NotChanged,
                 if with_proof {
-                    Some(SparseMerkleProof::new(None, vec![]))
+                    Some(SparseMerkleProof::new(
+                        Some(existing_leaf_node.into()),
+                        vec![],
+                    ))
                 } else {
                     None
                 },
diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 2da8e95..bdc9a49 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -375,14 +375,12 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
             }
         } else {
             // No value supplied, we need to prove that the previous value was deleted
-            if let Some(leaf_node) = self.leaf {
+            if self
+                .leaf
+                .as_ref()
+                .map_or(false, |leaf_node| leaf_node.key_hash == new_element_key)
+            {
                 ensure!(self.root_hash() == old_root_hash);
-                ensure!(
-                    new_element_key == leaf_node.key_hash,
-                    "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
-                    new_element_key,
-                    leaf_node.key_hash
-                );
 
                 // Step 2: we compute the new Merkle tree path.
                 // In case of deletion, we need to rewind the nibble until we reach the first non-default hash
@@ -486,8 +484,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 Ok(new_merkle_hash)
             } else {
-                // We just return the old root hash if we try to remove the empty node
-                // because there isn't any changes to the merkle tree
+                // We just return the old root hash if we try to remove a key that is not in the
+                // tree, because there isn't any changes to the merkle tree. The proof has to show
+                // that the key is indeed absent.
+                self.verify_nonexistence(old_root_hash, new_element_key)?;
                 Ok(old_root_hash)
             }
         }
-- 
2.43.0


From 4ee3651fb2e2e1d1b05c89c3033bb9642a9acbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 04/15] fix: check the root hash before finishing a restoration

finish wrote whatever had been received, so finishing too early, or after a
chunk was rejected, left a complete-looking tree with another root hash in the
store, and finishing without any key panicked.
---
 src/restore.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..e8f8fc0 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -647,9 +647,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Finishes the restoration process. This tells the code that there is no more account,
-    /// otherwise we can not freeze the rightmost leaf and its ancestors.
+    /// otherwise we can not freeze the rightmost leaf and its ancestors. Nothing is written, and an
+    /// error is returned, unless the accounts received make up the expected tree.
     fn finish_impl(mut self) -> Result<()> {
-        // Deal with the special case when the entire tree has a single leaf.
+        // Deal with the special cases when the entire tree is empty or has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
             let mut leaf = None;
@@ -662,18 +663,38 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
 
+            let node_key = NodeKey::new_empty_path(self.version);
+            if num_children == 0 {
+                self.frozen_nodes.insert_node(node_key, Node::new_null());
+                return self.write_complete_tree();
+            }
+
             if num_children == 1 {
                 if let Some(node) = leaf {
-                    let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
                     self.frozen_nodes.insert_node(node_key, node.into());
-                    self.store.write_node_batch(&self.frozen_nodes)?;
-                    return Ok(());
+                    return self.write_complete_tree();
                 }
             }
         }
 
         self.freeze(0);
+        self.write_complete_tree()
+    }
+
+    /// Writes the last frozen nodes, the root among them, to storage, after checking that the root
+    /// is the expected one.
+    fn write_complete_tree(&self) -> Result<()> {
+        let root_hash = self
+            .frozen_nodes
+            .get_node(&NodeKey::new_empty_path(self.version))
+            .map(|root_node| RootHash(root_node.hash::<H>()));
+        ensure!(
+            root_hash == Some(self.expected_root_hash),
+            "Root hashes do not match. Restored root hash: {:?}. Expected root hash: {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From 8e6245caa3ba0f94c587e4f3199b4b1e96a56b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 05/15] fix: resume a restoration that is already complete

Restarting after the last write of a restoration, the root, panicked: there is
no partial node left to recover then.
---
 src/restore.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/restore.rs b/src/restore.rs
index e8f8fc0..7f5017d 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -156,6 +156,9 @@ pub struct JellyfishMerkleRestore<H: SimpleHasher> {
     /// When the restoration process finishes, we expect the tree to have this root hash.
     expected_root_hash: RootHash,
 
+    /// Whether a previous restoration attempt already completed, so that nothing is left to do.
+    finished: bool,
+
     _phantom_hasher: PhantomData<H>,
 }
 
@@ -166,8 +169,21 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         expected_root_hash: RootHash,
     ) -> Result<Self> {
         let tree_reader = Arc::clone(&store);
+        // The root is written last, so a previous attempt is complete if it exists.
+        let root_node = tree_reader.get_node_option(&NodeKey::new_empty_path(version))?;
+        let finished = root_node.is_some();
         let (partial_nodes, previous_leaf) =
-            if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
+            if let Some(root_node) = root_node {
+                let root_hash = RootHash(root_node.hash::<H>());
+                ensure!(
+                    root_hash == expected_root_hash,
+                    "A tree with another root hash is already complete. Its root hash: {:?}. \
+                     Expected root hash: {:?}.",
+                    root_hash,
+                    expected_root_hash,
+                );
+                (vec![], None)
+            } else if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
                 // TODO: confirm rightmost leaf is at the desired version
                 // If the system crashed in the middle of the previous restoration attempt, we need
                 // to recover the partial nodes to the state right before the crash.
@@ -190,6 +206,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             previous_leaf,
             num_keys_received: 0,
             expected_root_hash,
+            finished,
             _phantom_hasher: Default::default(),
         })
     }
@@ -207,6 +224,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             previous_leaf: None,
             num_keys_received: 0,
             expected_root_hash,
+            finished: false,
             _phantom_hasher: Default::default(),
         })
     }
@@ -294,6 +312,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         proof: SparseMerkleRangeProof<H>,
     ) -> Result<()> {
         ensure!(!chunk.is_empty(), "Should not add empty chunks.");
+        ensure!(!self.finished, "The tree is already complete.");
 
         for (key, value) in chunk {
             if let Some(ref prev_leaf) = self.previous_leaf {
@@ -650,6 +669,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     /// otherwise we can not freeze the rightmost leaf and its ancestors. Nothing is written, and an
     /// error is returned, unless the accounts received make up the expected tree.
     fn finish_impl(mut self) -> Result<()> {
+        if self.finished {
+            return Ok(());
+        }
+
         // Deal with the special cases when the entire tree is empty or has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
-- 
2.43.0


From cc7b0dbe52a555380a8d6454474f330a5b5dc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 06/15] fix: store the empty root of a tree under its own
 version

When the first changes to an empty tree had no effect and were made at a version
above 0, the root was stored under the previous version, so that the root hash
just returned could not be read back.
---
 src/tree_cache.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..2c19664 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -297,6 +297,8 @@ where
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
             // key-value mapping in the tree.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From 522abc009d952b7a9977ae1a746351c9b001b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 07/15] fix: mark the root stale that a version without changes
 replaces

Such a version stores a copy of the root under its own version, but neither
recorded the previous root as stale nor, among several value sets, made the copy
the current root: one of the two was never pruned, and a pruned version kept a
readable root hash.
---
 src/tree_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 2c19664..42480c4 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -320,7 +320,10 @@ where
             && self.stale_node_index_cache.is_empty()
         {
             let root_node = self.get_node(&self.root_node_key)?;
+            // The new root node replaces the previous one.
+            self.delete_node(&root_node_key, root_node.is_leaf());
             root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From 0ee96ced4a056002051202cf3948d45352e322c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 08/15] fix: mark the null root stale that an insertion into an
 empty tree replaces

The root of a tree emptied at an earlier version was not recorded as stale by
the version that inserts into it again, so it was never pruned.
---
 src/tree.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index e98313d..b8c795d 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -209,9 +209,8 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                // The new root replaces the null node
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -623,8 +622,8 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if root_node_key.version() == version && node_already_exists {
+                // Delete the old null node if it is at the same version, or replaced by a new root
+                if node_already_exists && (root_node_key.version() == version || value.is_some()) {
                     tree_cache.delete_node(&root_node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
-- 
2.43.0


From b4804774c1c7e88c7efa754a316791eb4923a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 09/15] fix: store a root for a genesis version without changes
 on pre-genesis state

The root hash of such a version 0 was returned but no root was stored under it.
---
 src/tree_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 42480c4..6553fb9 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -315,7 +315,7 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        if root_node_key.version() != self.next_version
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0


From 0d6fe6abd051ea85758447480cf6c72b2b43f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 10/15] fix: do not mark nodes stale that append_value_set
 overwrites in place

Appending to a version replaces nodes under their own node keys, and recorded
those keys as stale all the same: pruning then removed live nodes.
---
 src/tree_cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 6553fb9..dc1cda5 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -336,6 +336,10 @@ where
             stale_leaves: self.num_stale_leaves,
         };
         self.frozen_cache.node_stats.push(node_stats);
+        // A node that is overwritten in place is still referenced, so it isn't stale.
+        for node_key in self.node_cache.keys() {
+            self.stale_node_index_cache.remove(node_key);
+        }
         self.frozen_cache
             .node_cache
             .extend(self.node_cache.drain(), self.value_cache.drain());
-- 
2.43.0


From 1434af891d12b82fcd94d4af993cecd260146d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 11/15] fix: do not read back a root that append_value_set has
 deleted

When a value set deleted the last key, and then another key in vain, the root in
storage was taken for the new one: the deletion was lost.
---
 src/tree_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index dc1cda5..381abe9 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -236,6 +236,9 @@ where
     pub fn get_node_option(&self, node_key: &NodeKey) -> Result<Option<Node>> {
         Ok(if let Some(node) = self.node_cache.get(node_key) {
             Some(node.clone())
+        } else if self.stale_node_index_cache.contains(node_key) {
+            // The node was deleted since the last freeze.
+            None
         } else if let Some(node) = self.frozen_cache.node_cache.nodes().get(node_key) {
             Some(node.clone())
         } else {
-- 
2.43.0


From a73c36c212b0b64b04004aed458059769ca495da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 12/15] fix: let append_value_set append to any latest version

It took the version of the rightmost leaf for the latest version, so a latest
version that did not write that leaf was refused.
---
 src/tree_cache.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 381abe9..0ae78a5 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -197,16 +197,21 @@ where
     /// increasing the tree version's number.
     pub fn new_overwrite(reader: &'a R, current_version: Version) -> Result<Self> {
         let node_cache = HashMap::new();
-        let Some((node_key, _)) = reader.get_rightmost_leaf()? else {
-            bail!("creating an overwrite cache for an empty tree is not supported")
-        };
+        let root_node_key = NodeKey::new_empty_path(current_version);
+        match reader.get_node_option(&root_node_key)? {
+            Some(Node::Null) => {
+                bail!("creating an overwrite cache for an empty tree is not supported")
+            }
+            Some(_) => {}
+            None => bail!("the supplied version is not a version of the tree"),
+        }
 
+        let next_root_node_key = NodeKey::new_empty_path(current_version + 1);
         anyhow::ensure!(
-            node_key.version() == current_version,
+            reader.get_node_option(&next_root_node_key)?.is_none(),
             "the supplied version is not the latest version of the tree"
         );
 
-        let root_node_key = NodeKey::new_empty_path(current_version);
         Ok(Self {
             node_cache,
             stale_node_index_cache: HashSet::new(),
-- 
2.43.0


From 240ff2e7e544486c505e0901e4a8aa55edbac609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 13/15] Export ExclusionProof under cfg(jmt_verif) for
 verification

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 553bc91..29d4f7d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,8 @@ use bytes32ext::Bytes32Ext;
 pub use iterator::JellyfishMerkleIterator;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
+#[cfg(jmt_verif)]
+pub use tree::ExclusionProof;
 pub use tree::JellyfishMerkleTree;
 #[cfg(any(test, feature = "sha2"))]
 pub use tree::Sha256Jmt;
-- 
2.43.0


From 90fe3a099cd0a5cc0c820d68f718835f3d46dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 14/15] fix: refuse a chunk that skips the account a resumed
 restoration needs next

After a restoration has been resumed, the lowest partial node may have a single
leaf. Freezing it panicked; the chunk (or the end of the restoration) is now
refused with an error.
---
 src/restore.rs | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 7f5017d..a6a2e0e 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -322,9 +322,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -340,7 +340,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
@@ -367,14 +367,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -390,6 +390,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -402,7 +404,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -455,7 +457,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -472,12 +474,36 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    ///
+    /// After a restoration has been resumed, the lowest partial node may have only one of its
+    /// leaves yet. An error is returned if it is to be frozen like that: the account that comes
+    /// next is missing.
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
+        if self.partial_nodes.len() > num_remaining_partial_nodes {
+            let mut lowest_children = self
+                .partial_nodes
+                .last()
+                .expect("Must have at least one partial node.")
+                .children
+                .iter()
+                .flatten();
+            ensure!(
+                !matches!(
+                    (lowest_children.next(), lowest_children.next()),
+                    (Some(ChildInfo::Leaf { .. }), None)
+                ),
+                "The account next to the last one restored is missing.",
+            );
+        }
+
         self.freeze_previous_leaf();
         self.freeze_internal_nodes(num_remaining_partial_nodes);
+        Ok(())
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -700,7 +726,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             }
         }
 
-        self.freeze(0);
+        self.freeze(0)?;
         self.write_complete_tree()
     }
 
-- 
2.43.0


From 2da37d629927a391ac39069c0ab0420573fb9d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 15/15] fix: refuse an account under a completed node of a
 resumed restoration instead of panicking

---
 src/restore.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/restore.rs b/src/restore.rs
index a6a2e0e..a679d0c 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -347,7 +347,12 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // After a restoration has been resumed, the nodes that are complete are known by their
+            // hash only. All the accounts below them have been restored already.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "The account is not next to the last one restored.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
-- 
2.43.0

