From e0f3ef73738a5a66d33ec48511b8f722def04fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/14] fix: keep positions of remembered pollard leaves whose
 own node is pruned

Only the proof of a remembered leaf has to be cached, the leaf node itself can
be pruned. ReadLeafRange only saw leaves whose node exists, so the position map
went stale when such a leaf was moved or deleted.
---
 src/pollard.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..6154846 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -159,14 +159,11 @@ std::optional<const Hash> Pollard::Read(uint64_t pos) const
 
 std::vector<Hash> Pollard::ReadLeafRange(uint64_t pos, uint64_t range) const
 {
-    // TODO: implement efficient way of reading these hashes from the range,
-    // without trying to read every position.
+    // The leaf nodes themselves might be pruned (only the proof of a remembered
+    // leaf has to be cached), so the position map is used to find the hashes.
     std::vector<Hash> hashes;
-    for (uint64_t i = pos; i < pos + range; ++i) {
-        std::optional<const Hash> hash = Read(i);
-        if (hash.has_value()) {
-            hashes.push_back(Read(i).value());
-        }
+    for (const auto& [hash, leaf_pos] : m_posmap) {
+        if (leaf_pos >= pos && leaf_pos - pos < range) hashes.push_back(hash);
     }
     return hashes;
 }
@@ -306,10 +303,8 @@ void Pollard::FinalizeRemove(uint64_t next_num_leaves)
     ForestState current_state(m_num_leaves), next_state(next_num_leaves);
 
     // Remove deleted leaf hashes from the position map.
-    for (uint64_t pos = next_state.m_num_leaves; pos < current_state.m_num_leaves; ++pos) {
-        if (std::optional<const Hash> read_hash = Read(pos)) {
-            m_posmap.erase(read_hash.value());
-        }
+    for (const Hash& hash : ReadLeafRange(next_state.m_num_leaves, current_state.m_num_leaves - next_state.m_num_leaves)) {
+        m_posmap.erase(hash);
     }
 
     // Compute the positions of the new roots in the current state.
-- 
2.43.0


From de7ae81e3ddae9976788669ac6d2135b0e581406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/14] fix: do not dereference pruned nodes when removing
 remembered leaves

Removing remembered leaves without verifying their proof first walks through
nodes that were pruned because they can be computed from their children.
---
 src/pollard.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 6154846..ba2b065 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -201,6 +201,12 @@ Pollard::InternalSiblings Pollard::ReadSiblings(uint64_t pos, NodePtr<Accumulato
             return {nullptr, nullptr};
         }
 
+        if (record_path && i + 1 < path_length && !sibling->m_nieces[lr_sib]) {
+            // This node was pruned, because its hash can be computed from its children.
+            // It is going to be rehashed since it is on the recorded path, so we hook it in.
+            sibling->m_nieces[lr_sib] = Accumulator::MakeNodePtr<InternalNode>();
+        }
+
         node = sibling->m_nieces[lr_sib];
         sibling = sibling->m_nieces[lr];
 
@@ -222,18 +228,17 @@ NodePtr<Accumulator::Node> Pollard::SwapSubTrees(uint64_t from, uint64_t to)
 
     NodePtr<Accumulator::Node> rehash_path;
 
-    auto hook_in_sibling = [&rehash_path, state](NodePtr<InternalNode>& sibling, uint64_t pos) {
-        if (!sibling) {
-            uint8_t lr = pos & 1;
-            uint8_t lr_sib = state.Sibling(lr);
-            sibling = Accumulator::MakeNodePtr<InternalNode>();
-            std::dynamic_pointer_cast<Pollard::Node>(rehash_path)->m_sibling->m_nieces[lr_sib] = sibling;
+    // Hook in the niece of the last node on the rehash path, if it does not exist.
+    auto hook_in = [&rehash_path](NodePtr<InternalNode>& node, uint64_t lr) {
+        if (!node) {
+            node = Accumulator::MakeNodePtr<InternalNode>();
+            std::dynamic_pointer_cast<Pollard::Node>(rehash_path)->m_sibling->m_nieces[lr] = node;
         }
     };
 
     auto [node_from, sibling_from] = ReadSiblings(from, rehash_path, true);
     CHECK_SAFE(node_from);
-    hook_in_sibling(sibling_from, from);
+    hook_in(sibling_from, state.Sibling(from) & 1);
 
     NodePtr<InternalNode> node_to{nullptr}, sibling_to{nullptr};
     if (state.Sibling(from) == to) {
@@ -241,8 +246,9 @@ NodePtr<Accumulator::Node> Pollard::SwapSubTrees(uint64_t from, uint64_t to)
         sibling_to = node_from;
     } else {
         std::tie(node_to, sibling_to) = ReadSiblings(to, rehash_path, true);
-        CHECK_SAFE(node_to);
-        hook_in_sibling(sibling_to, to);
+        // The hash at the destination is not needed, so it is fine if the node was pruned.
+        hook_in(node_to, to & 1);
+        hook_in(sibling_to, state.Sibling(to) & 1);
     }
 
     std::swap(node_to->m_hash, node_from->m_hash);
-- 
2.43.0


From 44b1a71c0c335ef576295ef480e633eafb9dd2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 03/14] fix: fail to remove targets whose proof is not cached

Pollard::Modify dereferenced a null pointer for targets that were neither
remembered nor verified.
---
 src/accumulator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..c2e357b 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -195,6 +195,16 @@ bool Accumulator::Remove(const std::vector<uint64_t>& targets)
         return false;
     }
 
+    // The hashes that prove the targets are needed to compute the new roots.
+    // (A pollard does not have them if it neither remembered nor verified the targets.)
+    for (uint64_t pos : current_state.ProofPositions(targets).first) {
+        if (!Read(pos)) return false;
+    }
+    for (uint64_t target : targets) {
+        uint64_t sibling = current_state.Sibling(target);
+        if (sibling < m_num_leaves && !Read(sibling)) return false;
+    }
+
     std::vector<std::vector<ForestState::Swap>> swaps = current_state.Transform(targets);
     // Store the nodes that have to be rehashed because their children changed.
     // These nodes are "dirty".
-- 
2.43.0


From 0fb0f023e5e8c5df35bf042ee3d6f77f6cedce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 04/14] fix: forget leaf positions when pruning the pollard

Prune left the position map behind. The stale positions made Prove succeed
with a wrong proof later.
---
 src/pollard.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index ba2b065..7aad718 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -353,6 +353,8 @@ void Pollard::Prune()
     for (NodePtr<Accumulator::Node>& root : m_roots) {
         INTERNAL_NODE(root)->Chop();
     }
+    // Nothing is remembered anymore.
+    m_posmap.clear();
     assert(m_remember.use_count() == 1);
 }
 
-- 
2.43.0


From 880d31f42636f98746585e060c43931292190963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 05/14] fix: do not remember targets of a proof that failed to
 verify

Targets were marked as remembered before the proof was known to be valid and
the mark was not reverted on failure.
---
 src/pollard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 7aad718..46b791f 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -602,8 +602,6 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
-
                 ++target_hash;
                 continue;
             }
@@ -704,6 +702,9 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     }
 
     // All targets are now remembered.
+    for (const NodePtr<Pollard::Node>& leaf : proof_tree) {
+        if (leaf->IsTargetOrAncestor()) leaf->m_sibling->m_nieces[0] = m_remember;
+    }
     for (int i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
-- 
2.43.0


From dec38412e1fedb480f5f908af09adf968c69451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 06/14] fix: clear the sorted targets in
 BatchProof::Unserialize

Reading into a non-empty BatchProof kept the previous sorted targets.
---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From 485e03e78d7af2d96d28ae3a088f77335f08baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 07/14] fix: size check in UndoBatch::Unserialize

The expected size was computed with 32 bits, so that a short input with a large
number of targets passed the check and was read out of bounds. Also leave the
batch untouched if the check fails, like BatchProof::Unserialize.
---
 src/batchproof.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..f0ee5f8 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -164,15 +164,16 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     int data_offset = 0;
-    m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
+    uint32_t num_adds = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
+    m_num_additions = static_cast<uint64_t>(num_adds);
     m_deleted_positions.clear();
     m_deleted_hashes.clear();
     m_deleted_positions.reserve(num_targets);
-- 
2.43.0


From b4b594935b2b7345f6c4579a132ebcc54063a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 08/14] fix: initialise the number of additions of an empty
 UndoBatch

---
 include/batchproof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/batchproof.h b/include/batchproof.h
index 37d4791..7e8415f 100644
--- a/include/batchproof.h
+++ b/include/batchproof.h
@@ -57,7 +57,7 @@ public:
 class UndoBatch
 {
 private:
-    uint64_t m_num_additions;
+    uint64_t m_num_additions{0};
     std::vector<uint64_t> m_deleted_positions;
     std::vector<std::array<uint8_t, 32>> m_deleted_hashes;
 
-- 
2.43.0


From c3d7df4e0fbe8eb20e62525a7cc62498e375323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 09/14] fix: grow the forest data when undoing in a restored
 forest

A forest that was restored from file has no data for the rows above its
current height. Undoing the modification that shrunk it wrote out of bounds.
---
 src/ram_forest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..a8cd507 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -392,6 +392,12 @@ bool RamForest::Undo(const UndoBatch& undo)
 
     m_num_leaves -= undo.GetNumAdds();
 
+    // The previous state might have more rows than there is data for,
+    // if the forest was restored from a file after it shrunk.
+    while (m_data.size() <= prev_state.NumRows()) {
+        m_data.push_back(std::vector<Hash>());
+    }
+
     // Place all deleted hashes at the end of the bottom row.
     // After this the forest is in the same state as right after the deletion
     // in the previous modification.
-- 
2.43.0


From dd7c3387b0ac12c549b189af44a9dbd74964ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 10/14] fix: flush on RamForest::Commit and report write errors

Commit returned true while the data was still in the buffer of the stream,
and even if writing it to the file failed.
---
 src/ram_forest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index a8cd507..4a198f1 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -181,7 +181,9 @@ bool RamForest::Commit()
         num_hashes >>= 1;
     }
 
-    return true;
+    m_file.flush();
+
+    return m_file.good();
 }
 
 std::optional<const Hash> RamForest::Read(ForestState state, uint64_t pos) const
-- 
2.43.0


From e1ba21c074e673a5599b9b836d7cbe7fb8646fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 11/14] fix: refuse to restore a forest from a truncated file

Restore ignored short reads and continued with uninitialised data.
---
 src/ram_forest.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 4a198f1..4ee378f 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -105,7 +105,9 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
         // We can restore the forest from an existing file.
         m_file = std::fstream(file,
                               std::fstream::in | std::fstream::out | std::fstream::binary);
-        Restore();
+        if (!Restore()) {
+            throw std::runtime_error("RamForest: failed to restore the forest from " + file);
+        }
     } else {
         m_num_leaves = 0;
         m_file = std::fstream(file,
@@ -129,7 +131,7 @@ bool RamForest::Restore()
     m_file.seekg(0);
 
     // restore number of leaves
-    m_file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    if (!m_file.read(reinterpret_cast<char*>(uint64_buf), 8)) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
     ForestState state(m_num_leaves);
@@ -141,7 +143,7 @@ bool RamForest::Restore()
         pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
-            m_file.read(reinterpret_cast<char*>(hash.data()), 32);
+            if (!m_file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
-- 
2.43.0


From c89635b834513e09a4b514c8b992ae74b1fb6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 12/14] fix: end iterator dereference in
 Accumulator::ComparePositionMap

---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index c2e357b..7a615de 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From cc1e4deb9efe6fc777e71a04e2938e3ee22eae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 13/14] fix: do not consume more proof hashes than provided

If a cached proof hash was zero and all provided hashes were used up, the
iterator was advanced past the end.
---
 src/pollard.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 46b791f..fa91cd6 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -511,11 +511,8 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() && node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From b159aee5c8a3cdb9f54fbba330ad85675aee563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 14/14] fix: CSHA512::Reset of a SHA-512/256 hasher

Reset always used the initial state of SHA-512.
---
 src/crypto/sha512.cpp | 7 ++++++-
 src/crypto/sha512.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crypto/sha512.cpp b/src/crypto/sha512.cpp
index aad76ca..f668241 100644
--- a/src/crypto/sha512.cpp
+++ b/src/crypto/sha512.cpp
@@ -173,6 +173,7 @@ CSHA512::CSHA512(int output_size) : bytes(0)
     switch (output_size) {
     case OUTPUT_SIZE_256:
         sha512::Initialize256(s);
+        m_is_256 = true;
         break;
     default:
         sha512::Initialize(s);
@@ -238,7 +239,11 @@ void CSHA512::Finalize256(unsigned char hash[OUTPUT_SIZE])
 CSHA512& CSHA512::Reset()
 {
     bytes = 0;
-    sha512::Initialize(s);
+    if (m_is_256) {
+        sha512::Initialize256(s);
+    } else {
+        sha512::Initialize(s);
+    }
     return *this;
 }
 
diff --git a/src/crypto/sha512.h b/src/crypto/sha512.h
index 2c94116..eba625a 100644
--- a/src/crypto/sha512.h
+++ b/src/crypto/sha512.h
@@ -17,6 +17,7 @@ private:
     uint64_t s[8];
     unsigned char buf[128];
     uint64_t bytes;
+    bool m_is_256{false};
 
 public:
     static constexpr size_t OUTPUT_SIZE = 64;
-- 
2.43.0

