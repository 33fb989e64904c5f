From 864b95c060c10138a7cf938893853a2f4871ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 001/154] fix: count internal prefix-cache nodes as evictable
 when they gain a child

---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ---------
 pymllm/mem_cache/radix_cache.py       | 8 --------
 2 files changed, 17 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..55d82e2 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -534,15 +534,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From 4c16c740453cb3a3d45f8da0b004780ee19c1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 002/154] fix: keep partial pages out of the prefix caches and
 free them with the request

---
 pymllm/mem_cache/mamba_radix_cache.py       | 2 ++
 pymllm/mem_cache/radix_cache.py             | 5 +++++
 pymllm/orchestrator/model_runner_process.py | 7 +++++++
 3 files changed, 14 insertions(+)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 55d82e2..2f3603a 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -384,6 +384,8 @@ class MambaRadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if len(key) == 0:
             return InsertResult()
 
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..68248b3 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -257,6 +257,9 @@ class RadixCache(BasePrefixCache):
     ) -> InsertResult:
         """Insert *key*/*value* into the tree.
 
+        Only whole pages are inserted; the indices of an unaligned tail stay
+        with the caller.
+
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
         in the range ``[cache_protected_len, prefix_len)``.
@@ -273,6 +276,8 @@ class RadixCache(BasePrefixCache):
         """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if self.supports_swa:
             plen = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..0a854e8 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1084,6 +1084,13 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
+            # The tree only takes whole pages: free the unaligned tail.
+            page_size = getattr(cache, "page_size", 1)
+            inserted_len = len(key) // page_size * page_size
+            tail = all_kv_indices[inserted_len : len(key)]
+            if tail.numel() > 0:
+                runner.token_to_kv_pool_allocator.free(tail)
+
             did_insert = True
 
         # ----------------------------------------------------------
-- 
2.43.0


From 7fb9868d77ea868f560f4c00dc54ffd72dad40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 003/154] fix: cascade eviction through consecutive tombstoned
 parents

---
 pymllm/mem_cache/radix_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 68248b3..9a28422 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -315,7 +315,7 @@ class RadixCache(BasePrefixCache):
                 self._delete_leaf(node)
 
                 p = node.parent
-                if (
+                while (
                     p is not None
                     and p != self.root_node
                     and len(p.children) == 0
@@ -325,8 +325,10 @@ class RadixCache(BasePrefixCache):
                         self._free_indices(p.value)
                         full_evicted += len(p.value)
                         self._delete_leaf(p)
+                        p = p.parent
                     else:
                         heapq.heappush(heap, (p.last_access_time, p))
+                        break
 
         # Phase 2: SWA tombstone eviction (internal nodes)
         if self.supports_swa and swa_evicted < swa_num_tokens:
-- 
2.43.0


From 1464f46fa360b88601e723433a62a04f184c9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 004/154] fix: sliding-window prefix-cache insert frees or
 replaces only indices it may

---
 pymllm/mem_cache/radix_cache.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 9a28422..901078b 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -599,19 +599,24 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
-            beyond_protected = prev_prefix_len < total_prefix + plen
-            if beyond_protected and node.swa_tombstone:
-                if swa_evicted_seqlen <= total_prefix:
-                    self._free_indices(node.value[:plen])
+            # value[:start] is protected: the tree owns those indices already.
+            start = max(0, prev_prefix_len - total_prefix)
+            if start < plen:
+                if (
+                    node.swa_tombstone
+                    and start == 0
+                    and swa_evicted_seqlen <= total_prefix
+                    # a locked node's indices are still read by its requests
+                    and node.lock_ref == 0
+                ):
+                    self._free_indices(node.value)
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
                     self._swa_evictable_size += len(node.value)
                 else:
-                    self._free_indices(value[:plen])
-            elif beyond_protected:
-                self._free_indices(value[:plen])
+                    self._free_indices(value[start:plen])
 
             total_prefix += plen
             key = key[plen:]
-- 
2.43.0


From d08f4e1984ef2f9c4e12893cafd73b5734ff0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 005/154] fix: refresh LRU timestamps on sliding-window prefix
 matches

---
 pymllm/mem_cache/radix_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 901078b..4f2a4d9 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -499,6 +499,8 @@ class RadixCache(BasePrefixCache):
         the sliding window, or a tombstone-free path to root).
         """
         node = self.root_node
+        now = time.monotonic()
+        node.last_access_time = now
         values: List[torch.Tensor] = []
         non_tomb_len: float = float("inf")
         best_count = 0
@@ -509,6 +511,8 @@ class RadixCache(BasePrefixCache):
             if ck not in node.children:
                 break
             child = node.children[ck]
+            child.last_access_time = now
+            child.hit_count += 1
 
             if child.swa_tombstone:
                 if non_tomb_len >= self.sliding_window_size:
-- 
2.43.0


From 00075c4be94acdda9e794a07a2c4f2f9fe9bf7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 006/154] fix: size the KV buffers for the last page of a paged
 allocator

---
 pymllm/mem_cache/memory_pool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 9c8ab2a..a343187 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -457,7 +457,9 @@ def make_full_attention_net_mem_pool(
     (KVPool, TokenToKVPoolAllocator)
     """
     pool = KVPool(
-        size=size,
+        # Pages start at index ``page_size`` (slot 0's page is padding), so the
+        # last page ends at most at ``size + page_size - 1``.
+        size=size + page_size - 1,
         layer_num=layer_num,
         k_head_num=k_head_num,
         k_head_dim=k_head_dim,
-- 
2.43.0


From 05c174060468a6f644d4b01531f131049a6995d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 007/154] fix: do not free or cache a KV index for the last
 sampled token

---
 pymllm/orchestrator/model_runner_process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 0a854e8..e8581d9 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1037,7 +1037,10 @@ class ModelRunnerProcess:
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
+        # The last sampled token was never fed back to the model: no KV index
+        # was allocated for it.
+        output_ids = output_ids[:-1] if output_ids else []
+        decode_len = len(output_ids)
         total_len = prompt_len + decode_len
 
         all_kv_indices: Optional[torch.Tensor] = None
-- 
2.43.0


From 70243165724b94ffe3152b5aa706fbbc5b016714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 008/154] fix: let every prefix cache take the lock token when
 unlocking

---
 pymllm/mem_cache/base_prefix_cache.py | 6 ++++--
 pymllm/mem_cache/chunk_cache.py       | 4 +++-
 pymllm/mem_cache/mamba_radix_cache.py | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pymllm/mem_cache/base_prefix_cache.py b/pymllm/mem_cache/base_prefix_cache.py
index a49355d..f6e07a4 100644
--- a/pymllm/mem_cache/base_prefix_cache.py
+++ b/pymllm/mem_cache/base_prefix_cache.py
@@ -182,8 +182,10 @@ class BasePrefixCache(ABC):
         ...
 
     @abstractmethod
-    def dec_lock_ref(self, node: Any, **kwargs: Any) -> None:
-        """Unlock *node* (and ancestors)."""
+    def dec_lock_ref(
+        self, node: Any, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
+        """Unlock *node* (and ancestors); *lock_token* is what the lock returned."""
         ...
 
     # ------------------------------------------------------------------
diff --git a/pymllm/mem_cache/chunk_cache.py b/pymllm/mem_cache/chunk_cache.py
index c53b2b6..5cd9349 100644
--- a/pymllm/mem_cache/chunk_cache.py
+++ b/pymllm/mem_cache/chunk_cache.py
@@ -69,6 +69,8 @@ class ChunkCache(BasePrefixCache):
         """No-op: nothing to lock."""
         return None
 
-    def dec_lock_ref(self, node: Any, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: Any, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """No-op: nothing to unlock."""
         pass
diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 2f3603a..4626421 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -504,7 +504,9 @@ class MambaRadixCache(BasePrefixCache):
             cur = cur.parent
         return None
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: MambaTreeNode, lock_token: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """Unlock full KV and Mamba state."""
         if node is None:
             return
-- 
2.43.0


From 7abbb3b4e160f9a07dc115af563fe211b3cd62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 009/154] fix: recompute a fully cached one-token prompt
 instead of extending by nothing

---
 pymllm/orchestrator/model_runner_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index e8581d9..bd15c45 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -723,8 +723,8 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            if prefix_len > 0 and prefix_len >= full_seq_len - 1:
+                prefix_len = max(full_seq_len - 2, 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 3cb3df256df8f4b05270c907dd24fa62bf05dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 010/154] fix: do not resume a shortened prefix from a longer
 prefix's GDN state

---
 pymllm/orchestrator/model_runner_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index bd15c45..60fd468 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -724,7 +724,9 @@ class ModelRunnerProcess:
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
             if prefix_len > 0 and prefix_len >= full_seq_len - 1:
-                prefix_len = max(full_seq_len - 2, 0)
+                # The GDN snapshot belongs to the full matched prefix: it cannot
+                # be used for a shorter one.
+                prefix_len = max(full_seq_len - 2, 0) if gdn_pool is None else 0
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 2a7f521a043f36e701337aa31ef16ee009a26e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 011/154] fix: do not free duplicate KV indices twice with a
 sliding-window prefix cache

---
 pymllm/orchestrator/model_runner_process.py | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 60fd468..c8f340d 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -527,6 +527,7 @@ class ModelRunnerProcess:
 
         runner = self._runner
         gdn_pool = getattr(runner, "gdn_pool", None)
+        frees_duplicates = getattr(cache, "supports_swa", False)
 
         for m in requests_meta:
             rid = m["rid"]
@@ -554,11 +555,11 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(key, kv_indices, prev_prefix_len=cache_protected_len)
             new_prefix_len = result.prefix_len
 
-            # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            # --- Step 2: free duplicates (an SWA cache frees them itself) ---
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -566,7 +567,7 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            if new_prefix_len > cache_protected_len and not frees_duplicates:
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -1055,6 +1056,8 @@ class ModelRunnerProcess:
         # Phase 2: Insert into radix cache (if enabled).
         # ----------------------------------------------------------
         did_insert = False
+        # An SWA cache frees the duplicates of an insert itself.
+        frees_duplicates = getattr(cache, "supports_swa", False)
         if cache_enabled and all_kv_indices is not None:
             if self._is_hybrid and decode_len > 0:
                 # Hybrid model: insert only prompt tokens (not decode)
@@ -1062,11 +1065,13 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not frees_duplicates:
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1080,11 +1085,13 @@ class ModelRunnerProcess:
                 if output_ids:
                     full_token_ids.extend(output_ids)
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not frees_duplicates:
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From a4dcad7f8fe7ff17d9e67f3b6d99dda6e0e1699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 012/154] fix: stop the radix tree walk at a partly matched
 edge

---
 mllm/engine/prefix_cache/RadixTree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index d9049c5..11a81e8 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -70,6 +70,8 @@ bool RadixTree::insert(const RadixTreeNodeKey& key, const RadixTreeNodeValue& va
     }
     if (!found) break;
     cur = deepest;
+    // A partly matched edge ends the walk: its children continue the whole edge.
+    if (edge_matched < deepest->key.token_ids.size()) break;
   }
 
   if (matched == key.token_ids.size()) {
@@ -129,7 +131,8 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
         cur_node = child_node;
         cur_searched_len += matched_len;
         path.emplace_back(cur_node, matched_len);
-        found_next_child = true;
+        // A partly matched edge ends the walk: its children continue the whole edge.
+        found_next_child = matched_len == child_key.token_ids.size();
         break;
       }
     }
-- 
2.43.0


From e2c551f54b3bf40943b27579cf2963810d1b623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 013/154] fix: free the paged KV slot that was allocated, not
 only its lane

---
 mllm/engine/prefix_cache/ZenFS.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 604be3f..8aa036f 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -596,15 +596,17 @@ void ZenFileSystem::free(vp_addr_t addr) {
   // Extract blob address from the virtual address
   vp_blob_addr_t blob_addr = getBlobAddr(addr, options_.page_bits, options_.lane_bits);
 
-  // Get the lane address to determine which bit to free in the bitmap
+  // Get the page and lane address to determine which bit to free in the bitmap
+  vp_page_addr_t page_addr = getPageAddr(addr, options_.page_bits, options_.lane_bits);
   vp_lane_addr_t lane_addr = getLaneAddr(addr, options_.page_bits, options_.lane_bits);
+  size_t slot = (static_cast<size_t>(page_addr) << options_.lane_bits) | lane_addr;
 
   // Find the blob
   auto it = blob_.find(blob_addr);
   if (it != blob_.end()) {
     // Calculate which word in the bitmap and which bit within that word
-    size_t word_index = lane_addr / 64;
-    size_t bit_index = lane_addr % 64;
+    size_t word_index = slot / 64;
+    size_t bit_index = slot % 64;
 
     // Set the bit to 1 to indicate it's free
     if (word_index < it->second.free_lanes_bits_map.size()) {
-- 
2.43.0


From 8f609f8c753a1c9d96007f5745cde88e81ebf7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 014/154] fix: never hand out KV slots past the end of a blob

---
 mllm/engine/prefix_cache/ZenFS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 8aa036f..f9de814 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -640,7 +640,7 @@ char* ZenFileSystem::access(vp_addr_t addr) {
 void ZenFileSystem::_createBlobOnDisk() {
   // Calculate blob size.
   size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + sizeof(uint64_t) - 1) / sizeof(uint64_t);
+  size_t uint64_count = (total_bits + 64 - 1) / 64;
 
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
@@ -706,10 +706,12 @@ void ZenFileSystem::_createBlobOnAnonymousFile() {
 
 void ZenFileSystem::_findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr) {
   auto& bitmap = blob_[blob_addr].free_lanes_bits_map;
+  const size_t total_bits = size_t{1} << (options_.page_bits + options_.lane_bits);
   for (size_t i = 0; i < bitmap.size(); ++i) {
     uint64_t w = bitmap[i];
     if (w != 0) {
       int bit_index = __builtin_ctzll(w);
+      if (i * 64 + bit_index >= total_bits) { break; }  // Past the end of the blob
       bitmap[i] &= ~(1ULL << bit_index);
       *ret_addr = (blob_addr << (options_.lane_bits + options_.page_bits)) | int32_t(i * 64 + bit_index);
       return;
-- 
2.43.0


From 78a12223b1d1cccbca240ec9fcfba2ebf9365e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 015/154] fix: purging a KV slot must not lose anonymous blob
 data

---
 mllm/engine/prefix_cache/ZenFS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index f9de814..fd33dc7 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -145,6 +145,7 @@ void ZenFSBlobMMAPFile::purge(size_t offset, size_t len) {
   ::FlushViewOfFile(start, len);
   ::DiscardVirtualMemory(start, len);
 #else
+  if (fd_ < 0) return;  // Dropping anonymous pages would lose their content
   ::msync(start, len, MS_SYNC);
   ::madvise(start, len, MADV_DONTNEED);
 #endif
@@ -531,7 +532,7 @@ void ZenFileSystem::hintsPrefetch(vp_addr_t token_lane_addr) const {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = (static_cast<size_t>(page_addr) << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
@@ -552,7 +553,7 @@ void ZenFileSystem::hintsPurge(vp_addr_t token_lane_addr) {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = (static_cast<size_t>(page_addr) << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
-- 
2.43.0


From f8fa8cf589824b64dcf7235ef90805f01d1a83a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 016/154] fix: create, keep and recover file-backed KV blobs

---
 mllm/engine/prefix_cache/ZenFS.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index fd33dc7..003661d 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -51,14 +51,18 @@ bool ZenFSBlobMMAPFile::initAnonymous(size_t size, std::error_code& ec) {
 
 bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec) {
   size_ = size;
-  std::vector<char> tmp(fpath.begin(), fpath.end());
-  tmp.push_back('\0');
-  fd_ = ::mkstemp(tmp.data());
+  const bool temporary = fpath.ends_with("XXXXXX");
+  if (temporary) {
+    std::string tmp = fpath;
+    fd_ = ::mkstemp(tmp.data());
+    if (fd_ >= 0) { ::unlink(tmp.c_str()); }  // File is deleted when fd_ is closed
+  } else {
+    fd_ = ::open(fpath.c_str(), O_RDWR | O_CREAT, 0644);
+  }
   if (fd_ < 0) {
     ec = std::error_code(errno, std::system_category());
     return false;
   }
-  ::unlink(tmp.data());  // File is deleted when fd_ is closed
   if (::ftruncate(fd_, static_cast<off_t>(size)) != 0) {
     ec = std::error_code(errno, std::system_category());
     ::close(fd_);
@@ -348,6 +352,7 @@ void ZenFileSystem::finalize() {
       blob_info["type"] = static_cast<int>(blob.type);
       blob_info["data_shape"] = blob.data.shape();
       blob_info["data_dtype"] = blob.data.dtype();
+      blob_info["free_lanes_bits_map"] = blob.free_lanes_bits_map;
 
       // Record if blob has mmap file
       if (blob.mmap_file.has_value()) {
@@ -494,7 +499,8 @@ void ZenFileSystem::recover(const std::string& working_dir) {
       // Initialize free lanes bitmap
       size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
       size_t uint64_count = (total_bits + 64 - 1) / 64;
-      blob.free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL);
+      blob.free_lanes_bits_map = blob_info.value("free_lanes_bits_map", std::vector<uint64_t>(uint64_count, ~0ULL));
+      blob.free_lanes_bits_map.resize(uint64_count, ~0ULL);
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
@@ -651,7 +657,9 @@ void ZenFileSystem::_createBlobOnDisk() {
 
   std::error_code ec;
   auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite,
-                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv", ec);
+                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv"
+                                                 + (options_.record ? "" : ".XXXXXX"),  // Recorded blobs are kept
+                                             ec);
 
   if (ec) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to create mmap file for blob on disk"); }
 
-- 
2.43.0


From 093d7b8c51b5d11c970ff66256cfa887e670dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 017/154] fix: radix tree children with different extra keys
 are different

---
 mllm/engine/prefix_cache/RadixTree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index 11a81e8..9c98089 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -11,7 +11,9 @@ namespace mllm::prefix_cache {
 RadixTreeNodeKey::RadixTreeNodeKey(const VectorView<int64_t>& token_ids_tmp, int64_t extra_key_tmp)
     : token_ids(token_ids_tmp), extra_key(extra_key_tmp) {}
 
-bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept { return token_ids == o.token_ids; }
+bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept {
+  return extra_key == o.extra_key && token_ids == o.token_ids;
+}
 
 bool RadixTreeNodeKey::operator!=(const RadixTreeNodeKey& o) const noexcept { return !(*this == o); }
 
-- 
2.43.0


From e4b648e2601178fa59b0ca82523e767dfbeac1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 018/154] fix: keep the recovered index so that a recovered
 cache can be saved again

---
 mllm/engine/prefix_cache/ZenFS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 003661d..8825786 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -422,6 +422,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
   }
 
   // 4. Recover options from index
+  index_ = index;
   options_.working_dir = working_dir;
   options_.blob_bits_size = index.value("blob_bits_size", 20);
   options_.lane_bits = index.value("lane_bits_size", 5);
-- 
2.43.0


From 408df5558bff86e85f476ff1bc30f4074af564f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 019/154] fix: reuse cached memory blocks whose size is not a
 power of two

---
 mllm/engine/BuddyMemPool.cpp | 6 +++---
 mllm/engine/BuddyMemPool.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index e7b5141..ad23c1f 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -73,7 +73,7 @@ void BuddyMemPool::free(Storage* s) {
   if (s->ptr_ == nullptr) { return; }
 
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_]);
+    freeObjCache(st_[s->custom_32bit_uuid_], try_to_alloc_size);
   } else {
     freeBuddy(st_[s->custom_32bit_uuid_]);
   }
@@ -287,10 +287,10 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
   return ret;
 }
 
-void BuddyMemPool::freeObjCache(BuddyMemBlock* omb) {
+void BuddyMemPool::freeObjCache(BuddyMemBlock* omb, size_t omb_size) {
   std::lock_guard<std::mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
-  object_cache[omb->size].push_back(omb);
+  object_cache[omb_size].push_back(omb);  // By the size it is looked up with
   obj_cached_times_++;
 }
 
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 3b15f98..e36e7e3 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -91,7 +91,7 @@ class BuddyMemPool {
 
   BuddyMemBlock* allocObjCache(size_t omb_size);
 
-  void freeObjCache(BuddyMemBlock* omb);
+  void freeObjCache(BuddyMemBlock* omb, size_t omb_size);
 
   bool isInObjCache(size_t omb_size);
 
-- 
2.43.0


From 289b290276ddb1214526844233c92e11d88392bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 020/154] fix: return blocks of no longer cached sizes to the
 memory pool

---
 mllm/engine/BuddyMemPool.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index ad23c1f..ba19574 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -85,11 +85,13 @@ void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
   auto& object_cache = free_object_cache_st_;
-  for (auto size : cache_size_set) {
-    if (!isInObjCache(size)) {
-      auto& free_list = object_cache[size];
-      for (auto it : free_list) { freeBuddy(it); }
-      object_cache.erase(object_cache.find(size));
+  // Blocks of sizes that are no longer cached go back to the buddy system
+  for (auto it = object_cache.begin(); it != object_cache.end();) {
+    if (!cache_size_set.count(it->first)) {
+      for (auto block : it->second) { freeBuddy(block); }
+      it = object_cache.erase(it);
+    } else {
+      ++it;
     }
   }
 
-- 
2.43.0


From 67c7c7cad3b3c11c7e27ad7ec840a4943b95a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 021/154] fix: make the memory pool's bookkeeping and growth
 thread safe

---
 mllm/engine/BuddyMemPool.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index ba19574..2239452 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -62,6 +62,7 @@ void BuddyMemPool::alloc(Storage* s) {
   s->ptr_ = omb->ptr;
 
   // Reg to memory pool
+  std::lock_guard<std::mutex> lock(mutex_);
   st_.reg(s->custom_32bit_uuid_, omb);
 }
 
@@ -72,13 +73,18 @@ void BuddyMemPool::free(Storage* s) {
 
   if (s->ptr_ == nullptr) { return; }
 
+  BuddyMemBlock* omb = nullptr;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    omb = st_[s->custom_32bit_uuid_];
+    st_.remove(s->custom_32bit_uuid_);
+  }
+
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_], try_to_alloc_size);
+    freeObjCache(omb, try_to_alloc_size);
   } else {
-    freeBuddy(st_[s->custom_32bit_uuid_]);
+    freeBuddy(omb);
   }
-
-  st_.remove(s->custom_32bit_uuid_);
 }
 
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
@@ -110,9 +116,8 @@ void BuddyMemPool::report() const {
 }
 
 BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
-  // lock_guard should in this scope.
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::mutex> lock(mutex_);
+  do {
     auto& cur_segs = context_.segments;
     auto& cur_seg_blocks = context_.segment_blocks;
 
@@ -174,9 +179,8 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
         return block;
       }
     }
-  }
-  // lock_guard freed, so that we can call allocBuddy again if not found, alloc a new seg.
-  if (expandBuddySegment()) { return allocBuddy(omb_size); }
+    // Not found, alloc a new seg and search again.
+  } while (expandBuddySegment());
 
   MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a new segment for buddy memory pool.");
 
-- 
2.43.0


From 84afebdf7ed570651922fa09e15a21611e57f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 022/154] fix: receive abort messages in shared queue mode

The tokenizer forwards aborts over ZMQ even when requests travel through
the shared queue, but the scheduler only read the shared queue in that
mode, so an aborted request ran to completion.
---
 pymllm/orchestrator/scheduler_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 29e05fe..a70ed51 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -533,8 +533,8 @@ class SchedulerProcess:
         """
         if self._enable_shared_queue and self._shared_queue is not None:
             self._recv_from_shared_queue()
-        else:
-            self._recv_from_zmq()
+        # Abort sentinels always travel over ZMQ, also in shared queue mode.
+        self._recv_from_zmq()
 
     def _recv_from_zmq(self) -> None:
         """Receive requests via legacy ZMQ path."""
-- 
2.43.0


From 4c1cab5cef5af1a7b885421ddc3c5bc313e9f79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 023/154] fix: treat null max_new_tokens and stop_token_ids as
 not given

An explicit null in the sampling parameters raised TypeError inside the
scheduler's event loop and ended the process.
---
 pymllm/orchestrator/scheduler_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index a70ed51..b2cc498 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -633,9 +633,9 @@ class SchedulerProcess:
             # Merge EOS token into stop_token_ids if not already present
             sp = dict(raw.sampling_params) if raw.sampling_params else {}
             # Inject model-aware default for max_new_tokens when not provided
-            if "max_new_tokens" not in sp:
+            if sp.get("max_new_tokens") is None:
                 sp["max_new_tokens"] = self._default_max_new_tokens
-            stop_ids = list(sp.get("stop_token_ids", []))
+            stop_ids = list(sp.get("stop_token_ids") or [])
             for eid in self._eos_token_ids:
                 if eid not in stop_ids:
                     stop_ids.append(eid)
-- 
2.43.0


From 7b1a8181c1bdb4b66e8a05194660838ca2cbcb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 024/154] fix: finish requests whose prompt can never be
 scheduled

A prompt longer than max_prefill_tokens or max_total_tokens stayed in the
pending queue forever (the client never got an answer), and an empty
prompt reached the model runner with nothing to run.
---
 pymllm/orchestrator/scheduler_process.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index b2cc498..ef51c73 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -508,7 +508,7 @@ class SchedulerProcess:
             if batch is not None:
                 result = self.run_batch(batch)
                 self.process_batch_result(batch, result)
-            else:
+            elif not self._finished:
                 # No work available -- sleep until a new request arrives
                 # on the ZMQ socket (or timeout).  Avoids busy-looping.
                 self._idle_sleeper.sleep()
@@ -652,6 +652,19 @@ class SchedulerProcess:
                 logprob_start_len=raw.logprob_start_len,
                 top_logprobs_num=raw.top_logprobs_num,
             )
+            # A prompt that can never be admitted would stay pending forever.
+            max_input_len = min(self._max_prefill_tokens, self._max_total_tokens)
+            if not 0 < req.prompt_len <= max_input_len:
+                logger.error(
+                    "Rejecting request %s: prompt length %d is not in [1, %d]",
+                    req.rid,
+                    req.prompt_len,
+                    max_input_len,
+                )
+                req.abort()
+                self._collect_finished_output(req)
+                continue
+
             self._pending_queue.append(req)
             logger.debug("Processed input request %s (len=%d)", req.rid, req.seq_len)
 
-- 
2.43.0


From 81eaf2ea205faf52b1031a0418ee8665f178f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 025/154] fix: make reasoning parsing independent of chunking
 and lose no text

Text held back as a possible tag was dropped at the end of the stream,
stream_reasoning=False dropped the reasoning altogether, a start tag that
did not arrive in the first chunk was kept in forced mode, and the
one-shot parser took an end tag before the start tag for the real one.
---
 pymllm/parsers/reasoning_parser.py | 146 ++++++++++++++---------------
 pymllm/server/launch.py            |   4 +
 2 files changed, 74 insertions(+), 76 deletions(-)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 1f73c78..70ff410 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -13,6 +13,7 @@ Usage::
     parser = ReasoningParser("qwen3")
     for delta in deltas:
         reasoning_delta, content_delta = parser.parse_stream_chunk(delta)
+    reasoning_delta, content_delta = parser.flush()
 """
 
 from __future__ import annotations
@@ -83,6 +84,7 @@ class ReasoningParser:
         self._in_reasoning = cfg.force
         self._start_consumed = False  # True once start tag has been stripped
         self._done = False  # True once end tag has been seen
+        self._held_reasoning = ""  # only used when not stream_reasoning
 
     # ------------------------------------------------------------------ #
     # Non-streaming
@@ -93,30 +95,23 @@ class ReasoningParser:
 
         Returns ``(reasoning_content, content)`` where either may be empty.
         """
+        # The start tag only counts before the end tag that closes the
+        # reasoning, and the end tag only after the start tag.
+        before, rest, head = "", text, ""
         start_idx = text.find(self._start)
-        end_idx = text.find(self._end)
-
-        if start_idx == -1 and not self._force:
+        if self._force:
+            end_idx = text.find(self._end)
+            if start_idx != -1 and (end_idx == -1 or start_idx < end_idx):
+                # The model repeated the start tag of the forced reasoning
+                head, _, rest = text.partition(self._start)
+        elif start_idx == -1:
             return None, text
-
-        # Determine boundaries
-        if self._force and start_idx == -1:
-            # Model didn't emit explicit start tag; treat prefix as reasoning
-            reason_start = 0
         else:
-            reason_start = start_idx + len(self._start)
-
-        before = text[:start_idx] if start_idx != -1 else ""
-
-        if end_idx != -1 and end_idx >= reason_start:
-            reasoning = text[reason_start:end_idx]
-            after = text[end_idx + len(self._end) :]
-        else:
-            reasoning = text[reason_start:]
-            after = ""
+            before, _, rest = text.partition(self._start)
 
+        reasoning, _, after = rest.partition(self._end)
         content = (before + after).strip()
-        reasoning = reasoning.strip()
+        reasoning = (head + reasoning).strip()
         return reasoning or None, content
 
     # ------------------------------------------------------------------ #
@@ -127,6 +122,7 @@ class ReasoningParser:
         """Parse an incremental streaming delta.
 
         Returns ``(reasoning_delta, content_delta)``.  Either may be ``""``.
+        Call :meth:`flush` once after the last delta.
         """
         if not delta:
             return "", ""
@@ -138,75 +134,73 @@ class ReasoningParser:
         reasoning_out = ""
         content_out = ""
 
-        # In forced reasoning mode, consume the start tag if it appears
-        # (the model may or may not emit it explicitly).
-        if self._in_reasoning and not self._start_consumed:
-            idx = self._buffer.find(self._start)
-            if idx != -1:
-                # Start tag found — strip it and any text before it
-                self._buffer = self._buffer[idx + len(self._start) :]
-                self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
-                # Might be a partial start tag — hold the buffer
-                return "", ""
-            else:
-                # No start tag coming — mark consumed and continue
-                self._start_consumed = True
-
         if not self._in_reasoning:
             # --- look for start tag ---
             idx = self._buffer.find(self._start)
-            if idx != -1:
-                content_out += self._buffer[:idx]
-                self._buffer = self._buffer[idx + len(self._start) :]
-                self._in_reasoning = True
-                self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
-                # Potential partial match at tail — hold the buffer
-                safe = len(self._buffer) - len(self._start) + 1
-                if safe > 0:
-                    content_out += self._buffer[:safe]
-                    self._buffer = self._buffer[safe:]
-                return "", content_out
-            else:
-                content_out += self._buffer
-                self._buffer = ""
-                return "", content_out
-
-        if self._in_reasoning:
-            # --- look for end tag ---
-            idx = self._buffer.find(self._end)
-            if idx != -1:
-                reasoning_out += self._buffer[:idx]
-                after = self._buffer[idx + len(self._end) :]
-                self._buffer = ""
-                self._in_reasoning = False
-                self._done = True
-                if after:
-                    content_out += after
-            elif _could_be_partial(self._buffer, self._end):
-                safe = len(self._buffer) - len(self._end) + 1
-                if safe > 0:
-                    reasoning_out += self._buffer[:safe]
-                    self._buffer = self._buffer[safe:]
-            else:
-                reasoning_out += self._buffer
-                self._buffer = ""
+            if idx == -1:
+                return "", self._take(self._start)
+            content_out = self._buffer[:idx]
+            self._buffer = self._buffer[idx + len(self._start) :]
+            self._in_reasoning = True
+            self._start_consumed = True
+
+        # --- look for the (repeated) start tag and the end tag ---
+        while True:
+            end_idx = self._buffer.find(self._end)
+            if not self._start_consumed:
+                idx = self._buffer.find(self._start)
+                if idx != -1 and (end_idx == -1 or idx < end_idx):
+                    reasoning_out += self._buffer[:idx]
+                    self._buffer = self._buffer[idx + len(self._start) :]
+                    self._start_consumed = True
+                    continue
+            break
+
+        if end_idx != -1:
+            reasoning_out += self._buffer[:end_idx]
+            content_out += self._buffer[end_idx + len(self._end) :]
+            self._buffer = ""
+            self._in_reasoning = False
+            self._done = True
+        elif self._start_consumed:
+            reasoning_out += self._take(self._end)
+        else:
+            reasoning_out += self._take(self._end, self._start)
 
         if not self._stream_reasoning:
+            # Hold the reasoning back until the end tag has been seen
+            self._held_reasoning += reasoning_out
             reasoning_out = ""
+            if self._done:
+                reasoning_out, self._held_reasoning = self._held_reasoning, ""
 
         return reasoning_out, content_out
 
+    def flush(self) -> Tuple[str, str]:
+        """Return what is still held back (call once at the end of the stream)."""
+        rest, self._buffer = self._buffer, ""
+        if self._in_reasoning:
+            reasoning = self._held_reasoning + rest
+            self._held_reasoning = ""
+            return reasoning, ""
+        return "", rest
+
+    def _take(self, *tags: str) -> str:
+        """Remove and return the buffer up to a tail that could begin a tag."""
+        hold = max(_partial_len(self._buffer, tag) for tag in tags)
+        keep = len(self._buffer) - hold
+        out, self._buffer = self._buffer[:keep], self._buffer[keep:]
+        return out
+
 
 # ---------------------------------------------------------------------------
 # Helpers
 # ---------------------------------------------------------------------------
 
 
-def _could_be_partial(text: str, pattern: str) -> bool:
-    """Return True if *text* ends with a prefix of *pattern*."""
-    for i in range(1, len(pattern)):
-        if text.endswith(pattern[:i]):
-            return True
-    return False
+def _partial_len(text: str, pattern: str) -> int:
+    """Length of the longest proper prefix of *pattern* that *text* ends with."""
+    for n in range(min(len(pattern) - 1, len(text)), 0, -1):
+        if text.endswith(pattern[:n]):
+            return n
+    return 0
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 19b9520..b194393 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -965,6 +965,10 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         reasoning_delta, content_delta = r_parser.parse_stream_chunk(
                             raw_delta
                         )
+                    if r_parser and finish_reason is not None:
+                        held_reasoning, held_content = r_parser.flush()
+                        reasoning_delta += held_reasoning
+                        content_delta += held_content
 
                     # --- Phase 2: tool-call parser ---
                     tool_items: list = []
-- 
2.43.0


From e591d1b65a865c48d7844aff2f527e1837019282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 026/154] fix: make streamed tool calls equal the one-shot
 result

An end token split over two deltas was never recognised, argument deltas
included the brace that closes the call, the rest sent at the end was cut
from a differently formatted text, qwen3_coder deltas closed the object
after each parameter, content held back as a possible bot token was lost,
and a call body that is not an object raised AttributeError.
---
 pymllm/parsers/tool_call_parser.py | 96 +++++++++++++++++++++---------
 pymllm/server/launch.py            |  3 +
 2 files changed, 72 insertions(+), 27 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index fdfe939..251c699 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -19,6 +19,8 @@ Usage::
     parser = ToolCallParser("qwen25", tools=tools_list)
     for delta in deltas:
         content_delta, tool_call_deltas = parser.parse_stream_chunk(delta)
+    tool_call_deltas = parser.flush()
+    content_delta = parser.flush_content()
 """
 
 from __future__ import annotations
@@ -229,14 +231,7 @@ class ToolCallParser:
                     continue  # try to process call content
                 else:
                     # Check for partial bot token at tail
-                    if self._bot and _could_be_partial(self._buffer, self._bot):
-                        safe = len(self._buffer) - len(self._bot) + 1
-                        if safe > 0:
-                            content_out += self._buffer[:safe]
-                            self._buffer = self._buffer[safe:]
-                    else:
-                        content_out += self._buffer
-                        self._buffer = ""
+                    content_out += self._take(self._bot)
                     break
 
             if self._in_call:
@@ -255,8 +250,7 @@ class ToolCallParser:
                         continue  # there may be more calls
                     else:
                         # Accumulate and stream arguments
-                        self._current_call_buf += self._buffer
-                        self._buffer = ""
+                        self._current_call_buf += self._take(self._end)
                         item = self._stream_partial_call()
                         if item is not None:
                             items.append(item)
@@ -275,13 +269,20 @@ class ToolCallParser:
     def flush(self) -> List[ToolCallItem]:
         """Flush any remaining buffered tool call (call at request end)."""
         items: List[ToolCallItem] = []
-        if self._in_call and self._current_call_buf.strip():
+        if self._in_call:
+            self._current_call_buf += self._buffer
+            self._buffer = ""
             item = self._finalize_call()
             if item is not None:
                 items.append(item)
             self._in_call = False
         return items
 
+    def flush_content(self) -> str:
+        """Return content still held back as a possible bot token."""
+        content, self._buffer = self._buffer, ""
+        return content
+
     # ------------------------------------------------------------------ #
     # Internal helpers
     # ------------------------------------------------------------------ #
@@ -294,9 +295,11 @@ class ToolCallParser:
             obj = json.loads(body)
         except json.JSONDecodeError:
             return None
+        if not isinstance(obj, dict):
+            return None
         name = obj.get("name")
         args = obj.get("arguments") or obj.get("parameters") or {}
-        if isinstance(args, dict):
+        if not isinstance(args, str):
             args = json.dumps(args, ensure_ascii=False)
         return ToolCallItem(name=name, arguments=args)
 
@@ -372,6 +375,9 @@ class ToolCallParser:
 
         # Name was already sent — emit remaining arguments
         full_args = parsed.arguments
+        if self._prev_args_len and self._model_type != "qwen3_coder":
+            # What was sent so far is the text as the model wrote it
+            full_args = _scan_json_call(self._current_call_buf)[1]
         new_chars = full_args[self._prev_args_len :]
         if new_chars:
             return ToolCallItem(
@@ -386,8 +392,7 @@ class ToolCallParser:
         if self._model_type == "qwen3_coder":
             m = re.search(r"<function=([^>]+)>", partial)
             return m.group(1) if m else None
-        m = re.search(r'"name"\s*:\s*"([^"]+)"', partial)
-        return m.group(1) if m else None
+        return _scan_json_call(partial)[0]
 
     def _try_extract_args_partial(self, partial: str) -> Optional[str]:
         """Try to extract partial arguments from call body."""
@@ -406,15 +411,16 @@ class ToolCallParser:
                 except (json.JSONDecodeError, ValueError):
                     params[key] = val
             if params:
-                return json.dumps(params, ensure_ascii=False)
+                # Without the closing brace: more parameters may follow
+                return json.dumps(params, ensure_ascii=False)[:-1]
             return None
-        m = re.search(r'"arguments"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        m = re.search(r'"parameters"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        return None
+        return _scan_json_call(partial)[1]
+
+    def _take(self, tag: str) -> str:
+        """Remove and return the buffer up to a tail that could begin *tag*."""
+        keep = len(self._buffer) - _partial_len(self._buffer, tag)
+        out, self._buffer = self._buffer[:keep], self._buffer[keep:]
+        return out
 
 
 # ---------------------------------------------------------------------------
@@ -426,8 +432,44 @@ def _make_tool_call_id() -> str:
     return f"call_{uuid.uuid4().hex[:24]}"
 
 
-def _could_be_partial(text: str, pattern: str) -> bool:
-    for i in range(1, len(pattern)):
-        if text.endswith(pattern[:i]):
-            return True
-    return False
+def _partial_len(text: str, pattern: str) -> int:
+    """Length of the longest proper prefix of *pattern* that *text* ends with."""
+    for n in range(min(len(pattern) - 1, len(text)), 0, -1):
+        if text.endswith(pattern[:n]):
+            return n
+    return 0
+
+
+def _scan_json_call(body: str) -> Tuple[Optional[str], Optional[str]]:
+    """Read ``(name, arguments text)`` from a possibly incomplete call object.
+
+    The arguments are the text of the object as written, cut where *body* ends.
+    """
+    name: Optional[str] = None
+    args: Optional[str] = None
+    decoder = json.JSONDecoder()
+    body = body.strip()
+    pos = 1 if body.startswith("{") else len(body)
+    try:
+        while pos < len(body):
+            pos = _skip(body, pos, " \t\r\n,")
+            key, pos = decoder.raw_decode(body, pos)
+            pos = _skip(body, pos, " \t\r\n:")
+            is_args = key in ("arguments", "parameters") and body.startswith("{", pos)
+            if is_args:
+                args = body[pos:]
+            value, end = decoder.raw_decode(body, pos)
+            if is_args:
+                args = body[pos:end]
+            elif key == "name" and isinstance(value, str):
+                name = value
+            pos = end
+    except json.JSONDecodeError:
+        pass  # incomplete
+    return name, args
+
+
+def _skip(text: str, pos: int, chars: str) -> int:
+    while pos < len(text) and text[pos] in chars:
+        pos += 1
+    return pos
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index b194393..8368954 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -1005,6 +1005,9 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                             for tc in remaining:
                                 has_tool_calls = True
                                 yield _make_sse({"tool_calls": [tc.to_openai_dict()]})
+                            held_content = tc_parser.flush_content()
+                            if held_content:
+                                yield _make_sse({"content": held_content})
                             if has_tool_calls:
                                 finish_reason = "tool_calls"
                         yield _make_sse({}, finish=finish_reason)
-- 
2.43.0


From 5dd8abdc65b2ca9e7d4dcd46a329206f9fb880b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 027/154] fix: stream characters whose bytes span several
 tokens intact

The delta was cut from a text ending in U+FFFD whenever a token ended
inside a multi-byte character, so the concatenated deltas kept the
replacement character and never contained the real one. The previous text
was also kept per request id for ever when a request was aborted, and
used for the next request with the same id.
---
 pymllm/orchestrator/detokenizer_process.py | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 7b8bf26..8cecb1b 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -35,8 +35,6 @@ class DetokenizerProcess:
         self._send_to_rr: Optional[zmq.Socket] = None
 
         self._tokenizer = None
-        # Track previous decoded text per rid for incremental (delta) output
-        self._rid_to_prev_text: Dict[str, str] = {}
 
     # ------------------------------------------------------------------
     # Lifecycle
@@ -110,7 +108,7 @@ class DetokenizerProcess:
                 "output_ids are shared -- results may be incorrect",
                 len(rids),
             )
-        decode_ids: List[int] = token_id_out.get("decode_ids", [])
+        read_offsets: List[int] = token_id_out.get("read_offsets", [])
         skip_special_tokens_list: List[bool] = token_id_out.get(
             "skip_special_tokens", []
         )
@@ -157,14 +155,18 @@ class DetokenizerProcess:
             else:
                 text = ""
 
-            # Compute incremental delta by diffing against previous text
-            prev_text = self._rid_to_prev_text.get(rid, "")
-            delta_text = text[len(prev_text):]
-            self._rid_to_prev_text[rid] = text
-
-            # Clean up tracking when request finishes
-            if is_finished:
-                self._rid_to_prev_text.pop(rid, None)
+            # Compute incremental delta by diffing against previous text.
+            # Tokens may end inside a multi-byte character, which decodes to a
+            # trailing U+FFFD: hold that back until the character is complete.
+            sent_text = text if is_finished else text.rstrip("\ufffd")
+            read_offset = read_offsets[i] if i < len(read_offsets) else 0
+            prev_text = ""
+            if self._tokenizer is not None and read_offset > 0:
+                prev_text = self._tokenizer.decode(
+                    output_ids[:read_offset],
+                    skip_special_tokens=skip_special,
+                ).rstrip("\ufffd")
+            delta_text = sent_text[len(prev_text):]
 
             result: Dict[str, Any] = {
                 "rid": rid,
-- 
2.43.0


From 279876e107572f84a674e7db68ed80fb2c050b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 028/154] fix: split batches of one request like other batches

A list with one prompt was forwarded as the whole batch: its result was
registered under the text of the id list and never delivered.
---
 pymllm/engine/io_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 06c8d78..f948af3 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -85,7 +85,7 @@ class GenerateReqInput(BaseReq):
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-        if self.batch_size == 1:
+        if self.is_single:
             return self
         return GenerateReqInput(
             rid=self._pick(self.rid, i),
-- 
2.43.0


From f676c414155a08ee008bb263829eaafc236c50ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 029/154] fix: allow Engine.generate to be called more than
 once

Each call runs on an event loop of its own, but the request/response
tasks and queue stayed bound to the first call's closed loop.
---
 pymllm/engine/launch.py                         |  2 ++
 pymllm/orchestrator/request_response_process.py | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 8fd39ca..6f56ab5 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -405,6 +405,8 @@ class Engine:
         try:
             return loop.run_until_complete(_run())
         finally:
+            # The next call runs on an event loop of its own.
+            loop.run_until_complete(self._rr_process.stop_listening())
             loop.close()
 
     async def generate_async(
diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index f59ffa5..57b933d 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -101,6 +101,16 @@ class RequestResponseProcess:
         self._loop_task = loop.create_task(self._run())
         logger.debug("RequestResponseProcess: background tasks started")
 
+    async def stop_listening(self) -> None:
+        """Stop the background tasks, so that :meth:`listen` can start them
+        again on another event loop."""
+        if self._loop_task is None:
+            return
+        self._loop_task.cancel()
+        await asyncio.gather(self._loop_task, return_exceptions=True)
+        self._loop_task = None
+        self._request_queue = asyncio.Queue()
+
     async def add_request(
         self,
         request: GenerateReqInput,
-- 
2.43.0


From e73ee178ff1f1ebeb975ff21dcf39694947d545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 030/154] fix: drop the state of finished requests in
 Engine.generate

---
 pymllm/engine/launch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 6f56ab5..e520265 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -392,13 +392,17 @@ class Engine:
             result = await self._rr_process.add_request(request, max_queued=max_queued)
             if request.is_single:
                 single_rid = rid if isinstance(rid, str) else rid[0]
-                return await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
+                output = await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
+                self._rr_process.remove_state(single_rid)
+                return output
             # Batch: wait for every sub-request concurrently.
             rids_list: List[str] = rid if isinstance(rid, list) else [rid]  # type: ignore[assignment]
             states: List[ReqState] = result  # type: ignore[assignment]
             outputs = await asyncio.gather(
                 *(self._wait_for_final_result(r, s) for r, s in zip(rids_list, states))
             )
+            for r in rids_list:
+                self._rr_process.remove_state(r)
             return list(outputs)
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From a3f3861424a6dc630c718fcfb414c4f7f91e92e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 031/154] fix: give completion choices the index of their
 prompt

With a list of prompts the choices were numbered in the order in which the
requests finished, all streamed chunks had index 0, and the streamed usage
only counted the prompt whose chunk came last.
---
 pymllm/server/launch.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 8368954..6fce618 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -737,19 +737,28 @@ async def openai_completions(obj: CompletionRequest, request: Request):
         obj.stream_options is not None and obj.stream_options.include_usage
     )
 
+    # Results of a prompt list arrive in completion order; their request ids
+    # tell which prompt (choice index) they belong to.
+    gen_kwargs: Dict[str, Any] = {"prompt": obj.prompt, "sampling_params": sp}
+    rid_to_index: Dict[str, int] = {}
+    if isinstance(obj.prompt, list):
+        gen_kwargs["rid"] = [uuid.uuid4().hex for _ in obj.prompt]
+        rid_to_index = {r: i for i, r in enumerate(gen_kwargs["rid"])}
+
     if obj.stream:
 
         async def _stream() -> AsyncIterator[bytes]:
             comp_id = _make_completion_id()
-            prompt_tokens = 0
-            completion_tokens = 0
-            gen = engine.generate_async(
-                prompt=obj.prompt, sampling_params=sp, stream=True
-            )
+            prompt_tokens_by_index: Dict[int, int] = {}
+            completion_tokens_by_index: Dict[int, int] = {}
+            gen = engine.generate_async(**gen_kwargs, stream=True)
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
-                    prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
-                    completion_tokens = chunk.get("completion_tokens", completion_tokens)
+                    index = rid_to_index.get(chunk.get("rid"), 0)
+                    if "prompt_tokens" in chunk:
+                        prompt_tokens_by_index[index] = chunk["prompt_tokens"]
+                    if "completion_tokens" in chunk:
+                        completion_tokens_by_index[index] = chunk["completion_tokens"]
                     delta_text = chunk.get("delta", "")
                     finish_reason = _normalize_finish_reason(
                         chunk.get("finished_reason")
@@ -764,7 +773,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                         "model": model_name,
                         "choices": [
                             {
-                                "index": 0,
+                                "index": index,
                                 "text": delta_text,
                                 "logprobs": None,
                                 "finish_reason": finish_reason,
@@ -780,6 +789,8 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                 await gen.aclose()
             # Final usage-only chunk (OpenAI stream_options.include_usage)
             if include_usage:
+                prompt_tokens = sum(prompt_tokens_by_index.values())
+                completion_tokens = sum(completion_tokens_by_index.values())
                 usage_chunk: Dict[str, Any] = {
                     "id": comp_id,
                     "object": "text_completion",
@@ -797,13 +808,12 @@ async def openai_completions(obj: CompletionRequest, request: Request):
 
         return StreamingResponse(_stream(), media_type="text/event-stream")
 
-    gen = engine.generate_async(
-        prompt=obj.prompt, sampling_params=sp
-    )
+    gen = engine.generate_async(**gen_kwargs)
     try:
         results = []
         async for item in _iter_with_disconnect_check(gen, request):
             results.append(item)
+        results.sort(key=lambda r: rid_to_index.get(r.get("rid"), 0))
         choices = []
         prompt_tokens = 0
         completion_tokens = 0
-- 
2.43.0


From 58511b9a3cd786f617dac95e40ccff77fb30cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 032/154] fix: render tools, tool calls and tool results into
 the chat prompt

Tool definitions and the tool_calls / tool_call_id of earlier messages
were dropped before the chat template was applied, so the model never saw
them.
---
 pymllm/server/launch.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 6fce618..abf7ff6 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -532,6 +532,7 @@ def _is_qwen3vl_architecture() -> bool:
 def _messages_to_prompt(
     messages: List[ChatMessage],
     chat_template_kwargs: Optional[Dict[str, Any]] = None,
+    tools: Optional[List[Tool]] = None,
 ) -> str:
     """Render chat messages into a prompt string via the model's chat template.
 
@@ -543,6 +544,8 @@ def _messages_to_prompt(
     chat_template_kwargs
         Extra keyword arguments forwarded to ``apply_chat_template``
         (e.g. ``enable_thinking=True`` for Qwen3).
+    tools
+        Tool definitions of the request, forwarded to ``apply_chat_template``.
 
     Notes
     -----
@@ -583,12 +586,20 @@ def _messages_to_prompt(
         d: Dict[str, Any] = {"role": msg.role, "content": content}
         if msg.name is not None:
             d["name"] = msg.name
+        if msg.tool_calls is not None:
+            d["tool_calls"] = msg.tool_calls
+        if msg.tool_call_id is not None:
+            d["tool_call_id"] = msg.tool_call_id
         msg_dicts.append(d)
 
     tokenizer = _tokenizer
     if tokenizer is not None and hasattr(tokenizer, "apply_chat_template"):
         try:
             extra = dict(chat_template_kwargs) if chat_template_kwargs else {}
+            if tools:
+                extra.setdefault(
+                    "tools", [t.model_dump(exclude_none=True) for t in tools]
+                )
             return tokenizer.apply_chat_template(
                 msg_dicts,
                 tokenize=False,
@@ -883,7 +894,11 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
     chat_kwargs = dict(obj.chat_template_kwargs) if obj.chat_template_kwargs else {}
     if cfg.server.reasoning_parser and "enable_thinking" not in chat_kwargs:
         chat_kwargs["enable_thinking"] = True
-    prompt = _messages_to_prompt(obj.messages, chat_template_kwargs=chat_kwargs or None)
+    prompt = _messages_to_prompt(
+        obj.messages,
+        chat_template_kwargs=chat_kwargs or None,
+        tools=None if obj.tool_choice == "none" else obj.tools,
+    )
     image_data = _extract_image_data(obj.messages)
 
     # max_completion_tokens takes precedence over max_tokens (OpenAI convention)
-- 
2.43.0


From 3b82c7848a3e93ebc76281b40c3ecbf7696ef266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 033/154] fix: do not count an unparsable body as a streamed
 tool call

---
 pymllm/parsers/tool_call_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index 251c699..fccb9b1 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -246,7 +246,8 @@ class ToolCallParser:
                         if item is not None:
                             items.append(item)
                         self._in_call = False
-                        self._current_tool_idx += 1
+                        if item is not None or self._name_sent:
+                            self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
                         # Accumulate and stream arguments
-- 
2.43.0


From 67d145feba545c42c71de9866a921abc015de7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 034/154] fix: abort the request when a streaming client
 disconnects

---
 pymllm/server/launch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index abf7ff6..6d9852e 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -84,10 +84,14 @@ async def _iter_with_disconnect_check(
                     # Close the generator to trigger its finally block.
                     await agen.aclose()
                     return
-        except Exception:
+        except BaseException:
+            # Also on cancellation (the server cancels a streaming response
+            # when its client goes away): the generator cannot be closed, and
+            # its request not aborted, while the task still runs it.
             next_task.cancel()
-            with contextlib.suppress(asyncio.CancelledError, StopAsyncIteration):
-                await next_task
+            while not next_task.done():
+                with contextlib.suppress(asyncio.CancelledError):
+                    await asyncio.wait({next_task})
             raise
 
         try:
-- 
2.43.0


From fab62fbf1d3564e9a00d449d1b38fa56a946234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 035/154] fix: do not send aborts for requests that are not
 pending

---
 pymllm/orchestrator/request_response_process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 57b933d..4dee060 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -161,7 +161,12 @@ class RequestResponseProcess:
     async def abort_request(self, rid: str) -> None:
         """Cancel a pending request and notify downstream processes."""
         state = self._rid_to_state.pop(rid, None)
-        if state is not None and not state.finished:
+        if state is None:
+            # Not a pending request.  An abort message sent anyway could hit a
+            # request that takes the same rid afterwards: messages and requests
+            # may travel on different queues.
+            return
+        if not state.finished:
             state.finished = True
             state.out_list.append({"rid": rid, "error": "aborted", "finished": True})
             state.event.set()
-- 
2.43.0


From 1254f8629a6ba0cf588e81caf234c48c28c6e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 036/154] fix: do not let an abort overtake its own request

---
 pymllm/orchestrator/request_response_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 4dee060..c4058f4 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -171,7 +171,8 @@ class RequestResponseProcess:
             state.out_list.append({"rid": rid, "error": "aborted", "finished": True})
             state.event.set()
         if self._send_to_tokenizer is not None:
-            await self._send_to_tokenizer.send_pyobj({"rid": rid, "abort": True})
+            # Behind the request itself, which may still wait in the queue.
+            await self._request_queue.put({"rid": rid, "abort": True})
 
     async def shutdown(self) -> None:
         if self._loop_task is not None:
-- 
2.43.0


From 384eaeed9e8267cbc2fbf2c238e30e67ee8888aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 037/154] fix: contiguous() copies views by their strides

---
 mllm/backends/cpu/ops/ContiguousOp.cpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/mllm/backends/cpu/ops/ContiguousOp.cpp b/mllm/backends/cpu/ops/ContiguousOp.cpp
index 33a1c8f..a5a3add 100644
--- a/mllm/backends/cpu/ops/ContiguousOp.cpp
+++ b/mllm/backends/cpu/ops/ContiguousOp.cpp
@@ -74,33 +74,18 @@ void CPUContiguousOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
     return;
   }
 
-  bool last_dim_contiguous = true;
-  for (int d = ndim - 2; d >= 0; --d) {
-    if (i.stride()[d] != i.stride()[d + 1] * i.stride()[d + 1]) {
-      last_dim_contiguous = false;
-      break;
-    }
-  }
-
-  if (last_dim_contiguous) {
+  if (i.stride()[ndim - 1] == 1) {
     const int32_t inner_size = i.shape()[ndim - 1];
     const int32_t inner_bytes = inner_size * ele_size;
     const int32_t outer_count = total_elements / inner_size;
 
-    std::vector<int32_t> outer_strides(ndim - 1);
-    int64_t cumulative_stride = 1;
-    for (int d = ndim - 2; d >= 0; --d) {
-      cumulative_stride *= i.shape()[d + 1];
-      outer_strides[d] = i.stride()[d] * cumulative_stride;
-    }
-
     for (int32_t idx = 0; idx < outer_count; ++idx) {
       int64_t offset = 0;
       int32_t temp = idx;
-      for (int d = 0; d < ndim - 1; ++d) {
+      for (int d = ndim - 2; d >= 0; --d) {
         const int32_t dim_index = temp % i.shape()[d];
         temp /= i.shape()[d];
-        offset += dim_index * outer_strides[d];
+        offset += static_cast<int64_t>(dim_index) * i.stride()[d];
       }
       std::memcpy(dst_ptr, src_ptr + offset * ele_size, inner_bytes);
       dst_ptr += inner_bytes;
-- 
2.43.0


From c692316fdd9544c9cca1adde8f7f754e01d01042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 038/154] fix: clone() of a view copies the view, not the whole
 storage

---
 mllm/backends/cpu/ops/CloneOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/CloneOp.cpp b/mllm/backends/cpu/ops/CloneOp.cpp
index 96109ef..4e95503 100644
--- a/mllm/backends/cpu/ops/CloneOp.cpp
+++ b/mllm/backends/cpu/ops/CloneOp.cpp
@@ -15,7 +15,8 @@ void CPUCloneOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(i.isContiguous());
 
-  std::memcpy(o.ptr<char>(), i.ptr<char>(), i.bytes());
+  // i may be a view of a larger storage
+  std::memcpy(o.ptr<char>(), i.ptr<char>(), o.bytes());
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From c00fae0b41820e1c3cb0a929a6cd0b6822f5e099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 039/154] fix: copy2() copies the elements of the view, not the
 whole storage

---
 mllm/backends/cpu/ops/CopyOp.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/CopyOp.cpp b/mllm/backends/cpu/ops/CopyOp.cpp
index 33f1cad..4a8f705 100644
--- a/mllm/backends/cpu/ops/CopyOp.cpp
+++ b/mllm/backends/cpu/ops/CopyOp.cpp
@@ -3,6 +3,7 @@
 
 #include "mllm/backends/cpu/ops/CopyOp.hpp"
 #include <cstring>
+#include <vector>
 
 namespace mllm::cpu {
 
@@ -12,9 +13,25 @@ void CPUCopyOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   auto& i0 = inputs[0];
   auto& i1 = inputs[1];
 
-  // FIXME: Maybe we should handle contiguous issues here.
+  // Both may be views of a larger storage, bytes() is the size of the whole storage.
+  const size_t lanes = lanesOfType(i0.dtype());
+  const size_t block_bytes = bytesOfType(i0.dtype());
 
-  std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.bytes());
+  if (i0.isContiguous() && i1.isContiguous()) {
+    std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.numel() / lanes * block_bytes);
+    return;
+  }
+
+  const auto shape = i0.shape();
+  std::vector<int32_t> index(shape.size(), 0);
+  for (size_t count = i0.numel() / lanes; count > 0; --count) {
+    std::memcpy(i1.coffsettedPtr<char>(index), i0.coffsettedPtr<char>(index), block_bytes);
+    for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) {
+      index[d] += d + 1 == static_cast<int>(shape.size()) ? static_cast<int32_t>(lanes) : 1;
+      if (index[d] < shape[d]) { break; }
+      index[d] = 0;
+    }
+  }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From 981b2bc6ca67d80342ad37af715154589b5291cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 040/154] fix: indexing a view takes the element size of its
 type

---
 mllm/core/aops/IndexOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/core/aops/IndexOp.cpp b/mllm/core/aops/IndexOp.cpp
index 2c1b557..0d222b6 100644
--- a/mllm/core/aops/IndexOp.cpp
+++ b/mllm/core/aops/IndexOp.cpp
@@ -39,7 +39,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   MLLM_RT_ASSERT(output.isContiguous());
 
   auto output_shape = output.shape();
-  size_t element_size = input.bytes() / input.numel();
+  size_t element_size = bytesOfType(input.dtype()) / lanesOfType(input.dtype());
 
   // Create index vectors for iteration
   std::vector<int> out_indices(output_shape.size(), 0);
-- 
2.43.0


From 1c286cae320b3d08f1ed2b93827432269b89210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 041/154] fix: argsort, topk, gather, repeat and pad respect
 the strides of a view

---
 mllm/backends/cpu/ops/ArgsortOp.cpp | 4 +++-
 mllm/backends/cpu/ops/GatherOp.cpp  | 7 +++++--
 mllm/backends/cpu/ops/PadOp.cpp     | 4 +++-
 mllm/backends/cpu/ops/RepeatOp.cpp  | 4 +++-
 mllm/backends/cpu/ops/TopKOp.cpp    | 4 +++-
 5 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/mllm/backends/cpu/ops/ArgsortOp.cpp b/mllm/backends/cpu/ops/ArgsortOp.cpp
index 646499c..53075af 100644
--- a/mllm/backends/cpu/ops/ArgsortOp.cpp
+++ b/mllm/backends/cpu/ops/ArgsortOp.cpp
@@ -49,7 +49,9 @@ void argsort_impl(const T* input_data, int32_t* indices_data, int outer_size, in
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 void CPUArgsortOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  auto input = inputs[0];
+  // The kernel walks the memory linearly.
+  if (!input.isContiguous()) { input = input.contiguous(); }
   auto& indices = outputs[0];
 
   auto dtype = input.dtype();
diff --git a/mllm/backends/cpu/ops/GatherOp.cpp b/mllm/backends/cpu/ops/GatherOp.cpp
index dd8d0a8..a9731ac 100644
--- a/mllm/backends/cpu/ops/GatherOp.cpp
+++ b/mllm/backends/cpu/ops/GatherOp.cpp
@@ -9,8 +9,11 @@ namespace mllm::cpu {
 CPUGatherOp::CPUGatherOp(const aops::GatherOpOptions& options) : aops::GatherOp(options) {}
 
 void CPUGatherOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& table = inputs[0];
-  auto& indices = inputs[1];
+  auto table = inputs[0];
+  auto indices = inputs[1];
+  // The kernel walks the memory linearly.
+  if (!table.isContiguous()) { table = table.contiguous(); }
+  if (!indices.isContiguous()) { indices = indices.contiguous(); }
   auto& output = outputs[0];
 
   int dim = options_.dim;
diff --git a/mllm/backends/cpu/ops/PadOp.cpp b/mllm/backends/cpu/ops/PadOp.cpp
index ba363c8..828f435 100644
--- a/mllm/backends/cpu/ops/PadOp.cpp
+++ b/mllm/backends/cpu/ops/PadOp.cpp
@@ -51,7 +51,9 @@ static inline int32_t circular_index(int32_t x, int32_t size) {
 }
 
 void CPUPadOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  auto X = inputs[0];
+  // The kernel walks the memory linearly.
+  if (!X.isContiguous()) { X = X.contiguous(); }
   auto& Y = outputs[0];
 
   const auto& in_shape = X.shape();
diff --git a/mllm/backends/cpu/ops/RepeatOp.cpp b/mllm/backends/cpu/ops/RepeatOp.cpp
index 32a0578..e99c30a 100644
--- a/mllm/backends/cpu/ops/RepeatOp.cpp
+++ b/mllm/backends/cpu/ops/RepeatOp.cpp
@@ -9,7 +9,9 @@ namespace mllm::cpu {
 CPURepeatOp::CPURepeatOp(const aops::RepeatOpOptions& options) : aops::RepeatOp(options) {}
 
 void CPURepeatOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& X = inputs[0];
+  auto X = inputs[0];
+  // The kernel walks the memory linearly.
+  if (!X.isContiguous()) { X = X.contiguous(); }
   auto& Y = outputs[0];
 
   auto multiplier = options_.repeat_times;
diff --git a/mllm/backends/cpu/ops/TopKOp.cpp b/mllm/backends/cpu/ops/TopKOp.cpp
index 43add5d..13dfd42 100644
--- a/mllm/backends/cpu/ops/TopKOp.cpp
+++ b/mllm/backends/cpu/ops/TopKOp.cpp
@@ -72,7 +72,9 @@ void topk_impl(const T* input_data, T* values_data, int32_t* indices_data, int o
 
 __MLLM_UNSAFE_OPT_BEGIN_O3_FAST_MATH
 void CPUTopKOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input = inputs[0];
+  auto input = inputs[0];
+  // The kernel walks the memory linearly.
+  if (!input.isContiguous()) { input = input.contiguous(); }
   auto& values = outputs[0];
   auto& indices = outputs[1];
 
-- 
2.43.0


From 50aab1e3a232902930860ded8dc074c197e8702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 042/154] fix: scatter2Shards along the first or last dimension
 and for views

---
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index cde9497..03ea30b 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -11,7 +11,9 @@ namespace mllm::cpu {
 CPUScatter2ShardsOp::CPUScatter2ShardsOp(const aops::Scatter2ShardsOpOptions& options) : aops::Scatter2ShardsOp(options) {}
 
 void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  const auto& src = inputs[0];
+  auto src = inputs[0];
+  // The kernel walks the memory linearly.
+  if (!src.isContiguous()) { src = src.contiguous(); }
   const auto& dst_ptrs = inputs[1];
 
   // Validation
@@ -26,8 +28,6 @@ void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector
   for (int i = options_.dim + 1; i < src.rank(); ++i) { floating_shards_point_right *= src.shape()[i]; }
   int32_t floating_shards_point_stride = 1;
   for (int i = options_.dim; i < src.rank(); ++i) { floating_shards_point_stride *= src.shape()[i]; }
-  if (options_.dim == src.rank() - 1) { floating_shards_point_stride = 1; }
-  if (options_.dim == 0) { floating_shards_point_left = src.stride()[0]; }
 
   int32_t loop_times = src.shape()[options_.dim];
   for (int lo = 0; lo < loop_times; ++lo) {
-- 
2.43.0


From aec12a82cb00028ca43cfe6850ba0b88c29272ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 043/154] fix: maskedScatter takes the source elements one
 after another

---
 mllm/backends/cpu/ops/MaskedScatterOp.cpp | 226 ++++------------------
 1 file changed, 36 insertions(+), 190 deletions(-)

diff --git a/mllm/backends/cpu/ops/MaskedScatterOp.cpp b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
index e41c568..ab59f17 100644
--- a/mllm/backends/cpu/ops/MaskedScatterOp.cpp
+++ b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
@@ -4,216 +4,62 @@
 #include "mllm/backends/cpu/ops/MaskedScatterOp.hpp"
 #include "mllm/core/Tensor.hpp"
 #include "mllm/core/OpTypes.hpp"
-#include <cstring>
 #include <vector>
-#include <numeric>
 
 namespace mllm::cpu {
 
 CPUMaskedScatterOp::CPUMaskedScatterOp(const aops::MaskedScatterOpOptions& options) : aops::MaskedScatterOp(options) {}
 
-// Helper function to calculate broadcast shape
-std::vector<int32_t> calculateBroadcastShape(const std::vector<int32_t>& shape_a, const std::vector<int32_t>& shape_b) {
-  // Determine the maximum number of dimensions
-  size_t max_ndim = std::max(shape_a.size(), shape_b.size());
-  std::vector<int32_t> broadcast_shape(max_ndim);
-
-  // Pad shapes to the same number of dimensions
-  std::vector<int32_t> padded_a(max_ndim, 1);
-  std::vector<int32_t> padded_b(max_ndim, 1);
-
-  // Copy original shapes to the end (right-aligned)
-  std::copy(shape_a.begin(), shape_a.end(), padded_a.begin() + (max_ndim - shape_a.size()));
-  std::copy(shape_b.begin(), shape_b.end(), padded_b.begin() + (max_ndim - shape_b.size()));
-
-  // Calculate broadcast shape
-  for (size_t i = 0; i < max_ndim; ++i) {
-    if (padded_a[i] == padded_b[i]) {
-      broadcast_shape[i] = padded_a[i];
-    } else if (padded_a[i] == 1) {
-      broadcast_shape[i] = padded_b[i];
-    } else if (padded_b[i] == 1) {
-      broadcast_shape[i] = padded_a[i];
-    } else {
-      // Cannot broadcast, should not happen in valid cases
-      broadcast_shape[i] = std::max(padded_a[i], padded_b[i]);
+namespace {
+
+// Like torch.Tensor.masked_scatter_: the masked positions of dst, in row-major order, take the elements of src one after another.
+template<typename T>
+void maskedScatterImpl(const Tensor& dst, const Tensor& mask, const Tensor& src) {
+  const auto shape = dst.shape();
+  const auto mask_shape = mask.shape();
+  const int ndim = static_cast<int>(shape.size());
+  const int mask_offset = ndim - static_cast<int>(mask_shape.size());
+
+  const T* src_ptr = src.ptr<T>();
+  const size_t src_numel = src.numel();
+  size_t taken = 0;
+
+  std::vector<int32_t> index(ndim, 0);
+  std::vector<int32_t> mask_index(mask_shape.size(), 0);
+  for (size_t count = dst.numel(); count > 0; --count) {
+    for (int d = mask_offset; d < ndim; ++d) { mask_index[d - mask_offset] = mask_shape[d - mask_offset] == 1 ? 0 : index[d]; }
+    if (*mask.coffsettedPtr<uint8_t>(mask_index) != 0) {
+      if (taken == src_numel) {
+        MLLM_ERROR_EXIT(ExitCode::kCoreError, "MaskedScatterOp: the mask selects more elements than src has ({})", src_numel);
+      }
+      *dst.coffsettedPtr<T>(index) = src_ptr[taken++];
+    }
+    for (int d = ndim - 1; d >= 0; --d) {
+      if (++index[d] < shape[d]) { break; }
+      index[d] = 0;
     }
   }
-
-  return broadcast_shape;
-}
-
-// Helper function to calculate strides for broadcasting
-std::vector<int32_t> calculateStrides(const std::vector<int32_t>& shape) {
-  std::vector<int32_t> strides(shape.size(), 1);
-  for (int i = shape.size() - 2; i >= 0; --i) { strides[i] = strides[i + 1] * shape[i + 1]; }
-  return strides;
 }
 
-// Helper function to convert multi-dimensional index to linear index
-int32_t getLinearIndex(const std::vector<int32_t>& indices, const std::vector<int32_t>& strides) {
-  int32_t linear_index = 0;
-  for (size_t i = 0; i < indices.size(); ++i) { linear_index += indices[i] * strides[i]; }
-  return linear_index;
-}
-
-// Helper function to convert linear index to multi-dimensional indices
-std::vector<int32_t> getMultiDimIndices(int32_t linear_index, const std::vector<int32_t>& shape) {
-  std::vector<int32_t> indices(shape.size());
-  for (int i = shape.size() - 1; i >= 0; --i) {
-    indices[i] = linear_index % shape[i];
-    linear_index /= shape[i];
-  }
-  return indices;
-}
+}  // namespace
 
 void CPUMaskedScatterOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  // dst, mask, src
+  // dst, mask, src. The output is dst itself (in-place operation).
   auto& dst = inputs[0];
   auto& mask = inputs[1];
-  auto& src = inputs[2];
+  auto src = inputs[2];
 
   MLLM_RT_ASSERT_EQ(mask.dtype(), kInt8);
-
-  // dst and output should be the same tensor (in-place operation)
-  // But we still need to ensure output has the correct shape
-  auto& output = outputs[0];
-
-  // Get shapes
-  auto dst_shape = dst.shape();
-  auto mask_shape = mask.shape();
-  auto src_shape = src.shape();
-
-  // Calculate broadcast shape for all tensors
-  auto broadcast_shape = calculateBroadcastShape(dst_shape, mask_shape);
-  broadcast_shape = calculateBroadcastShape(broadcast_shape, src_shape);
-
-  // Calculate strides for broadcasting
-  auto dst_strides = calculateStrides(dst_shape);
-  auto mask_strides = calculateStrides(mask_shape);
-  auto src_strides = calculateStrides(src_shape);
-  auto broadcast_strides = calculateStrides(broadcast_shape);
-
-  // Calculate total elements
-  int32_t total_elements = std::accumulate(broadcast_shape.begin(), broadcast_shape.end(), 1, std::multiplies<>());
-
-  // Check data types
+  MLLM_RT_ASSERT(mask.rank() <= dst.rank());
   MLLM_RT_ASSERT(dst.dtype() == src.dtype());
 
-  // Handle different data types
-  if (dst.dtype() == MLLM_TYPE_F32) {
-    float* dst_ptr = dst.ptr<float>();
-    float* src_ptr = src.ptr<float>();
-    uint8_t* mask_ptr = mask.ptr<uint8_t>();
-
-    for (int32_t i = 0; i < total_elements; ++i) {
-      // Convert linear index to multi-dimensional indices
-      auto indices = getMultiDimIndices(i, broadcast_shape);
-
-      // Calculate index for mask with broadcasting
-      int32_t mask_linear_index = 0;
-      if (mask_shape.size() == 1 && mask_shape[0] == 1) {
-        // Scalar mask
-        mask_linear_index = 0;
-      } else {
-        // Multi-dimensional mask
-        std::vector<int32_t> mask_indices(mask_shape.size());
-        int offset = broadcast_shape.size() - mask_shape.size();
-        for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = indices[j + offset] % mask_shape[j]; }
-        mask_linear_index = getLinearIndex(mask_indices, mask_strides);
-      }
-
-      // If mask is true, copy from src to dst
-      if (mask_ptr[mask_linear_index] != 0) {
-        // Calculate index for dst
-        int32_t dst_linear_index = 0;
-        if (dst_shape.size() == 1 && dst_shape[0] == 1) {
-          // Scalar dst
-          dst_linear_index = 0;
-        } else {
-          // Multi-dimensional dst
-          std::vector<int32_t> dst_indices(dst_shape.size());
-          int offset = broadcast_shape.size() - dst_shape.size();
-          for (size_t j = 0; j < dst_shape.size(); ++j) { dst_indices[j] = indices[j + offset] % dst_shape[j]; }
-          dst_linear_index = getLinearIndex(dst_indices, dst_strides);
-        }
-
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
-      }
-    }
-  } else if (dst.dtype() == MLLM_TYPE_F16) {
-    mllm_fp16_t* dst_ptr = dst.ptr<mllm_fp16_t>();
-    mllm_fp16_t* src_ptr = src.ptr<mllm_fp16_t>();
-    uint8_t* mask_ptr = mask.ptr<uint8_t>();
+  if (!src.isContiguous()) { src = src.contiguous(); }
 
-    for (int32_t i = 0; i < total_elements; ++i) {
-      // Convert linear index to multi-dimensional indices
-      auto indices = getMultiDimIndices(i, broadcast_shape);
-
-      // Calculate index for mask with broadcasting
-      int32_t mask_linear_index = 0;
-      if (mask_shape.size() == 1 && mask_shape[0] == 1) {
-        // Scalar mask
-        mask_linear_index = 0;
-      } else {
-        // Multi-dimensional mask
-        std::vector<int32_t> mask_indices(mask_shape.size());
-        int offset = broadcast_shape.size() - mask_shape.size();
-        for (size_t j = 0; j < mask_shape.size(); ++j) { mask_indices[j] = indices[j + offset] % mask_shape[j]; }
-        mask_linear_index = getLinearIndex(mask_indices, mask_strides);
-      }
-
-      // If mask is true, copy from src to dst
-      if (mask_ptr[mask_linear_index] != 0) {
-        // Calculate index for dst
-        int32_t dst_linear_index = 0;
-        if (dst_shape.size() == 1 && dst_shape[0] == 1) {
-          // Scalar dst
-          dst_linear_index = 0;
-        } else {
-          // Multi-dimensional dst
-          std::vector<int32_t> dst_indices(dst_shape.size());
-          int offset = broadcast_shape.size() - dst_shape.size();
-          for (size_t j = 0; j < dst_shape.size(); ++j) { dst_indices[j] = indices[j + offset] % dst_shape[j]; }
-          dst_linear_index = getLinearIndex(dst_indices, dst_strides);
-        }
-
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
-      }
-    }
-  } else {
-    // For other data types, we could add support similarly
-    NYI("Unsupported data type for MaskedScatter operation");
+  switch (dst.dtype()) {
+    case kFloat32: maskedScatterImpl<mllm_fp32_t>(dst, mask, src); break;
+    case kFloat16: maskedScatterImpl<mllm_fp16_t>(dst, mask, src); break;
+    default: NYI("Unsupported data type for MaskedScatter operation"); break;
   }
-
-  // Copy result to output
-  if (output.ptr<void>() != dst.ptr<void>()) { std::memcpy(output.ptr<void>(), dst.ptr<void>(), dst.bytes()); }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From 7be6dc373b20850ada10fa851ab091c497400a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 044/154] fix: model file v1: size the descriptor section by
 the names that are written

---
 mllm/core/ParameterFile.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 072adfa..be1198c 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -213,12 +213,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Calculate total size of the descriptor section
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    param_desc_total_size += sizeof(uint32_t);                        // name length
-    param_desc_total_size += tensor.impl()->storage()->name_.size();  // name string
-    param_desc_total_size += sizeof(uint64_t);                        // data length
-    param_desc_total_size += sizeof(uint64_t);                        // offset
-    param_desc_total_size += sizeof(int32_t);                         // data type
+    param_desc_total_size += sizeof(uint32_t);   // name length
+    param_desc_total_size += pair.first.size();  // name string
+    param_desc_total_size += sizeof(uint64_t);   // data length
+    param_desc_total_size += sizeof(uint64_t);   // offset
+    param_desc_total_size += sizeof(int32_t);    // data type
   }
 
   // Write header: parameter_desc_offset is now the SIZE of the descriptor section
-- 
2.43.0


From ff08e50c955a313504dde34c8d4e40826a1ece7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 045/154] fix: model files: store the elements of a view, not
 the storage behind it

---
 mllm/core/ParameterFile.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index be1198c..d7eeb3a 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -15,6 +15,16 @@
 
 namespace mllm {
 
+namespace {
+
+// The tensor as it is stored in a model file: its own elements only, in row-major order.
+Tensor storedForm(const Tensor& tensor) { return tensor.isContiguous() ? tensor : Tensor(tensor.impl()).contiguous(); }
+
+// Bytes of the elements a (contiguous) tensor shows, which may be less than the storage behind it.
+size_t storedBytes(const Tensor& tensor) { return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype()); }
+
+}  // namespace
+
 ParameterFile::ParameterFile(ModelFileVersion v) : version_(v) {}
 
 ParameterFile::ptr_t ParameterFile::create(ModelFileVersion v) { return std::make_shared<ParameterFile>(v); }
@@ -240,7 +250,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
     out_file.write(name.c_str(), name_len);
 
     // Data length (bytes)
-    uint64_t data_len = tensor.bytes();
+    uint64_t data_len = storedBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(&data_len), sizeof(data_len));
 
     // Offset (absolute from file start)
@@ -254,8 +264,8 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Write tensor data
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    size_t data_size = tensor.bytes();
+    const auto tensor = storedForm(pair.second);
+    size_t data_size = storedBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
@@ -395,7 +405,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
 
   // First pass: write parameter descriptors
   std::vector<std::pair<std::string, Tensor>> tensors;
-  for (const auto& pair : *parameter_file) { tensors.emplace_back(pair.first, pair.second); }
+  for (const auto& pair : *parameter_file) { tensors.emplace_back(pair.first, storedForm(pair.second)); }
 
   // Write parameter descriptors
   for (const auto& [name, tensor] : tensors) {
@@ -408,7 +418,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     param_desc.parameter_type = static_cast<uint32_t>(tensor.dtype());
 
     // Set parameter size
-    param_desc.parameter_size = tensor.bytes();
+    param_desc.parameter_size = storedBytes(tensor);
 
     // Set parameter offset
     param_desc.parameter_offset = current_data_offset;
@@ -426,12 +436,12 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     out_file.write(reinterpret_cast<const char*>(&param_desc), sizeof(param_desc));
 
     // Update current data offset
-    current_data_offset += tensor.bytes();
+    current_data_offset += storedBytes(tensor);
   }
 
   // Second pass: write tensor data
   for (const auto& [name, tensor] : tensors) {
-    size_t data_size = tensor.bytes();
+    size_t data_size = storedBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-- 
2.43.0


From 2c83c2922d10489285ac16688d833632efff670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 046/154] fix: model file v2: refuse a parameter name that does
 not fit instead of cutting it off

---
 mllm/core/ParameterFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index d7eeb3a..64703fa 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -406,6 +406,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
   // First pass: write parameter descriptors
   std::vector<std::pair<std::string, Tensor>> tensors;
   for (const auto& pair : *parameter_file) { tensors.emplace_back(pair.first, storedForm(pair.second)); }
+  for (const auto& [name, tensor] : tensors) {
+    if (name.size() >= MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "Parameter name is too long for a v2 model file: {}", name);
+    }
+  }
 
   // Write parameter descriptors
   for (const auto& [name, tensor] : tensors) {
-- 
2.43.0


From cf13a20a779e3c7f7fe23fd482d2ccc3d6024e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 047/154] fix: model files: report a write that could not be
 completed

---
 mllm/core/ParameterFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 64703fa..7c10400 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -270,6 +270,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
   }
 
   out_file.close();
+  if (!out_file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
 }
 
 //===----------------------------------------------------------------------===//
@@ -451,5 +452,6 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
   }
 
   out_file.close();
+  if (!out_file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
 }
 }  // namespace mllm
-- 
2.43.0


From 8e00a87c403203d30411dfc393df780b9415027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 048/154] fix: model files: refuse truncated files and
 descriptors that reach outside of the file

---
 mllm/core/ParameterFile.cpp | 136 ++++++++++++++++++++++--------------
 1 file changed, 82 insertions(+), 54 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 7c10400..3acf7d1 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -3,7 +3,9 @@
 
 #include <limits>
 #include <vector>
+#include <cstring>
 #include <fstream>
+#include <filesystem>
 
 #include "mllm/utils/Common.hpp"
 #include "mllm/core/ParameterFile.hpp"
@@ -23,6 +25,61 @@ Tensor storedForm(const Tensor& tensor) { return tensor.isContiguous() ? tensor
 // Bytes of the elements a (contiguous) tensor shows, which may be less than the storage behind it.
 size_t storedBytes(const Tensor& tensor) { return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype()); }
 
+// Is [offset, offset + len) inside of a file with file_size bytes
+bool inFile(uint64_t offset, uint64_t len, uint64_t file_size) { return offset <= file_size && len <= file_size - offset; }
+
+// The elements a tensor shape asks for can be counted, and fit into parameter_size bytes.
+bool shapeFits(const TensorViewImpl::shape_t& shape, DataTypes dtype, uint64_t parameter_size) {
+  uint64_t cnt = 1;
+  for (auto dim : shape) {
+    if (dim < 0) { return false; }
+    if (dim != 0 && cnt > std::numeric_limits<int64_t>::max() / static_cast<uint64_t>(dim)) { return false; }
+    cnt *= dim;
+  }
+  return cnt / lanesOfType(dtype) <= parameter_size / bytesOfType(dtype);
+}
+
+std::vector<ModelFileV1ParamsDescriptorHelper> parseV1Descriptors(const char* current_pos, const char* end_pos) {
+  std::vector<ModelFileV1ParamsDescriptorHelper> ret;
+
+  auto take = [&](void* dst, size_t n) {
+    MLLM_RT_ASSERT(n <= static_cast<size_t>(end_pos - current_pos));
+    std::memcpy(dst, current_pos, n);
+    current_pos += n;
+  };
+
+  while (current_pos < end_pos) {
+    ModelFileV1ParamsDescriptorHelper helper;
+    auto& desc = helper.descriptor_;
+
+    // Name length
+    take(&desc.name_len, sizeof(desc.name_len));
+    MLLM_RT_ASSERT(desc.name_len >= 0 && desc.name_len <= end_pos - current_pos);
+
+    // Name
+    helper.name_ = std::string(current_pos, desc.name_len);
+    current_pos += desc.name_len;
+
+    // Weight length
+    take(&desc.data_len, sizeof(desc.data_len));
+
+    // Offset
+    take(&desc.offset, sizeof(desc.offset));
+
+    // Datatypes
+    take(&desc.dtype, sizeof(desc.dtype));
+
+    // The elements are counted in 32 bits, and there are no parts of one
+    auto dtype = static_cast<DataTypes>(desc.dtype);
+    MLLM_RT_ASSERT(desc.data_len % bytesOfType(dtype) == 0);
+    MLLM_RT_ASSERT(desc.data_len / bytesOfType(dtype) <= std::numeric_limits<int32_t>::max() / lanesOfType(dtype));
+
+    ret.emplace_back(helper);
+  }
+
+  return ret;
+}
+
 }  // namespace
 
 ParameterFile::ParameterFile(ModelFileVersion v) : version_(v) {}
@@ -88,41 +145,20 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     // Process Header
     uint64_t parameter_desc_offset = -1;
     {
+      MLLM_RT_ASSERT(mmap_file->size() >= sizeof(ModelFileV1Descriptor));
       auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
       parameter_desc_offset = header->parameter_desc_offset;
+      MLLM_RT_ASSERT(inFile(sizeof(ModelFileV1Descriptor), parameter_desc_offset, mmap_file->size()));
     }
     char* current_pos = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
     char* end_pos = current_pos + parameter_desc_offset;
 
     // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
+    auto tensor_meta_info = parseV1Descriptors(current_pos, end_pos);
+    for (auto& helper : tensor_meta_info) {
+      MLLM_RT_ASSERT(inFile(helper.descriptor_.offset, helper.descriptor_.data_len, mmap_file->size()));
       helper.ptr_ = static_cast<char*>(mmap_file->data()) + helper.descriptor_.offset;
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
     }
 
     for (auto& desc : tensor_meta_info) {
@@ -146,11 +182,14 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open file for reading: {}", file_path); }
 
     // Process Header
+    const uint64_t file_size = std::filesystem::file_size(file_path);
     ModelFileV1Descriptor header{};
     file.read(reinterpret_cast<char*>(&header), sizeof(header));
+    MLLM_RT_ASSERT(file_size >= sizeof(header));
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header.magic_number);
 
     uint64_t parameter_desc_offset = header.parameter_desc_offset;
+    MLLM_RT_ASSERT(inFile(sizeof(header), parameter_desc_offset, file_size));
     char* buffer = new char[parameter_desc_offset];
     file.read(buffer, parameter_desc_offset);
 
@@ -158,33 +197,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     char* end_pos = current_pos + parameter_desc_offset;
 
     // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
-    }
+    auto tensor_meta_info = parseV1Descriptors(current_pos, end_pos);
 
     delete[] buffer;
 
@@ -196,6 +209,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
 
       // Seek to data position and read
+      MLLM_RT_ASSERT(inFile(desc.descriptor_.offset, desc.descriptor_.data_len, file_size));
       file.seekg(desc.descriptor_.offset, std::ios::beg);
       auto s = TensorStorage::create(shape, dtype, kCPU);
       auto t = TensorViewImpl::create(shape, s);
@@ -288,9 +302,12 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
     // Process Header
     {
+      MLLM_RT_ASSERT(mmap_file->size() >= sizeof(ModelFileV2Descriptor));
       auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_VERSION, header->version);
+      MLLM_RT_ASSERT(
+          inFile(header->params_desc_offset, header->num_params * sizeof(ModelFileV2ParamsDescriptor), mmap_file->size()));
     }
 
     auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
@@ -318,6 +335,10 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
         shape.push_back(param_desc->shape[j]);
       }
 
+      // Check that the tensor is inside of the file
+      MLLM_RT_ASSERT(inFile(param_desc->parameter_offset, param_desc->parameter_size, mmap_file->size()));
+      MLLM_RT_ASSERT(shapeFits(shape, static_cast<DataTypes>(param_desc->parameter_type), param_desc->parameter_size));
+
       // Create tensor storage and view
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc->parameter_type), kCPU);
       auto t = TensorViewImpl::create(shape, s);
@@ -339,11 +360,14 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to open parameter file"); }
 
-    ModelFileV2Descriptor header;
+    const uint64_t file_size = std::filesystem::file_size(file_path);
+    ModelFileV2Descriptor header{};
     file.read(reinterpret_cast<char*>(&header), sizeof(ModelFileV2Descriptor));
 
+    MLLM_RT_ASSERT(file_size >= sizeof(ModelFileV2Descriptor));
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header.magic_number);
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_VERSION, header.version);
+    MLLM_RT_ASSERT(inFile(header.params_desc_offset, header.num_params * sizeof(ModelFileV2ParamsDescriptor), file_size));
 
     if (header.params_desc_offset != sizeof(ModelFileV2Descriptor)) {
       MLLM_WARN(
@@ -367,6 +391,10 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
         shape.push_back(param_desc.shape[j]);
       }
 
+      // Check that the tensor is inside of the file
+      MLLM_RT_ASSERT(inFile(param_desc.parameter_offset, param_desc.parameter_size, file_size));
+      MLLM_RT_ASSERT(shapeFits(shape, static_cast<DataTypes>(param_desc.parameter_type), param_desc.parameter_size));
+
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc.parameter_type), kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
-- 
2.43.0


From 7b8f0aa57e02d18e0f067725343275097a6dd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 049/154] fix: model file v2: read only as much as the tensor
 holds

---
 mllm/core/ParameterFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 3acf7d1..e0e84aa 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -401,7 +401,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       s->name_ = name;
       auto tensor = Tensor(t).alloc();
       file.seekg(param_desc.parameter_offset);
-      file.read(static_cast<char*>(s->ptr_), param_desc.parameter_size);
+      file.read(static_cast<char*>(s->ptr_), tensor.bytes());
       s->mem_type_ = kParamsNormal;
       MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       p_file->push(name, tensor);
-- 
2.43.0


From cfd694394a6e360ec67b78d8f0ff96c9f1d7c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 050/154] fix: convertor: look numpy arrays up by their scalar
 type

---
 pymllm/mobile/convertor/model_file_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..f71e9f4 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -146,7 +146,7 @@ class ModelFileV2:
             # Numpy array
             shape = list(tensor_obj.shape)
             tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -217,7 +217,7 @@ class ModelFileV2:
                 # Numpy array
                 shape = list(tensor.shape)
                 tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
-- 
2.43.0


From 08a5c58505bf8debb6601fe9b6bf60afe3f9a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 051/154] fix: convertor: refuse the parameter for which no
 descriptor was reserved

---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index f71e9f4..2d30443 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -159,7 +159,7 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
-- 
2.43.0


From e8befabb885e7166b61fff9a741821bddb7bf369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 052/154] fix: convertor: refuse a parameter name that does not
 fit instead of cutting it off

---
 pymllm/mobile/convertor/model_file_v2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 2d30443..116c4e1 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -55,6 +55,8 @@ class ModelFileV2ParamsDescriptor:
         shape: List[int],
         name: str,
     ):
+        if len(name.encode("utf-8")) > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH:
+            raise ValueError(f"parameter name is too long: {name}")
         self.param_id = param_id
         self.param_type = param_type
         self.param_size = param_size
-- 
2.43.0


From 58c4bc8c8056deeb185b16af2fc0731390942ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 053/154] fix: TensorViewImpl: a shape without dimensions has
 no strides

---
 mllm/core/TensorViewImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/core/TensorViewImpl.cpp b/mllm/core/TensorViewImpl.cpp
index 048c0a1..6db3f46 100644
--- a/mllm/core/TensorViewImpl.cpp
+++ b/mllm/core/TensorViewImpl.cpp
@@ -92,7 +92,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(const TensorViewImpl::shape_t& shap
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
@@ -111,7 +111,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const Tenso
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
-- 
2.43.0


From bdfc780d2ad5b9cb4e6ea4a8e8aad053770b6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 054/154] fix: convertor: a streamed file without parameters
 has none

---
 pymllm/mobile/convertor/model_file_v2.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 116c4e1..7467610 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -115,9 +115,7 @@ class ModelFileV2:
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
             model_name="",
-            num_params=0
-            if update_mode == "Static"
-            else self.max_params_descriptor_buffer_num,
+            num_params=0,
         )
 
         # Open file
-- 
2.43.0


From 98c5c201b542202075e692f1a97c98edb84b78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 055/154] fix: convertor: store torch tensors whose last
 dimension has size one and another stride

---
 pymllm/mobile/convertor/model_file_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 7467610..2e1994d 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -26,9 +26,9 @@ MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH = 16
 
 def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     # Use uint8 view to preserve raw bytes for dtypes not supported by numpy.
+    # One dimension with stride 1, whatever the strides of dimensions of size 1.
     t = tensor.detach().cpu().contiguous()
-    if t.dim() == 0:
-        t = t.reshape(1)
+    t = t.as_strided((t.numel(),), (1,))
     return t.view(torch.uint8).numpy().tobytes()
 
 
-- 
2.43.0


From 99a19a13b0a19429558db8c74cbccfd6d6142c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 056/154] fix: refuse to write past the capacity of a
 StaticCache

---
 mllm/nn/lmcache/StaticCache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index d1938d9..876fc83 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -92,6 +92,10 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     auto inputs_seq_len = k.shape()[2];
 
+    if (current_seq_cnt_[layer_idx] + inputs_seq_len > max_cache_length_) {
+      throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+    }
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -157,6 +161,10 @@ std::array<Tensor, 2> StaticCache::getKVCache(int32_t layer_idx) {
 std::array<Tensor, 2> StaticCache::preGetKVWriteLocation(int32_t layer_idx, int32_t s) {
   if (!use_fa2_) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "StaticCache::preGetKVWriteLocation is not supported in eager mode"); }
 
+  if (current_seq_cnt_[layer_idx] + s > max_cache_length_) {
+    throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+  }
+
   auto new_shape = {1, s, kv_heads_ * kv_dims_};
   auto k = k_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
   auto v = v_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
-- 
2.43.0


From 2254b1076aa264e82c9e288106d592a52fc0e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:36 +0000
Subject: [PATCH 057/154] fix: copy keys and values that are not contiguous
 correctly into the static KV caches

---
 mllm/nn/lmcache/StaticCache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index 876fc83..62bb2ac 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -100,6 +100,9 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     switch (device_type_) {
       case kCPU: {
+        // The rows of one head are copied in one go
+        if (!k.isContiguousN(2)) { k = k.contiguous(); }
+        if (!v.isContiguousN(2)) { v = v.contiguous(); }
         for (int h = 0; h < kv_heads_; ++h) {
           for (int r = 0; r < repeat_times; ++r) {
             // clang-format off
@@ -204,6 +207,9 @@ std::array<Tensor, 2> SubStaticCache::updateKVCache(int32_t layer_idx, Tensor k,
 
   switch (cache_.device_type_) {
     case kCPU: {
+      // The rows of one head are copied in one go
+      if (!k.isContiguousN(2)) { k = k.contiguous(); }
+      if (!v.isContiguousN(2)) { v = v.contiguous(); }
       for (int h = 0; h < cache_.kv_heads_; ++h) {
         for (int r = 0; r < repeat_times; ++r) {
           // clang-format off
-- 
2.43.0


From b4abab59c3032a771f67ab58aa773ee6ba541578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 058/154] fix: classify characters by their Unicode category
 when splitting text into words

---
 .../minicpm_o2_6/tokenization_minicpmo.hpp       | 16 ++++++++--------
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp     | 16 ++++++++--------
 mllm/models/qwen3/tokenization_qwen3.hpp         | 16 ++++++++--------
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp | 16 ++++++++--------
 mllm/models/qwen_npu/tokenization_qwen.hpp       | 16 ++++++++--------
 mllm/preprocessor/tokenizers/Unicode.hpp         |  9 +++++++--
 6 files changed, 47 insertions(+), 42 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 569e0e1..5acbd87 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -80,10 +80,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -104,7 +104,7 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -115,11 +115,11 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -128,9 +128,9 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 1ff6d03..4ec0f1c 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -76,10 +76,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -100,7 +100,7 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -111,11 +111,11 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -124,9 +124,9 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 73cb08a..4b216ab 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -75,10 +75,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -99,7 +99,7 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -110,11 +110,11 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -123,9 +123,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 181d576..9eebac6 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -75,10 +75,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -99,7 +99,7 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -110,11 +110,11 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -123,9 +123,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index a5cdc26..902acb3 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -71,11 +71,11 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
     matched.clear();
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         matched += str[pos];
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture trailing newlines
@@ -93,7 +93,7 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
       matched = str.substr(start, pos - start);
@@ -104,11 +104,11 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -117,9 +117,9 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/preprocessor/tokenizers/Unicode.hpp b/mllm/preprocessor/tokenizers/Unicode.hpp
index 3f570f5..65641cc 100644
--- a/mllm/preprocessor/tokenizers/Unicode.hpp
+++ b/mllm/preprocessor/tokenizers/Unicode.hpp
@@ -11,6 +11,7 @@
 #include <iostream>
 
 #include "mllm/utils/Common.hpp"
+#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
 
 namespace mllm::preprocessor {
 
@@ -30,9 +31,13 @@ inline void initLocal(const std::string& local_name = "en_US.UTF-8") {
   }
 }
 
-inline bool isLetter(wchar_t c) { return std::iswalpha(c); }
+// \p{L}, \p{N} and \s of the pre-tokenization patterns. std::iswalpha and its like depend on the locale, know no digits other
+// than the ASCII ones and count some of those as letters, and do not count the no-break spaces as white space.
+inline bool isLetter(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_letter; }
 
-inline bool isDigit(wchar_t c) { return std::iswdigit(c); }
+inline bool isDigit(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_number; }
+
+inline bool isSpace(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_whitespace; }
 
 std::string wideString2Utf8String(const std::wstring& wstr);
 
-- 
2.43.0


From 0615cabae7114bcbadde39a7e627f703ab25a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 059/154] fix: split runs of white space and newlines as the
 pre-tokenization pattern says

---
 mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp | 10 ++++++----
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp       | 10 ++++++----
 mllm/models/qwen3/tokenization_qwen3.hpp           | 10 ++++++----
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp   | 10 ++++++----
 mllm/models/qwen_npu/tokenization_qwen.hpp         | 10 ++++++----
 5 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 5acbd87..e16c574 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -105,8 +105,9 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    // \s* is greedy and newlines are white space: go back to the last newline
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -118,8 +119,9 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // Leave the last whitespace to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 4ec0f1c..08a2fab 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -101,8 +101,9 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    // \s* is greedy and newlines are white space: go back to the last newline
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -114,8 +115,9 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // Leave the last whitespace to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 4b216ab..d8d78d6 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -100,8 +100,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    // \s* is greedy and newlines are white space: go back to the last newline
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -113,8 +114,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // Leave the last whitespace to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 9eebac6..616381e 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -100,8 +100,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    // \s* is greedy and newlines are white space: go back to the last newline
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -113,8 +114,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // Leave the last whitespace to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index 902acb3..a1a8453 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -94,8 +94,9 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    // \s* is greedy and newlines are white space: go back to the last newline
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -107,8 +108,9 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
     while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || preprocessor::isSpace(str[pos])) {
+    // Leave the last whitespace to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
-- 
2.43.0


From fce308bc4cf9e0e61be371a7b5824bd8e9542efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 060/154] fix: match the contractions of the pre-tokenization
 pattern in either case

---
 mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp | 8 ++++++--
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp       | 8 ++++++--
 mllm/models/qwen3/tokenization_qwen3.hpp           | 8 ++++++--
 mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp   | 8 ++++++--
 mllm/models/qwen_npu/tokenization_qwen.hpp         | 8 ++++++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index e16c574..1916475 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 #include <regex>
@@ -26,9 +27,12 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
 
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
+  const auto lower = [](wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? static_cast<wchar_t>(ch - L'A' + L'a') : ch; };
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + static_cast<std::ptrdiff_t>(pos),
+                      [&](wchar_t x, wchar_t y) { return x == lower(y); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 08a2fab..4050c0c 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 
@@ -22,9 +23,12 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
 
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
+  const auto lower = [](wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? static_cast<wchar_t>(ch - L'A' + L'a') : ch; };
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + static_cast<std::ptrdiff_t>(pos),
+                      [&](wchar_t x, wchar_t y) { return x == lower(y); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index d8d78d6..8e6efc3 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 
@@ -21,9 +22,12 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
+  const auto lower = [](wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? static_cast<wchar_t>(ch - L'A' + L'a') : ch; };
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + static_cast<std::ptrdiff_t>(pos),
+                      [&](wchar_t x, wchar_t y) { return x == lower(y); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 616381e..e21d10c 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 
@@ -21,9 +22,12 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
+  const auto lower = [](wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? static_cast<wchar_t>(ch - L'A' + L'a') : ch; };
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + static_cast<std::ptrdiff_t>(pos),
+                      [&](wchar_t x, wchar_t y) { return x == lower(y); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index a1a8453..c22bc33 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 #include <fstream>
@@ -21,9 +22,12 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
 
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
+  const auto lower = [](wchar_t ch) { return ch >= L'A' && ch <= L'Z' ? static_cast<wchar_t>(ch - L'A' + L'a') : ch; };
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + static_cast<std::ptrdiff_t>(pos),
+                      [&](wchar_t x, wchar_t y) { return x == lower(y); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
-- 
2.43.0


From aafaaf6995cdcd8618c54b3ac7990f51d4aed94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 061/154] fix: find the longest special token when one is a
 prefix of another

---
 .../preprocessor/tokenizers/AutoTokenizer.cpp | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
index ae9f4f9..5376ef4 100644
--- a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
+++ b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
@@ -51,11 +51,17 @@ std::vector<std::wstring> Trie::split(const std::wstring& text) {
 
         for (auto& [look_start, look_node] : states) {
           if (look_start > start) break;
+          if (to_remove.count(look_start)) continue;
 
           size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
           TrieNode* ptr = look_node;
 
+          if (ptr->is_end) {
+            start = look_start;
+            max_end = lookahead;
+            skip = lookahead;
+          }
+
           while (lookahead < text.size()) {
             wchar_t ch = text[lookahead];
 
@@ -66,12 +72,10 @@ std::vector<std::wstring> Trie::split(const std::wstring& text) {
 
             if (ptr->is_end) {
               start = look_start;
-              end = lookahead;
+              max_end = lookahead;
               skip = lookahead;
             }
           }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
         }
         offsets.push_back(start);
         offsets.push_back(max_end);
@@ -153,11 +157,17 @@ std::vector<std::string> TrieUTF8::split(const std::string& text_utf8) {
 
         for (auto& [look_start, look_node] : states) {
           if (look_start > start) break;
+          if (to_remove.count(look_start)) continue;
 
           size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
           TrieNode* ptr = look_node;
 
+          if (ptr->is_end) {
+            start = look_start;
+            max_end = lookahead;
+            skip = lookahead;
+          }
+
           while (lookahead < text.size()) {
             wchar_t ch = text[lookahead];
 
@@ -168,12 +178,10 @@ std::vector<std::string> TrieUTF8::split(const std::string& text_utf8) {
 
             if (ptr->is_end) {
               start = look_start;
-              end = lookahead;
+              max_end = lookahead;
               skip = lookahead;
             }
           }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
         }
         offsets.push_back(start);
         offsets.push_back(max_end);
-- 
2.43.0


From 20c8c6859edde27269f4deb4896fda737effee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 062/154] fix: split an empty text into no words instead of
 throwing

---
 mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
index da8a79e..5b7f4e6 100644
--- a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
+++ b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
@@ -688,6 +688,7 @@ std::vector<std::string> unicode_regex_split(const std::string& text, const std:
   }
 
   const auto cpts = unicode_cpts_from_utf8(text);
+  if (cpts.empty()) { return {}; }
 
   // generate a "collapsed" representation of the text, where all codepoints are
   // replaced by a single byte ref:
-- 
2.43.0


From 0c63dc9480d448d244e57266451b55753a68212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 063/154] fix: split with the GPT-2 pattern without std::regex,
 which overflows the stack on long texts

---
 mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
index 5b7f4e6..6a4ff58 100644
--- a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
+++ b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
@@ -553,8 +553,11 @@ static std::vector<size_t> unicode_regex_split_custom(const std::string& text, c
   std::vector<size_t> bpe_offsets;
 
   if (regex_expr
-      == "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| "
-         "?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)") {
+          == "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| "
+             "?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)"
+      || regex_expr
+             == "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| "
+                "?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+") {
     bpe_offsets = unicode_regex_split_custom_gpt2(text, offsets);
   } else if (regex_expr
                  == "(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\\r\\n\\p{L}\\p{N}]?\\p{L}+|\\p{N}{1,"
-- 
2.43.0


From 5fd0c265bd2f50c97b85faf6683431b242a82b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 064/154] fix: prepend the space and keep the special tokens as
 TinyLlama's tokenizer.json says

---
 mllm/models/llama/tokenization_tiny_llama.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/models/llama/tokenization_tiny_llama.hpp b/mllm/models/llama/tokenization_tiny_llama.hpp
index 08357b1..0228cc2 100644
--- a/mllm/models/llama/tokenization_tiny_llama.hpp
+++ b/mllm/models/llama/tokenization_tiny_llama.hpp
@@ -36,6 +36,8 @@ class TinyLlamaTokenizer final : public mllm::preprocessor::AutoTokenizer {
 
     // Add special tokens to trie
     special_tokens_trie_.add(L"<s>");
+    special_tokens_trie_.add(L"</s>");
+    special_tokens_trie_.add(L"<unk>");
 
     // Check if this is a HuggingFace-style tokenizer
     if (file_path.find("hf") != std::string::npos) { hf_flag_ = true; }
@@ -75,7 +77,7 @@ class TinyLlamaTokenizer final : public mllm::preprocessor::AutoTokenizer {
     }
 
     // Step 2: Prepend ▁ at the beginning
-    if (!normalized.empty() && normalized[0] != L'▁') { normalized = underline_char + normalized; }
+    if (!normalized.empty()) { normalized = underline_char + normalized; }
 
     return normalized;
   }
-- 
2.43.0


From 8226f821d35880128b75bbcce47033d0959de52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 065/154] fix: sliding-window and fp16 causal masks align the
 last query with the last key when there are more keys than queries

---
 mllm/backends/cpu/ops/CausalMaskOp.cpp | 44 ++++++++++++++------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 56fc0b7..8b251c7 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -32,7 +32,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 
   switch (ins.dtype()) {
     case kFloat32: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // One query sees every key: no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<float>({b, h, 0, 0});
@@ -98,17 +98,18 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int last = D - S + s;  // the key at the position of this query
+              const int copy_start_idx = std::max(0, last - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = last - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx, copy_count * sizeof(float));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = last + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__)
               const __m256 mask_val = _mm256_set1_ps(-1e10f);
@@ -143,7 +144,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
       break;
     }
     case kFloat16: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // One query sees every key: no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<mllm_fp16_t>({b, h, 0, 0});
@@ -164,9 +165,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             const __m256 mask_ps = _mm256_set1_ps(-65500.f);
             const __m128i mask_val = _mm256_cvtps_ph(mask_ps, _MM_FROUND_TO_NEAREST_INT);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -182,9 +183,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
             const float16x8_t mask_val = vdupq_n_f16(-65500.f);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -197,9 +198,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             }
 #else
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -211,18 +212,19 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int last = D - S + s;  // the key at the position of this query
+              const int copy_start_idx = std::max(0, last - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = last - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx,
                      copy_count * sizeof(mllm_fp16_t));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = last + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__) && defined(__F16C__)
               const __m256 mask_ps = _mm256_set1_ps(-65500.f);
-- 
2.43.0


From f8a6a7817bc55683383d2bc4797c18f2e5926c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 066/154] fix: Permute reshape must not refer to an output that
 does not exist yet

---
 mllm/core/aops/PermuteOp.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mllm/core/aops/PermuteOp.cpp b/mllm/core/aops/PermuteOp.cpp
index a34eaad..af21a1f 100644
--- a/mllm/core/aops/PermuteOp.cpp
+++ b/mllm/core/aops/PermuteOp.cpp
@@ -26,7 +26,6 @@ void PermuteOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
 void PermuteOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   auto input_shape = input.shape();
   std::vector<int32_t> output_shape(input_shape.size());
-- 
2.43.0


From e29aed462970c82fdf7900b1721eb3ea451f0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 067/154] fix: x86 vector exp splits ln2 into the high part the
 low part belongs to

---
 mllm/backends/cpu/kernels/x86/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/x86/math.hpp b/mllm/backends/cpu/kernels/x86/math.hpp
index 716785b..919749e 100644
--- a/mllm/backends/cpu/kernels/x86/math.hpp
+++ b/mllm/backends/cpu/kernels/x86/math.hpp
@@ -21,7 +21,7 @@ HWY_INLINE V vexpq_fast_f32(D d, V x) {
   const auto c_exp_hi = hn::Set(d, 88.3762626647949f);
   const auto c_exp_lo = hn::Set(d, -88.3762626647949f);
   const auto c_cephes_LOG2EF = hn::Set(d, std::numbers::log2e_v<float>);
-  const auto c_cephes_exp_C1 = hn::Set(d, std::numbers::ln2_v<float>);
+  const auto c_cephes_exp_C1 = hn::Set(d, 0.693359375f);
   const auto c_cephes_exp_C2 = hn::Set(d, -2.12194440e-4f);
   const auto c_cephes_exp_p0 = hn::Set(d, 1.9875691500E-4f);
   const auto c_cephes_exp_p1 = hn::Set(d, 1.3981999507E-3f);
-- 
2.43.0


From ec559f921219d56bd7799bce62ffcc6fb7acbe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:03 +0000
Subject: [PATCH 068/154] fix: Transpose of the last two dims of a tensor of
 rank three and more

---
 mllm/backends/cpu/ops/TransposeOp.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index d9817f8..d8ffbf3 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -1,6 +1,7 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <algorithm>
 #include "mllm/backends/cpu/ops/TransposeOp.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -91,19 +92,19 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   }
 
   // CASE 3. Exchange last 2 dims.
-  // FIXME: (dim0 + dim1 == 1) is error logic.
-  else if (input_shape.size() != 2 && (dim0 + dim1 == 1)) {
-    int batch = 0;
-    for (int i = 0; i < input_shape.size() - 2; i++) { batch *= input_shape[i]; }
+  else if (input_shape.size() > 2 && std::min(dim0, dim1) == (int)input_shape.size() - 2
+           && std::max(dim0, dim1) == (int)input_shape.size() - 1) {
+    int batch = 1;
+    for (int i = 0; i < (int)input_shape.size() - 2; i++) { batch *= input_shape[i]; }
+    const int rows = input_shape[input_shape.size() - 2];
+    const int cols = input_shape[input_shape.size() - 1];
 
     switch (dtype) {
       case kFloat32: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, rows, cols);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, rows, cols);
 #endif
         break;
       }
@@ -111,18 +112,15 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
         NYI("Transpose op(BSHD -> BSDH) fp16 not supported in x86");
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, rows, cols);
 #endif
         break;
       }
       case kInt64: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, rows, cols);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, rows, cols);
 #endif
         break;
       }
-- 
2.43.0


From 643cd262cdcf578351afa5e8b2f184db9f5fc199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 069/154] fix: elementwise operators broadcast operands of
 every compatible shape

---
 mllm/backends/cpu/ops/CmpOp.cpp      |  5 +-
 mllm/backends/cpu/ops/ElewiseOps.cpp | 69 ++++++++++++++++++++++++----
 mllm/backends/cpu/ops/ElewiseOps.hpp |  5 ++
 3 files changed, 68 insertions(+), 11 deletions(-)

diff --git a/mllm/backends/cpu/ops/CmpOp.cpp b/mllm/backends/cpu/ops/CmpOp.cpp
index 1e9d894..5f86f7c 100644
--- a/mllm/backends/cpu/ops/CmpOp.cpp
+++ b/mllm/backends/cpu/ops/CmpOp.cpp
@@ -11,11 +11,10 @@ namespace mllm::cpu {
 CPUEqualOp::CPUEqualOp(const aops::EqualOpOptions& options) : aops::EqualOp(options) {}
 
 void CPUEqualOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
   auto& output = outputs[0];
 
-  auto dtype = input0.dtype();
+  auto dtype = inputs[0].dtype();
+  auto [input0, input1] = prepareBroadcastOperands(inputs[0], inputs[1], dtype == kFloat32 || dtype == kInt32);
 
   auto broadcast_info = calculateBroadcastInfo(input0.shape(), input1.shape());
   bool can_be_broadcast_naive = broadcast_info.can_be_broadcast_naive;
diff --git a/mllm/backends/cpu/ops/ElewiseOps.cpp b/mllm/backends/cpu/ops/ElewiseOps.cpp
index fd74309..425ef4c 100644
--- a/mllm/backends/cpu/ops/ElewiseOps.cpp
+++ b/mllm/backends/cpu/ops/ElewiseOps.cpp
@@ -1,6 +1,8 @@
 // Copyright (c) MLLM Team.
 // Licensed under the MIT License.
 
+#include <algorithm>
+#include <cstring>
 #include "mllm/backends/cpu/ops/ElewiseOps.hpp"
 #include "mllm/backends/cpu/kernels/Kernels.hpp"
 #include "mllm/core/DataTypes.hpp"
@@ -122,14 +124,68 @@ BroadcastInfo calculateBroadcastInfo(const std::vector<int32_t>& a_shape, const
   return info;
 }
 
+namespace {
+// Repeats the elements of a contiguous tensor so that it gets the given (broadcast) shape.
+Tensor expandTo(Tensor t, const std::vector<int32_t>& shape) {
+  auto src = t.contiguous();
+  auto dst = Tensor::empty(shape, t.dtype(), t.device()).alloc();
+  const auto src_shape = src.shape();
+  const int rank = shape.size();
+  const int lead = rank - (int)src_shape.size();
+  std::vector<size_t> stride(rank, 0);
+  size_t step = 1;
+  for (int i = rank - 1; i >= lead; --i) {
+    if (src_shape[i - lead] != 1) { stride[i] = step; }
+    step *= src_shape[i - lead];
+  }
+  const size_t bytes = bytesOfType(t.dtype());
+  const auto* from = src.ptr<mllm_byte_t>();
+  auto* to = dst.ptr<mllm_byte_t>();
+  for (size_t n = 0; n < dst.numel(); ++n) {
+    size_t rest = n, at = 0;
+    for (int i = rank - 1; i >= 0; --i) {
+      at += (rest % shape[i]) * stride[i];
+      rest /= shape[i];
+    }
+    std::memcpy(to + n * bytes, from + at * bytes, bytes);
+  }
+  return dst;
+}
+}  // namespace
+
+std::pair<Tensor, Tensor> prepareBroadcastOperands(const Tensor& a, const Tensor& b, bool naive_supported) {
+  auto trim = [](std::vector<int32_t> s) {
+    s.erase(s.begin(), std::find_if(s.begin(), s.end(), [](int32_t d) { return d != 1; }));
+    return s;
+  };
+  const auto a_shape = trim(a.shape());
+  const auto b_shape = trim(b.shape());
+  if (a_shape == b_shape || b.numel() == 1) { return {a, b}; }
+
+  const int rank = std::max(a_shape.size(), b_shape.size());
+  std::vector<int32_t> out(rank, 1);
+  auto grow = [&](const std::vector<int32_t>& s) {
+    for (size_t i = 0; i < s.size(); ++i) {
+      auto& o = out[rank - s.size() + i];
+      o = s[i] == 1 ? o : s[i];
+    }
+  };
+  grow(a_shape);
+  grow(b_shape);
+
+  // The kernels walk over the whole of a and repeat blocks of b.
+  const bool a_full = a_shape == out;
+  if (a_full && naive_supported && calculateBroadcastInfo(a_shape, b_shape).can_be_broadcast_naive) { return {a, b}; }
+  return {a_full ? a : expandTo(a, out), b_shape == out ? b : expandTo(b, out)};
+}
+
 CPUAddOp::CPUAddOp(const aops::AddOpOptions& options) : aops::AddOp(options) {}
 
 void CPUAddOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
   auto& output = outputs[0];
 
   auto dtype = output.dtype();
+  auto [input0, input1] = prepareBroadcastOperands(inputs[0], inputs[1], dtype == kFloat32 || dtype == kComplexFloat32);
 
   auto broadcast_info = calculateBroadcastInfo(input0.shape(), input1.shape());
   bool can_be_broadcast_naive = broadcast_info.can_be_broadcast_naive;
@@ -327,11 +383,10 @@ void CPUAddOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 CPUSubOp::CPUSubOp(const aops::SubOpOptions& options) : aops::SubOp(options) {}
 
 void CPUSubOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
   auto& output = outputs[0];
 
   auto dtype = output.dtype();
+  auto [input0, input1] = prepareBroadcastOperands(inputs[0], inputs[1], dtype == kFloat32 || dtype == kComplexFloat32);
 
   auto broadcast_info = calculateBroadcastInfo(input0.shape(), input1.shape());
   bool can_be_broadcast_naive = broadcast_info.can_be_broadcast_naive;
@@ -530,11 +585,10 @@ void CPUSubOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 CPUMulOp::CPUMulOp(const aops::MulOpOptions& options) : aops::MulOp(options) {}
 
 void CPUMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
   auto& output = outputs[0];
 
   auto dtype = output.dtype();
+  auto [input0, input1] = prepareBroadcastOperands(inputs[0], inputs[1], dtype == kFloat32 || dtype == kComplexFloat32);
 
   auto broadcast_info = calculateBroadcastInfo(input0.shape(), input1.shape());
   bool can_be_broadcast_naive = broadcast_info.can_be_broadcast_naive;
@@ -733,11 +787,10 @@ void CPUMulOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& o
 CPUDivOp::CPUDivOp(const aops::DivOpOptions& options) : aops::DivOp(options) {}
 
 void CPUDivOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
-  auto& input0 = inputs[0];
-  auto& input1 = inputs[1];
   auto& output = outputs[0];
 
   auto dtype = output.dtype();
+  auto [input0, input1] = prepareBroadcastOperands(inputs[0], inputs[1], dtype == kFloat32 || dtype == kComplexFloat32);
 
   auto broadcast_info = calculateBroadcastInfo(input0.shape(), input1.shape());
   bool can_be_broadcast_naive = broadcast_info.can_be_broadcast_naive;
diff --git a/mllm/backends/cpu/ops/ElewiseOps.hpp b/mllm/backends/cpu/ops/ElewiseOps.hpp
index dafceec..e6008c4 100644
--- a/mllm/backends/cpu/ops/ElewiseOps.hpp
+++ b/mllm/backends/cpu/ops/ElewiseOps.hpp
@@ -5,6 +5,7 @@
 
 #include "mllm/core/BaseOp.hpp"
 #include "mllm/core/aops/ElewiseOps.hpp"
+#include <utility>
 #include <vector>
 
 namespace mllm::cpu {
@@ -18,6 +19,10 @@ struct BroadcastInfo {
 
 BroadcastInfo calculateBroadcastInfo(const std::vector<int32_t>& a_shape, const std::vector<int32_t>& b_shape);
 
+// The operands as the kernels can take them: of equal size, a scalar as the second one, or (naive_supported) blocks of the
+// second one repeated over the first. Everything else is expanded to the shape of the result.
+std::pair<Tensor, Tensor> prepareBroadcastOperands(const Tensor& a, const Tensor& b, bool naive_supported);
+
 class CPUAddOp final : public aops::AddOp {
  public:
   explicit CPUAddOp(const aops::AddOpOptions& options);
-- 
2.43.0


From 63f926c51a01608c44d69b1c50e1cb5d6e11cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 070/154] fix: x86 RMSNorm rows need not be aligned to the
 vector width

---
 mllm/backends/cpu/kernels/x86/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/x86/math.hpp b/mllm/backends/cpu/kernels/x86/math.hpp
index 919749e..6e70f78 100644
--- a/mllm/backends/cpu/kernels/x86/math.hpp
+++ b/mllm/backends/cpu/kernels/x86/math.hpp
@@ -79,7 +79,7 @@ static inline float vsquare_mean_fp32(const float* __restrict X, int dim) {
 
   int i = 0;
   for (; i + hn::Lanes(d) <= dim; i += hn::Lanes(d)) {
-    auto vec = hn::Load(d, X + i);
+    auto vec = hn::LoadU(d, X + i);
     auto squared = hn::Mul(vec, vec);
     sum_vec = hn::Add(sum_vec, squared);
   }
-- 
2.43.0


From 6e8f5894f08294e3ede4d7d052fbba5643431d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 071/154] fix: the vec_dot fallback of ggml matmul reads the
 batch of the second operand it multiplies

---
 mllm/backends/cpu/kernels/common/ggml/matmul.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/matmul.cpp b/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
index 95092d9..30971ee 100644
--- a/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/matmul.cpp
@@ -329,7 +329,8 @@ llamafile_fallback:;
         // Calculate src1 and src0 offsets based on transpose flags
         size_t src0_offset =
             (batch_count > 1 ? b * src0_stride[src0_stride.size() - 3] : 0) + s_0 * src0_stride[src0_stride.size() - 2] + d_0;
-        size_t src1_offset = s_1 * src1_stride[src1_stride.size() - 2] + d_1;
+        size_t src1_offset = (src1_stride.size() > 2 ? b * src1_stride[src1_stride.size() - 3] : 0)
+                             + s_1 * src1_stride[src1_stride.size() - 2] + d_1;
 
         const char* src0_ptr =
             reinterpret_cast<const char*>(src0->ptr<mllm_byte_t>() + src0_offset * src0_type_size / src0_blck_size);
-- 
2.43.0


From e8018f764c59ca9c903cf8b443a0e1100fd38736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:58 +0000
Subject: [PATCH 072/154] fix: AvgPool1d with ceil_mode drops windows outside
 the padded input and counts no position beyond it

---
 mllm/backends/cpu/ops/AvgPool1dOp.cpp | 4 ++--
 mllm/core/aops/AvgPool1dOp.cpp        | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/ops/AvgPool1dOp.cpp b/mllm/backends/cpu/ops/AvgPool1dOp.cpp
index c5be2dd..40f0945 100644
--- a/mllm/backends/cpu/ops/AvgPool1dOp.cpp
+++ b/mllm/backends/cpu/ops/AvgPool1dOp.cpp
@@ -58,8 +58,8 @@ void CPUAvgPool1dOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
             int input_idx = b * (channels * length) + c * length + input_pos;
             sum += input_ptr[input_idx];
             count++;
-          } else if (options_.count_include_pad) {
-            // If count_include_pad is true, count padded positions
+          } else if (options_.count_include_pad && input_pos < length + padding) {
+            // If count_include_pad is true, count padded positions, but not what ceil_mode reaches beyond the padding
             count++;
           }
         }
diff --git a/mllm/core/aops/AvgPool1dOp.cpp b/mllm/core/aops/AvgPool1dOp.cpp
index a4e8812..0f831ae 100644
--- a/mllm/core/aops/AvgPool1dOp.cpp
+++ b/mllm/core/aops/AvgPool1dOp.cpp
@@ -32,7 +32,9 @@ void AvgPool1dOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>
 
   int pooled_length;
   if (options_.ceil_mode) {
-    pooled_length = static_cast<int>(std::ceil(static_cast<float>(length + 2 * padding - kernel_size) / stride)) + 1;
+    pooled_length = ((length + 2 * padding - kernel_size + stride - 1) / stride) + 1;
+    // A window starts inside the input or its left padding, as in PyTorch.
+    if ((pooled_length - 1) * stride >= length + padding) { --pooled_length; }
   } else {
     pooled_length = ((length + 2 * padding - kernel_size) / stride) + 1;
   }
-- 
2.43.0


From 5ee2d8e4868e101e44386ab80017b847ec770775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 073/154] fix: x86 converts the fp16 scales of quantised blocks
 by value, not by reading their bits as a number

---
 .../kernels/common/ggml/quantize/quantize.hpp | 25 +++----------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
index e318451..ceda5f8 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize.hpp
@@ -105,29 +105,12 @@ inline static float lookup_fp16_to_fp32(uint16_t f) {
 
 #else
 namespace mllm::cpu {
-#define MLLM_COMPUTE_FP16_TO_FP32(x) _cvtsh_ss(x)
-#define MLLM_COMPUTE_FP32_TO_FP16(x) _cvtss_sh(x, 0)
-
-static float table_f32_f16[1 << 16];
-static bool table_f32_f16_init = false;
-
-inline static float lookup_fp16_to_fp32(uint16_t f) {
-  if (!table_f32_f16_init) {
-    uint16_t ii;
-    for (int i = 0; i < (1 << 16); ++i) {
-      uint16_t ui = i;
-      memcpy(&ii, &ui, sizeof(ii));
-      table_f32_f16[i] = MLLM_COMPUTE_FP16_TO_FP32(ii);
-    }
-    table_f32_f16_init = true;
-  }
-  uint16_t s;
-  memcpy(&s, &f, sizeof(uint16_t));
-  return table_f32_f16[s];
-}
+// mllm_fp16_t is half_float::half here: converting it from or to an integer type converts its value, not its bits
+#define MLLM_COMPUTE_FP16_TO_FP32(x) ((float)(x))
+#define MLLM_COMPUTE_FP32_TO_FP16(x) ((mllm_fp16_t)(float)(x))
 
 #ifndef MLLM_FP16_TO_FP32
-#define MLLM_FP16_TO_FP32(x) lookup_fp16_to_fp32(x)
+#define MLLM_FP16_TO_FP32(x) MLLM_COMPUTE_FP16_TO_FP32(x)
 #endif
 #ifndef MLLM_FP32_TO_FP16
 #define MLLM_FP32_TO_FP16(x) MLLM_COMPUTE_FP32_TO_FP16(x)
-- 
2.43.0


From 5e33d6c4280d86ff586f3cccccd0ecd398a33850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 074/154] fix: Q8_K codes stay within -127..127 so that the
 iq2_xxs dot product can negate them

---
 mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 5f342de..359a612 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -232,7 +232,8 @@ void quantize_row_q8_K_reference(const float* __restrict x, block_q8_K* __restri
       x += QK_K;
       continue;
     }
-    const float iscale = -128.F / max;
+    // -127, not -128: the iq2_xxs dot product negates codes as int8, and -128 has no int8 negation
+    const float iscale = -127.F / max;
     for (int j = 0; j < QK_K; ++j) {
       int v = nearest_int(iscale * x[j]);
       y[i].qs[j] = MIN(127, v);
-- 
2.43.0


From bfe2d4e295c729faf930faff3b640d19d422ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 075/154] fix: quantize_row_i8 converts every element of the
 row and saturates

---
 .../cpu/kernels/common/ggml/quantize/quantize_q8.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 359a612..60dd5a2 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -263,10 +263,10 @@ void quantize_row_q8_K(const float* __restrict x, void* __restrict y, int k) {
 
 //========================== smoothquant i8 =================================
 void quantize_row_i8_reference(const float* __restrict x, int8_t* __restrict y, int k, float scale) {
-  const float id = 1.0f / scale;
+  const float id = scale ? 1.0f / scale : 0.0f;
   for (int i = 0; i < k; i++) {
-    const float x0 = x[k] * id;
-    y[k] = roundf(x0);
+    const float x0 = x[i] * id;
+    y[i] = MAX(-128.0f, MIN(127.0f, roundf(x0)));
   }
 }
 void quantize_row_i8(const float* __restrict x, void* __restrict vy, int k, float scale) {
-- 
2.43.0


From 3864d9d37dd642392659fb2ccd5f2dc5bffe358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 076/154] fix: dequantize_row_i8_to_fp16 writes to its output
 argument

---
 .../backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
index 60dd5a2..46cb727 100644
--- a/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q8.cpp
@@ -445,7 +445,7 @@ void dequantize_row_i8(const void* __restrict vx, float* __restrict y, int k, fl
 
 void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, int k, float scale) {
   const int8_t* __restrict x = (int8_t*)vx;
-  mllm_fp16_t* __restrict y = (mllm_fp16_t*)y;
+  mllm_fp16_t* __restrict y = (mllm_fp16_t*)vy;
 
   int i;
   // Load the scale factor into a NEON register and convert it to mllm_fp16_t
@@ -484,7 +484,7 @@ void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, i
 
 void dequantize_row_i8_to_fp16(const void* __restrict vx, void* __restrict vy, int k, float scale) {
   const int8_t* __restrict x = (int8_t*)vx;
-  mllm_fp16_t* __restrict y = (mllm_fp16_t*)y;
+  mllm_fp16_t* __restrict y = (mllm_fp16_t*)vy;
 
   for (int i = 0; i < k; i++) { y[i] = MLLM_FP32_TO_FP16(x[i] * scale); }
 }
-- 
2.43.0


From 01f71ed1dfe20e9a78c47e40fd288c44ad4fc888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 077/154] fix: fp16 has a conversion from fp32 in the type
 traits, which the ggml matmul calls for fp16 weights

---
 mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp b/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp
index 8341f7f..5c49dbc 100644
--- a/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp
+++ b/mllm/backends/cpu/kernels/common/ggml/vec_dot_type.cpp
@@ -204,6 +204,10 @@ void q8_k_add_row_to(int n, const mllm::block_q8_K* MLLM_RESTRICT src, float* ML
   }
 }
 
+static void fp32_to_fp16_row(const float* MLLM_RESTRICT src, mllm::mllm_fp16_t* MLLM_RESTRICT dst, const int n) {
+  for (int i = 0; i < n; ++i) { dst[i] = (mllm::mllm_fp16_t)src[i]; }
+}
+
 // Template specializations for the old template design
 const size_t TypeTraits<MLLM_TYPE_F32>::size = sizeof(float);
 const int TypeTraits<MLLM_TYPE_F32>::blck_size = 1;
@@ -221,7 +225,7 @@ const size_t TypeTraits<MLLM_TYPE_F16>::size = sizeof(mllm::mllm_fp16_t);
 const int TypeTraits<MLLM_TYPE_F16>::blck_size = 1;
 const int TypeTraits<MLLM_TYPE_F16>::blck_size_interleave = 1;
 const mllm_to_float_func TypeTraits<MLLM_TYPE_F16>::to_float = nullptr;
-const mllm_from_float_func TypeTraits<MLLM_TYPE_F16>::from_float = nullptr;
+const mllm_from_float_func TypeTraits<MLLM_TYPE_F16>::from_float = (mllm_from_float_func)fp32_to_fp16_row;
 const mllm_from_float_to_mat_func TypeTraits<MLLM_TYPE_F16>::from_float_to_mat = nullptr;
 const mllm_vec_dot_func TypeTraits<MLLM_TYPE_F16>::vec_dot = (mllm_vec_dot_func)vec_dot_fp16;
 const DataTypes TypeTraits<MLLM_TYPE_F16>::vec_dot_type = MLLM_TYPE_F16;
-- 
2.43.0


From 16e8d4a8be376fb5f65ceb1815c0a2cc09757849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 078/154] fix: a single output sample of Interpolate covers the
 whole input

---
 mllm/backends/cpu/ops/InterpolateOp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/ops/InterpolateOp.cpp b/mllm/backends/cpu/ops/InterpolateOp.cpp
index 66fdc3d..28bfd0f 100644
--- a/mllm/backends/cpu/ops/InterpolateOp.cpp
+++ b/mllm/backends/cpu/ops/InterpolateOp.cpp
@@ -15,10 +15,8 @@ static void compute_scale_factors(const std::vector<int>& input_size, const std:
                                   std::vector<float>& scale_factors, bool align_corners) {
   scale_factors.resize(input_size.size());
   for (size_t i = 0; i < input_size.size(); ++i) {
-    if (output_size[i] == 1) {
-      scale_factors[i] = 0.0f;
-    } else if (align_corners) {
-      scale_factors[i] = static_cast<float>(input_size[i] - 1) / (output_size[i] - 1);
+    if (align_corners) {
+      scale_factors[i] = output_size[i] == 1 ? 0.0f : static_cast<float>(input_size[i] - 1) / (output_size[i] - 1);
     } else {
       scale_factors[i] = static_cast<float>(input_size[i]) / output_size[i];
     }
-- 
2.43.0


From b489c1a7a3c6a50faf32ec0a04e003ae5cdac1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 079/154] fix: STFT transforms every signal of the batch

---
 mllm/backends/cpu/ops/STFTOp.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mllm/backends/cpu/ops/STFTOp.cpp b/mllm/backends/cpu/ops/STFTOp.cpp
index 38e34bb..f1427b2 100644
--- a/mllm/backends/cpu/ops/STFTOp.cpp
+++ b/mllm/backends/cpu/ops/STFTOp.cpp
@@ -276,10 +276,11 @@ static void fftBluesteinComplex(std::vector<std::complex<T>>& input, std::vector
   }
 }
 
-static void padSignal(const Tensor& input, std::vector<float>& padded_signal, int n_fft, bool center,
+static void padSignal(const Tensor& input, int batch, std::vector<float>& padded_signal, int n_fft, bool center,
                       const std::string& pad_mode) {
   auto input_shape = input.shape();
   int signal_length = input_shape.size() == 1 ? input_shape[0] : input_shape[1];
+  const float* signal = input.ptr<float>() + static_cast<size_t>(batch) * signal_length;
 
   if (center) {
     int pad_length = n_fft / 2;
@@ -287,15 +288,15 @@ static void padSignal(const Tensor& input, std::vector<float>& padded_signal, in
     padded_signal.resize(padded_length);
 
     // 复制原始信号
-    for (int i = 0; i < signal_length; ++i) { padded_signal[pad_length + i] = input.ptr<float>()[i]; }
+    for (int i = 0; i < signal_length; ++i) { padded_signal[pad_length + i] = signal[i]; }
 
     if (pad_mode == "reflect") {
       // reflect：mirror padding
       for (int i = 0; i < pad_length; ++i) {
         // left padding: reverse copy from the beginning, not including the boundary
-        padded_signal[i] = input.ptr<float>()[pad_length - i];  // 1...pad_length
+        padded_signal[i] = signal[pad_length - i];  // 1...pad_length
         // right padding: reverse copy from the end, not including the boundary
-        padded_signal[pad_length + signal_length + i] = input.ptr<float>()[signal_length - 2 - i];
+        padded_signal[pad_length + signal_length + i] = signal[signal_length - 2 - i];
       }
     } else {
       // constant：0 padding (default)
@@ -307,7 +308,7 @@ static void padSignal(const Tensor& input, std::vector<float>& padded_signal, in
   } else {
     // center=false，no padding
     padded_signal.resize(signal_length);
-    for (int i = 0; i < signal_length; ++i) { padded_signal[i] = input.ptr<float>()[i]; }
+    for (int i = 0; i < signal_length; ++i) { padded_signal[i] = signal[i]; }
   }
 }
 
@@ -334,13 +335,7 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   std::string pad_mode = options_.pad_mode;
   bool return_complex = options_.return_complex;
 
-  // 对输入信号进行填充处理
   std::vector<float> padded_signal;
-  padSignal(input, padded_signal, n_fft, center, pad_mode);
-  int padded_length = static_cast<int>(padded_signal.size());
-
-  // Recalculate signal length after padding
-  signal_length = padded_length;
 
   // Temporary buffers
   std::vector<float> windowed_input(n_fft);
@@ -348,6 +343,12 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
   // Process each batch
   for (int b = 0; b < batch_size; ++b) {
+    // 对输入信号进行填充处理
+    padSignal(input, b, padded_signal, n_fft, center, pad_mode);
+
+    // Recalculate signal length after padding
+    signal_length = static_cast<int>(padded_signal.size());
+
     // Process each frame
     for (int f = 0; f < n_frames; ++f) {
       int start_idx = f * hop_length;
-- 
2.43.0


From d4f69e6c73becfae31972dae2fc4016f9fe2e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 080/154] fix: STFT centers a window shorter than n_fft in each
 frame

---
 mllm/backends/cpu/ops/STFTOp.cpp | 8 +++++---
 mllm/core/aops/STFTOp.cpp        | 3 +--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mllm/backends/cpu/ops/STFTOp.cpp b/mllm/backends/cpu/ops/STFTOp.cpp
index f1427b2..ef9d96d 100644
--- a/mllm/backends/cpu/ops/STFTOp.cpp
+++ b/mllm/backends/cpu/ops/STFTOp.cpp
@@ -339,6 +339,7 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
   // Temporary buffers
   std::vector<float> windowed_input(n_fft);
+  const int win_offset = (n_fft - win_length) / 2;
   std::vector<std::complex<float>> fft_output(n_fft);
 
   // Process each batch
@@ -355,11 +356,12 @@ void CPUSTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
       // Get windowed input and apply window function
       // Apply padding based on center and pad_mode parameters
+      // A window shorter than n_fft is centered in the frame
       for (int i = 0; i < win_length; ++i) {
-        if (start_idx + i < signal_length) {
-          windowed_input[i] = padded_signal[start_idx + i] * window.ptr<float>()[i];
+        if (start_idx + win_offset + i < signal_length) {
+          windowed_input[win_offset + i] = padded_signal[start_idx + win_offset + i] * window.ptr<float>()[i];
         } else {
-          windowed_input[i] = 0.0f;
+          windowed_input[win_offset + i] = 0.0f;
         }
       }
 
diff --git a/mllm/core/aops/STFTOp.cpp b/mllm/core/aops/STFTOp.cpp
index be93df7..a5086f0 100644
--- a/mllm/core/aops/STFTOp.cpp
+++ b/mllm/core/aops/STFTOp.cpp
@@ -56,14 +56,13 @@ void STFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
   // STFT parameters
   int n_fft = options_.n_fft;
   int hop_length = options_.hop_length;
-  int win_length = options_.win_length;
   bool center = options_.center;
 
   // If center=true, pad signal with n_fft/2 on both sides
   if (center) { signal_length += 2 * (n_fft / 2); }
 
   // Calculate output dimensions
-  int n_frames = 1 + (signal_length - win_length) / hop_length;
+  int n_frames = 1 + (signal_length - n_fft) / hop_length;
 
   int freq_bins = options_.onesided ? n_fft / 2 + 1 : n_fft;
 
-- 
2.43.0


From 616590ee63335a381f5f37216a21e40930ad2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 081/154] fix: ISTFT cuts its output out of the whole
 overlap-add, so that center inverts STFT and no sample is left unset

---
 mllm/backends/cpu/ops/STFTOp.cpp | 155 +++++++++----------------------
 1 file changed, 42 insertions(+), 113 deletions(-)

diff --git a/mllm/backends/cpu/ops/STFTOp.cpp b/mllm/backends/cpu/ops/STFTOp.cpp
index ef9d96d..aacfc21 100644
--- a/mllm/backends/cpu/ops/STFTOp.cpp
+++ b/mllm/backends/cpu/ops/STFTOp.cpp
@@ -422,132 +422,61 @@ void CPUISTFTOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
     // 获取当前 batch 的输出指针
     float* output_ptr = output.ptrAt<float>({b, 0});
 
-    // python vocos library use this pad_mode, just to keep consistent with it
-    if (pad_mode == "same" && !center) {
-      // 'same' padding 逻辑
-      int padding = (win_length - hop_length) / 2;
-      int final_length = n_frames * hop_length;
-
-      // 预分配的输出Tensor长度应与期望的最终长度一致
-      // 在某些情况下，由于STFT的ceil操作，可能存在1个点的差异，这里放宽检查
-      MLLM_RT_ASSERT(std::abs(signal_length - final_length) <= 1);
-
-      // 1. 分配用于重叠相加的临时、全长缓冲区
-      int full_length = (n_frames - 1) * hop_length + win_length;
-      std::vector<float> temp_output(full_length, 0.0f);
-      std::vector<float> temp_envelope(full_length, 0.0f);
-
-      // 2. 在临时缓冲区中执行重叠相加
-      for (int f = 0; f < n_frames; ++f) {
-        // load complex freq bins
-        for (int freq = 0; freq < freq_bins; ++freq) {
-          if (input.dtype() == kComplexFloat32) {
-            fft_input[freq] = input.constAt<mllm_complex_fp32_t>({b, freq, f});
-          } else {
-            float real = input.constAt<float>({b, freq, f, 0});
-            float imag = input.constAt<float>({b, freq, f, 1});
-            fft_input[freq] = std::complex<float>(real, imag);
-          }
-        }
-
-        // reconstruct onesided spectrum if needed
-        if (options_.onesided) {
-          for (int freq = freq_bins; freq < n_fft; ++freq) {
-            int conj_freq = n_fft - freq;
-            fft_input[freq] = std::conj(fft_input[conj_freq]);
-          }
-        }
+    // Overlap-add over the full extent of the frames, then cut out the part the output keeps: 'center' frames start
+    // n_fft / 2 before the signal, and 'same' (python vocos library use this pad_mode) frames (win_length - hop_length) / 2.
+    const int full_length = (n_frames - 1) * hop_length + n_fft;
+    const int padding = center ? n_fft / 2 : (pad_mode == "same" ? (win_length - hop_length) / 2 : 0);
+    MLLM_RT_ASSERT(padding >= 0 && padding + signal_length <= full_length);
+    std::vector<float> temp_output(full_length, 0.0f);
+    std::vector<float> temp_envelope(full_length, 0.0f);
 
-        // IFFT
-        if (is_power_of_2(n_fft)) {
-          fftRadix2Complex<float>(fft_input, n_fft, true);  // In-place FFT
+    for (int f = 0; f < n_frames; ++f) {
+      // load complex freq bins
+      for (int freq = 0; freq < freq_bins; ++freq) {
+        if (input.dtype() == kComplexFloat32) {
+          fft_input[freq] = input.constAt<mllm_complex_fp32_t>({b, freq, f});
         } else {
-          fftBluesteinComplex<float>(fft_input, fft_output, n_fft, true);
-          fft_input = fft_output;
-        }
-
-        // IFFT output (real part) and normalization
-        for (int i = 0; i < n_fft; ++i) {
-          ifft_output[i] = fft_input[i].real();
-          if (normalized) ifft_output[i] /= n_fft;
+          float real = input.constAt<float>({b, freq, f, 0});
+          float imag = input.constAt<float>({b, freq, f, 1});
+          fft_input[freq] = std::complex<float>(real, imag);
         }
+      }
 
-        // overlap-add
-        int start_idx = f * hop_length;
-        for (int i = 0; i < win_length; ++i) {
-          int out_idx = start_idx + i;
-          if (out_idx < full_length) {
-            temp_output[out_idx] += ifft_output[i] * window_ptr[i];
-            temp_envelope[out_idx] += window_ptr[i] * window_ptr[i];
-          }
+      // reconstruct onesided spectrum if needed
+      if (options_.onesided) {
+        for (int freq = freq_bins; freq < n_fft; ++freq) {
+          int conj_freq = n_fft - freq;
+          fft_input[freq] = std::conj(fft_input[conj_freq]);
         }
       }
 
-      // 3. 在临时缓冲区中归一化
-      for (int i = 0; i < full_length; ++i) {
-        if (temp_envelope[i] > 1e-10f) { temp_output[i] /= temp_envelope[i]; }
+      // IFFT
+      if (is_power_of_2(n_fft)) {
+        fftRadix2Complex<float>(fft_input, n_fft, true);  // In-place FFT
+      } else {
+        fftBluesteinComplex<float>(fft_input, fft_output, n_fft, true);
+        fft_input = fft_output;
       }
 
-      // 4. 将裁剪后的有效数据从临时缓冲拷贝到最终的 output tensor
-      // 源地址：temp_output 的 padding 之后
-      // 目标地址：output_ptr 的开头
-      // 拷贝长度：final_length
-      std::memcpy(output_ptr, temp_output.data() + padding, final_length * sizeof(float));
-
-    } else {
-      // 标准 'center' 或其他 padding 逻辑 (与您之前的原始逻辑类似)
-      std::vector<float> window_envelope(signal_length, 0.0f);
-      std::memset(output_ptr, 0, signal_length * sizeof(float));
-
-      for (int f = 0; f < n_frames; ++f) {
-        // load complex freq bins
-        for (int freq = 0; freq < freq_bins; ++freq) {
-          if (input.dtype() == kComplexFloat32) {
-            fft_input[freq] = input.constAt<std::complex<float>>({b, freq, f});
-          } else {
-            float real = input.constAt<float>({b, freq, f, 0});
-            float imag = input.constAt<float>({b, freq, f, 1});
-            fft_input[freq] = std::complex<float>(real, imag);
-          }
-        }
-
-        // reconstruct onesided spectrum if needed
-        if (options_.onesided) {
-          for (int freq = freq_bins; freq < n_fft; ++freq) {
-            int conj_freq = n_fft - freq;
-            fft_input[freq] = std::conj(fft_input[conj_freq]);
-          }
-        }
-
-        // IFFT
-        if (is_power_of_2(n_fft)) {
-          fftRadix2Complex<float>(fft_input, n_fft, true);  // In-place FFT
-        } else {
-          fftBluesteinComplex<float>(fft_input, fft_output, n_fft, true);
-          fft_input = fft_output;
-        }
-
-        // IFFT output (real part) and normalization
-        for (int i = 0; i < n_fft; ++i) {
-          ifft_output[i] = fft_input[i].real();
-          if (normalized) ifft_output[i] /= n_fft;
-        }
-
-        // overlap-add
-        int start_idx = f * hop_length;
-        for (int i = 0; i < win_length; ++i) {
-          int out_idx = start_idx + i;
-          if (out_idx < signal_length) {
-            output_ptr[out_idx] += ifft_output[i] * window_ptr[i];
-            window_envelope[out_idx] += window_ptr[i] * window_ptr[i];
-          }
-        }
+      // IFFT output (real part) and normalization
+      for (int i = 0; i < n_fft; ++i) {
+        ifft_output[i] = fft_input[i].real();
+        if (normalized) ifft_output[i] /= n_fft;
       }
 
-      for (int i = 0; i < signal_length; ++i) {
-        if (window_envelope[i] > 1e-10f) { output_ptr[i] /= window_envelope[i]; }
+      // overlap-add, a window shorter than n_fft is centered in the frame
+      int start_idx = f * hop_length + (n_fft - win_length) / 2;
+      for (int i = 0; i < win_length; ++i) {
+        temp_output[start_idx + i] += ifft_output[(n_fft - win_length) / 2 + i] * window_ptr[i];
+        temp_envelope[start_idx + i] += window_ptr[i] * window_ptr[i];
       }
     }
+
+    for (int i = 0; i < full_length; ++i) {
+      if (temp_envelope[i] > 1e-10f) { temp_output[i] /= temp_envelope[i]; }
+    }
+
+    std::memcpy(output_ptr, temp_output.data() + padding, signal_length * sizeof(float));
   }
 }
 }  // namespace mllm::cpu
\ No newline at end of file
-- 
2.43.0


From 0051da1fb5a08b9890438a1eb2543f81fa9682c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 082/154] fix: clip times of processWAV are computed without
 overflowing int

---
 mllm/preprocessor/audio/Audio.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index d92432f..e07157d 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -17,21 +17,21 @@
 
 class Fraction {
  public:
-  int numerator;
-  int denominator;
+  int64_t numerator;
+  int64_t denominator;
 
   // Constructor accepting a single int argument
-  explicit Fraction(int num) : numerator(num), denominator(1) {}
+  explicit Fraction(int64_t num) : numerator(num), denominator(1) {}
 
-  Fraction(int num, int den) : numerator(num), denominator(den) {
+  Fraction(int64_t num, int64_t den) : numerator(num), denominator(den) {
     if (denominator == 0) { throw std::invalid_argument("Denominator cannot be zero."); }
     simplify();
   }
 
   // Calculate the greatest common divisor
-  int gcd(int a, int b) {
+  int64_t gcd(int64_t a, int64_t b) {
     while (b != 0) {
-      int temp = b;
+      int64_t temp = b;
       b = a % b;
       a = temp;
     }
@@ -44,7 +44,7 @@ class Fraction {
       denominator = 1;
       return;
     }
-    int gcd_value = gcd(std::abs(numerator), std::abs(denominator));
+    int64_t gcd_value = gcd(std::abs(numerator), std::abs(denominator));
     numerator /= gcd_value;
     denominator /= gcd_value;
     if (denominator < 0) {
@@ -55,30 +55,30 @@ class Fraction {
 
   // Addition operation
   Fraction operator+(const Fraction& other) {
-    int num = numerator * other.denominator + other.numerator * denominator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.denominator + other.numerator * denominator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Subtraction operation
   Fraction operator-(const Fraction& other) {
-    int num = numerator * other.denominator - other.numerator * denominator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.denominator - other.numerator * denominator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Multiplication operation
   Fraction operator*(const Fraction& other) {
-    int num = numerator * other.numerator;
-    int den = denominator * other.denominator;
+    int64_t num = numerator * other.numerator;
+    int64_t den = denominator * other.denominator;
     return {num, den};
   }
 
   // Division operation
   Fraction operator/(const Fraction& other) {
     if (other.numerator == 0) { throw std::invalid_argument("Cannot divide by zero."); }
-    int num = numerator * other.denominator;
-    int den = denominator * other.numerator;
+    int64_t num = numerator * other.denominator;
+    int64_t den = denominator * other.numerator;
     return {num, den};
   }
 
-- 
2.43.0


From 80e0e4922be0bd65a80c22ff861802558bd8df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 083/154] fix: processWAV does not read beyond the end of audio
 shorter than a clip

---
 mllm/preprocessor/audio/Audio.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mllm/preprocessor/audio/Audio.cpp b/mllm/preprocessor/audio/Audio.cpp
index e07157d..cccbf52 100644
--- a/mllm/preprocessor/audio/Audio.cpp
+++ b/mllm/preprocessor/audio/Audio.cpp
@@ -117,15 +117,14 @@ class Fraction {
 
 namespace MLLM_ANONYMOUS_NAMESPACE {
 
-float* waveClip(const float* data_, int start, int end, int channel) {
+// The first channel of [start, end); a clip that reaches beyond the data (size elements) ends with it.
+std::vector<float> waveClip(const float* data_, int start, int end, int channel, int size) {
   std::vector<float> even_elements;
 
-  for (int i = start; i < end; ++i) {
+  for (int i = start; i < std::min(end, size); ++i) {
     if (i % channel == 0) { even_elements.push_back(data_[i]); }
   }
-  auto data_new = new float[(end - start) / channel];
-  std::copy(even_elements.begin(), even_elements.end(), data_new);
-  return data_new;
+  return even_elements;
 }
 std::vector<std::vector<float>> readFeats(const std::shared_ptr<wenet::FeaturePipeline>& feature_pipeline,
                                           const int num_frames_, const int feature_dim_) {
@@ -465,14 +464,13 @@ std::vector<std::vector<std::vector<std::vector<float>>>> processWAV(const std::
     for (auto clip_timepoint : clip_timepoints) {
       const int clip_start = clip_timepoint.first * wav_reader.num_channel();
       const int clip_end = clip_timepoint.second * wav_reader.num_channel();
-      const float* datac;
+      std::vector<float> datac;
       if (origin_sample_rate == resample_rate) {
-        datac = waveClip(wav_reader.data(), clip_start, clip_end, wav_reader.num_channel());
+        datac = waveClip(wav_reader.data(), clip_start, clip_end, wav_reader.num_channel(), wavdata_size);
       } else {
-        datac = waveClip(resampled.data(), clip_start, clip_end, wav_reader.num_channel());
+        datac = waveClip(resampled.data(), clip_start, clip_end, wav_reader.num_channel(), resampled.size());
       }
-      const int datac_num_sample = (clip_end - clip_start) / wav_reader.num_channel();
-      feature_pipeline->AcceptWaveform(std::vector<float>(datac, datac + datac_num_sample));
+      feature_pipeline->AcceptWaveform(datac);
       const int num_frames_ = 204;
       const int feature_dim_ = 128;
       const auto chunk_feats = readFeats(feature_pipeline, num_frames_, feature_dim_);
-- 
2.43.0


From 21cc49cecff4c0b60090f1ec4433c86cf3344466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 084/154] fix: WAV samples are scaled by the full scale of
 their bit depth, and 8-bit ones read as unsigned

---
 third_party/wenet_audio/wav.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/third_party/wenet_audio/wav.h b/third_party/wenet_audio/wav.h
index 7686da8..76e7299 100644
--- a/third_party/wenet_audio/wav.h
+++ b/third_party/wenet_audio/wav.h
@@ -91,10 +91,10 @@ class WavReader {
 
     for (int i = 0; i < num_data; ++i) {
       switch (bits_per_sample_) {
-        case 8: {
-          char sample;
+        case 8: {  // unsigned, unlike the wider formats
+          unsigned char sample;
           IGNORE(fread(&sample, 1, sizeof(char), fp));
-          data_[i] = static_cast<float>(sample);
+          data_[i] = static_cast<float>(sample) - 128.f;
           break;
         }
         case 16: {
@@ -120,7 +120,7 @@ class WavReader {
     auto num_data = num_channel_ * num_sample_;
     for (int i = 0; i < num_data; i++) {
       // data_[i] = (data_[i] - ((float)(32717 - 31768) / 2)) / ((float)(32717 + 31768) / 2);
-      data_[i] = (data_[i] / 31768);
+      data_[i] = data_[i] / static_cast<float>(1u << (bits_per_sample_ - 1));
     }
   }
 
-- 
2.43.0


From ab65e4f6911b3f3a270ec7bfa790be0295aaebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 085/154] fix: the WAV reader skips the padding byte of
 odd-sized chunks

---
 third_party/wenet_audio/wav.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/wenet_audio/wav.h b/third_party/wenet_audio/wav.h
index 76e7299..9d26118 100644
--- a/third_party/wenet_audio/wav.h
+++ b/third_party/wenet_audio/wav.h
@@ -77,7 +77,8 @@ class WavReader {
     // "list" subchunk.
     while (0 != strncmp(header.data, "data", 4)) {
       // We will just ignore the data in these chunks.
-      fseek(fp, header.data_size, SEEK_CUR);
+      // Chunks are padded to an even size.
+      fseek(fp, header.data_size + (header.data_size & 1), SEEK_CUR);
       // read next subchunk
       IGNORE(fread(header.data, 8, sizeof(char), fp));
     }
-- 
2.43.0


From 0809bef210dd0433a0b505c313a9166c3259c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 086/154] fix: Normalize returns a new tensor instead of
 rewriting its input

---
 mllm/preprocessor/visual/ImageTransform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mllm/preprocessor/visual/ImageTransform.cpp b/mllm/preprocessor/visual/ImageTransform.cpp
index d71a007..ae525ac 100644
--- a/mllm/preprocessor/visual/ImageTransform.cpp
+++ b/mllm/preprocessor/visual/ImageTransform.cpp
@@ -96,8 +96,10 @@ Tensor Normalize::apply(const Tensor& input) const {
   MLLM_RT_ASSERT_EQ(static_cast<int>(mean_.size()), c);
   MLLM_RT_ASSERT_EQ(static_cast<int>(std_.size()), c);
 
-  // Asuming Work on a contiguous clone to simplify indexing
-  float* ptr = input.ptr<float>();
+  // Work on a contiguous clone to simplify indexing, the input stays as it is
+  Tensor contiguous_src = src;
+  Tensor ret = contiguous_src.contiguous().clone();
+  float* ptr = ret.ptr<float>();
   const size_t plane = static_cast<size_t>(h) * static_cast<size_t>(w);
 
   for (int ch = 0; ch < c; ++ch) {
@@ -108,7 +110,7 @@ Tensor Normalize::apply(const Tensor& input) const {
     for (size_t i = 0; i < plane; ++i) { base[i] = (base[i] - m) / s; }
   }
 
-  return input;
+  return ret;
 }
 
 // ========================= BasicImageTransform =========================
-- 
2.43.0


From 732c39184f878a5ca62cdad4ae1ec9a08a5f7b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:06 +0000
Subject: [PATCH 087/154] fix: STFT and ISTFT reshape bind no reference to an
 element of the still empty outputs

---
 mllm/core/aops/ISTFTOp.cpp | 1 -
 mllm/core/aops/STFTOp.cpp  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/mllm/core/aops/ISTFTOp.cpp b/mllm/core/aops/ISTFTOp.cpp
index 399f5d2..ae86a5e 100644
--- a/mllm/core/aops/ISTFTOp.cpp
+++ b/mllm/core/aops/ISTFTOp.cpp
@@ -47,7 +47,6 @@ void ISTFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   }
 
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   // Get input dimensions
   auto input_shape = input.shape();
diff --git a/mllm/core/aops/STFTOp.cpp b/mllm/core/aops/STFTOp.cpp
index a5086f0..6e6b117 100644
--- a/mllm/core/aops/STFTOp.cpp
+++ b/mllm/core/aops/STFTOp.cpp
@@ -46,7 +46,6 @@ void STFTOp::reshape(const std::vector<Tensor>& inputs, std::vector<Tensor>& out
   }
 
   auto& input = inputs[0];
-  auto& output = outputs[0];
 
   // Get input dimensions
   auto input_shape = input.shape();
-- 
2.43.0


From 18829afff37c93f91593b057fe61c99025fe012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 088/154] fix: mel bins that cover no FFT frequency stay empty
 instead of reading before the arrays

---
 third_party/wenet_audio/fbank.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third_party/wenet_audio/fbank.h b/third_party/wenet_audio/fbank.h
index 77248c4..d59164b 100644
--- a/third_party/wenet_audio/fbank.h
+++ b/third_party/wenet_audio/fbank.h
@@ -15,6 +15,7 @@
 #ifndef FRONTEND_FBANK_H_
 #define FRONTEND_FBANK_H_
 
+#include <algorithm>
 #include <cstring>
 #include <limits>
 #include <random>
@@ -79,8 +80,9 @@ class Fbank {
         }
       }
       //CHECK(first_index != -1 && last_index >= first_index);
-      bins_[bin].first = first_index;
-      int size = last_index + 1 - first_index;
+      // A bin narrower than the FFT resolution may cover no frequency at all.
+      bins_[bin].first = std::max(first_index, 0);
+      int size = first_index == -1 ? 0 : last_index + 1 - first_index;
       bins_[bin].second.resize(size);
       for (int i = 0; i < size; ++i) {
         bins_[bin].second[i] = this_bin[first_index + i];
-- 
2.43.0


From 0086cd597d75063be845f0f426e9e282110171d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 089/154] fix: torch sampling fallback treats top_k -1 or above
 the vocabulary as disabled instead of failing

---
 pymllm/layers/sampling.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index 26c769f..df2175b 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -48,6 +48,15 @@ def _to_scalar_or_tensor(
     return value.to(device=device, dtype=torch.float32)
 
 
+def _clamp_top_k(
+    top_k: Union[torch.Tensor, int], num_classes: int
+) -> Union[torch.Tensor, int]:
+    """Map a *top_k* outside ``[1, num_classes]`` (e.g. -1: disabled) to all classes."""
+    if isinstance(top_k, int):
+        return top_k if 0 < top_k <= num_classes else num_classes
+    return torch.where((top_k > 0) & (top_k <= num_classes), top_k, num_classes)
+
+
 # ---------------------------------------------------------------------------
 # softmax
 # ---------------------------------------------------------------------------
@@ -567,6 +576,7 @@ def _torch_top_k_renorm_probs(
     top_k: Union[torch.Tensor, int],
 ) -> torch.Tensor:
     """Pure-torch top-k renormalization (operates on float32)."""
+    top_k = _clamp_top_k(top_k, probs.shape[-1])
     if isinstance(top_k, int):
         # uniform top_k across batch
         topk_vals, _ = torch.topk(probs, top_k, dim=-1)
@@ -611,6 +621,7 @@ def top_k_mask_logits(
     if _HAS_FLASHINFER:
         return _fi_sampling.top_k_mask_logits(logits, top_k)
 
+    top_k = _clamp_top_k(top_k, logits.shape[-1])
     if isinstance(top_k, int):
         topk_vals, _ = torch.topk(logits, top_k, dim=-1)
         threshold = topk_vals[:, -1:]
-- 
2.43.0


From 4f6ec73531e2ca59442a30a7fc168c8776ac2c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 090/154] fix: joint top-k/top-p filtering applies top-p to the
 original distribution

---
 pymllm/layers/sampling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index df2175b..468077a 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -483,9 +483,10 @@ def top_k_top_p_sampling_from_probs(
         p = _torch_top_k_renorm_probs(p, top_k)
         p = _torch_top_p_renorm_probs(p, top_p)
     else:
-        # joint: apply both filters simultaneously
-        p = _torch_top_k_renorm_probs(p, top_k)
-        p = _torch_top_p_renorm_probs(p, top_p)
+        # joint: apply both filters simultaneously, i.e. both on the original
+        # distribution
+        top_p_probs = _torch_top_p_renorm_probs(p, top_p)
+        p = _torch_top_k_renorm_probs(p, top_k).masked_fill(top_p_probs == 0, 0.0)
     samples = torch.multinomial(p, num_samples=1, generator=generator).squeeze(-1)
     return samples.to(torch.int32)
 
-- 
2.43.0


From 88da19e9454d12b4e6510e2df929fd9613d8cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 091/154] fix: speculative sampling does not count the
 resampled token as an emitted draft token

---
 pymllm/layers/sampling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pymllm/layers/sampling.py b/pymllm/layers/sampling.py
index 468077a..e67a2f4 100644
--- a/pymllm/layers/sampling.py
+++ b/pymllm/layers/sampling.py
@@ -760,7 +760,6 @@ def _torch_chain_speculative_sampling(
                         diff.unsqueeze(0), num_samples=1, generator=generator
                     ).item()
                     output_ids[b, t] = resampled
-                    emitted_count[b] += 1
                     all_accepted = False
 
         # bonus token (sampled from target at position after last emitted)
-- 
2.43.0


From 050f172802933fd2e0e9a94eb4d3cbab3c7b3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:55 +0000
Subject: [PATCH 092/154] fix: a frequency penalty works with half-precision
 logits

---
 pymllm/executor/model_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 7e1cf6d..522d303 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -253,7 +253,7 @@ def _apply_penalties(
         if pres_p != 0.0:
             selected_logits = selected_logits - pres_p
 
-        logits[i, token_ids_t] = selected_logits
+        logits[i, token_ids_t] = selected_logits.to(logits.dtype)
 
     return logits
 
-- 
2.43.0


From 953eddd4f5792d24f9c6ba555c85e7d7f80a5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:55 +0000
Subject: [PATCH 093/154] fix: multimodal requests with equal placeholder
 tokens do not share cached KV entries

---
 pymllm/orchestrator/model_runner_process.py | 28 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index c8f340d..04260da 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -64,6 +64,9 @@ class ModelRunnerProcess:
         self._rid_to_kv_indices: Dict[str, torch.Tensor] = {}
         # Maps rid -> input_ids used for prefill (needed for radix cache insert)
         self._rid_to_input_ids: Dict[str, List[int]] = {}
+        # Prefix-cache namespace of multimodal requests (see _cache_key).
+        self._rid_to_cache_namespace: Dict[str, str] = {}
+        self._num_cache_namespaces: int = 0
         # Maps rid -> list of generated (decode) token ids, appended each step.
         # Used to build the full sequence for radix cache insert at completion.
         self._rid_to_output_ids: Dict[str, List[int]] = {}
@@ -508,6 +511,15 @@ class ModelRunnerProcess:
     # Radix cache insert
     # ------------------------------------------------------------------
 
+    def _cache_key(self, rid: str, token_ids: List[int]) -> RadixKey:
+        """Prefix-cache key of a request.
+
+        The placeholder tokens of different images are identical, so token ids
+        do not identify the KV entries of a multimodal request: each one gets
+        a namespace of its own and never shares cached entries.
+        """
+        return RadixKey(token_ids, self._rid_to_cache_namespace.get(rid))
+
     def _insert_into_radix_cache(self, requests_meta: List[Dict[str, Any]]) -> None:
         """Insert prefill KV indices into the radix cache for future reuse.
 
@@ -554,7 +566,7 @@ class ModelRunnerProcess:
                     kv_indices[: min(seq_len, 8)].tolist(),
                 )
 
-            key = RadixKey(input_ids)
+            key = self._cache_key(rid, input_ids)
             cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
             result = cache.insert(key, kv_indices, prev_prefix_len=cache_protected_len)
             new_prefix_len = result.prefix_len
@@ -683,8 +695,14 @@ class ModelRunnerProcess:
             # Store input_ids for later radix cache insert
             self._rid_to_input_ids[m["rid"]] = full_input_ids
 
+            if m.get("mm_inputs"):
+                self._num_cache_namespaces += 1
+                self._rid_to_cache_namespace[m["rid"]] = (
+                    f"mm-{self._num_cache_namespaces}"
+                )
+
             if cache is not None and len(full_input_ids) > 0:
-                key = RadixKey(full_input_ids)
+                key = self._cache_key(m["rid"], full_input_ids)
                 match_result = cache.match_prefix(key)
                 prefix_len = match_result.prefix_len
                 last_node = match_result.last_node
@@ -1064,7 +1082,7 @@ class ModelRunnerProcess:
                 # because GDN state is only tracked at the prompt boundary.
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
-                key = RadixKey(list(input_ids))
+                key = self._cache_key(rid, list(input_ids))
                 result = cache.insert(
                     key, prompt_kv, prev_prefix_len=cache_protected_len
                 )
@@ -1084,7 +1102,7 @@ class ModelRunnerProcess:
                 full_token_ids = list(input_ids)
                 if output_ids:
                     full_token_ids.extend(output_ids)
-                key = RadixKey(full_token_ids)
+                key = self._cache_key(rid, full_token_ids)
                 result = cache.insert(
                     key, all_kv_indices, prev_prefix_len=cache_protected_len
                 )
@@ -1136,6 +1154,8 @@ class ModelRunnerProcess:
         if slot is not None:
             runner.req_to_token_pool.free(slot)
 
+        self._rid_to_cache_namespace.pop(rid, None)
+
         logger.debug(
             "Freed resources for rid=%s (slot=%s, kv_tokens=%d)",
             rid,
-- 
2.43.0


From eb06f8259543b1c7ca363ff5d22c70a20a15407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:55 +0000
Subject: [PATCH 094/154] fix: Qwen3-VL prefill after a cached prefix continues
 its positions instead of restarting at zero

---
 pymllm/models/qwen3_vl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 273a291..a83af42 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -1192,6 +1192,10 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                     self.vision_start_token_id,
                     self.spatial_merge_size,
                 )
+                # Tokens of a cached prefix precede these: continue their positions.
+                prefix_lens = getattr(forward_batch, "extend_prefix_lens", None)
+                if prefix_lens is not None:
+                    pos3d = pos3d + prefix_lens[i].to(pos3d)
                 mrope_positions_list.append(pos3d)
                 deltas.append(delta)
 
-- 
2.43.0


From 8009c627b625f82248b1fe035139f94e09907d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 095/154] fix: GDN backend falls back to PyTorch on a host
 without CUDA instead of failing in a log statement

---
 pymllm/layers/attention/gdn_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/layers/attention/gdn_backend.py b/pymllm/layers/attention/gdn_backend.py
index 70abf0f..aad394d 100644
--- a/pymllm/layers/attention/gdn_backend.py
+++ b/pymllm/layers/attention/gdn_backend.py
@@ -183,7 +183,9 @@ def _get_flashinfer_gdn():
             if not _flashinfer_available:
                 logger.info(
                     "GDNAttnBackend: [probe] FlashInfer GDN not available (requires SM90+, "
-                    "current SM%d%d)", *torch.cuda.get_device_capability()
+                    "current %s)",
+                    "SM%d%d" % torch.cuda.get_device_capability()
+                    if torch.cuda.is_available() else "no CUDA device",
                 )
                 return _flashinfer_available, None, None
 
-- 
2.43.0


From 16effba7545215b5e4a4c63f8d721259de82cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 096/154] fix: Qwen3.5 loads an untied lm_head instead of
 leaving it uninitialised

---
 pymllm/models/qwen3_5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 8d458c6..81e8144 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -1062,6 +1062,12 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
             else:
                 language_weights.append((name, weight))
 
+        # LM head (shares the embedding when tied)
+        if self.lm_head.weight is not self.model.embed_tokens.weight:
+            for name, weight in language_weights:
+                if name == "lm_head.weight":
+                    self.lm_head.weight.data.copy_(weight)
+
         # Language
         self.model.load_weights(language_weights)
 
-- 
2.43.0


From 05c3e457e2882899ee9d7c0556ca467016fba145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 097/154] fix: a text-only Qwen3.5 checkpoint yields logits,
 not hidden states

---
 pymllm/models/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/models/__init__.py b/pymllm/models/__init__.py
index 00ed272..b091c47 100644
--- a/pymllm/models/__init__.py
+++ b/pymllm/models/__init__.py
@@ -27,8 +27,9 @@ _MODEL_REGISTRY: Dict[str, Tuple[str, str]] = {
     ),
     # Qwen3.5 (hybrid attention: full + GDN linear)
     "Qwen3_5ForCausalLM": (
+        # text-only checkpoint: the wrapper adds the lm_head, without a vision tower
         "pymllm.models.qwen3_5",
-        "Qwen3_5ForCausalLM",
+        "Qwen3_5ForConditionalGeneration",
     ),
     "Qwen3_5ForConditionalGeneration": (
         "pymllm.models.qwen3_5",
-- 
2.43.0


From 01b4e9bf2202eaf4f8ec0e01dbc20bbc681fe02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:36 +0000
Subject: [PATCH 098/154] fix: Qwen3.5 applies its three-axis rotary positions
 instead of handing them to the one-dimensional kernel

---
 pymllm/models/qwen3_5.py | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 81e8144..6fe5c08 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -16,6 +16,7 @@ Adapted from sglang's ``qwen3_5.py``.
 
 from __future__ import annotations
 
+import functools
 import logging
 import math
 import time
@@ -31,8 +32,9 @@ from pymllm.layers.gated_delta_net import GatedDeltaNet
 from pymllm.layers.linear import Linear
 from pymllm.layers.mlp import MLP
 from pymllm.layers.rms_norm import GemmaRMSNorm, RMSNorm
-from pymllm.layers.rope import apply_rope_pos_ids
+from pymllm.layers.rope import apply_mrope_fused_, apply_rope_pos_ids
 from pymllm.layers.utils import set_weight_attrs
+from pymllm.models.qwen3_vl import _build_cos_sin_cache
 
 logger = logging.getLogger(__name__)
 
@@ -68,6 +70,18 @@ def _get_layer_types(config) -> List[str]:
 # ---------------------------------------------------------------------------
 
 
+@functools.lru_cache(maxsize=1)
+def _shared_cos_sin_cache(
+    rotary_dim: int,
+    rope_theta: float,
+    max_pos: int,
+    dtype: torch.dtype,
+    device: torch.device,
+) -> torch.Tensor:
+    """M-RoPE cos/sin cache shared by all full-attention layers."""
+    return _build_cos_sin_cache(rotary_dim, rope_theta, max_pos, dtype).to(device)
+
+
 class Qwen3_5FullAttention(nn.Module):
     """Standard multi-head attention with RoPE, QK-norm, and optional output gate."""
 
@@ -113,6 +127,9 @@ class Qwen3_5FullAttention(nn.Module):
         rope_config = getattr(tc, "rope_parameters", None) or getattr(tc, "rope_scaling", None) or {}
         self.rope_theta = rope_config.get("rope_theta", getattr(tc, "rope_theta", 10000.0))
         self.rotary_dim = int(self.head_dim * self.partial_rotary_factor)
+        self.mrope_section = list(rope_config.get("mrope_section", None) or [11, 11, 10])
+        self.mrope_interleaved = rope_config.get("mrope_interleaved", True)
+        self.max_position_embeddings = getattr(tc, "max_position_embeddings", 262144)
 
         # RadixAttention layer — delegates to the pluggable attention backend
         self.attn = RadixAttention(
@@ -149,10 +166,21 @@ class Qwen3_5FullAttention(nn.Module):
         # RoPE (inplace; rotary_dim handles partial rotation)
         q = q.view(seq_len, self.num_heads, self.head_dim)
         k = k.view(seq_len, self.num_kv_heads, self.head_dim)
-        apply_rope_pos_ids(
-            q, k, positions, inplace=True,
-            rotary_dim=self.rotary_dim, rope_theta=self.rope_theta,
-        )
+        if positions.ndim == 2:
+            # [3, T] (temporal, height, width) positions
+            q, k = apply_mrope_fused_(
+                q, k, positions,
+                _shared_cos_sin_cache(
+                    self.rotary_dim, self.rope_theta,
+                    self.max_position_embeddings, q.dtype, q.device,
+                ),
+                self.mrope_section, self.mrope_interleaved,
+            )
+        else:
+            apply_rope_pos_ids(
+                q, k, positions, inplace=True,
+                rotary_dim=self.rotary_dim, rope_theta=self.rope_theta,
+            )
         q = q.reshape(seq_len, -1)
         k = k.reshape(seq_len, -1)
 
-- 
2.43.0


From d3dbdb5cba9db6ca3f8f4df945b4ce8e2d0bc267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:18 +0000
Subject: [PATCH 099/154] fix: a GDN state snapshot is not attached to a cached
 prefix shorter than the prompt it was taken after

---
 pymllm/orchestrator/model_runner_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 04260da..a49ed35 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -651,7 +651,9 @@ class ModelRunnerProcess:
                 if track_slot is not None:
                     node_id = result.last_node.id
                     old_ts = self._node_id_to_gdn_track_slot.get(node_id)
-                    if old_ts is None:
+                    # The snapshot holds the state after the whole prompt: it
+                    # does not belong to a node that ends at an earlier page.
+                    if old_ts is None and len(new_indices) == seq_len:
                         self._node_id_to_gdn_track_slot[node_id] = track_slot
                     else:
                         gdn_pool.free_track_slot(track_slot)
-- 
2.43.0


From 01aa7310566cdd157c552b1d8ff1850d1f58a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 100/154] fix: the chunk-parallel GDN scan keeps tokens whose
 cumulative decay underflows

---
 pymllm/layers/attention/gdn_chunkwise.py | 38 +++++++++++++-----------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pymllm/layers/attention/gdn_chunkwise.py b/pymllm/layers/attention/gdn_chunkwise.py
index 4d04319..30e31e5 100644
--- a/pymllm/layers/attention/gdn_chunkwise.py
+++ b/pymllm/layers/attention/gdn_chunkwise.py
@@ -105,36 +105,40 @@ def _batched_chunk_scan(
     cumg = torch.cumsum(gg, dim=1)            # [B, C]
     gamma = torch.exp(cumg)                   # [B, C]
     gammaC = torch.exp(cumg[:, -1])           # [B]
+    # Decay from token j to token i (j <= i).  Only these ratios are used, never
+    # 1/γ: γ itself underflows for strong decays although the ratios do not.
+    D = torch.exp(torch.tril(cumg.unsqueeze(2) - cumg.unsqueeze(1)))  # [B, C(i), C(j)]
+    DC = torch.exp(cumg[:, -1:] - cumg)       # [B, C]  decay to the chunk end
 
     BK = bb.unsqueeze(-1) * Kc                 # [B, C, K]
-    # Guard β/γ overflow when γ underflows (matches CUDA kernel OPT-3: the
-    # contribution γ_r·ũ_t is below FP32 precision anyway, so set Ũ[t]=0).
-    inv_gamma = torch.where(gamma > 1e-30, 1.0 / gamma, torch.zeros_like(gamma))
-    BV = (bb * inv_gamma).unsqueeze(-1) * Vc   # [B, C, V]
+    BV = bb.unsqueeze(-1) * Vc                 # [B, C, V]
 
-    # WY transform via unit-lower-triangular solve:  (I + tril(BK·Kᵀ,-1)) W = BK
-    A = torch.tril(torch.bmm(BK, Kc.transpose(1, 2)), diagonal=-1)   # [B, C, C]
+    # WY transform via unit-lower-triangular solve:
+    #   (I + tril(D·BK·Kᵀ,-1)) W = γ·BK
+    A = torch.tril(D * torch.bmm(BK, Kc.transpose(1, 2)), diagonal=-1)   # [B, C, C]
     M = torch.eye(C, device=device, dtype=A.dtype).unsqueeze(0) + A
-    W = torch.linalg.solve_triangular(M, BK, upper=False, unitriangular=True)  # [B,C,K]
+    W = torch.linalg.solve_triangular(
+        M, gamma.unsqueeze(-1) * BK, upper=False, unitriangular=True
+    )  # [B,C,K]
     U = torch.linalg.solve_triangular(M, BV, upper=False, unitriangular=True)  # [B,C,V]
 
-    # Causal K·Q (keep j <= r).
-    KQ = torch.triu(torch.bmm(Kc, Q.transpose(1, 2)))   # [B, C(j), C(r)]
+    # Causal, decayed K·Q (keep j <= r).
+    KQ = torch.triu(torch.bmm(Kc, Q.transpose(1, 2)) * D.transpose(1, 2))   # [B, C(j), C(r)]
 
-    Qt = Q.transpose(1, 2)                      # [B, K, C]
+    Qt = (gamma.unsqueeze(-1) * Q).transpose(1, 2)      # [B, K, C]
     Wt = W.transpose(1, 2)                       # [B, K, C]
     Ut = U.transpose(1, 2)                        # [B, V, C]
 
     # State-independent precompute (fully batched across chunks & heads).
     P = Qt - torch.bmm(Wt, KQ)                    # [B, K, C]
     O_intra = torch.bmm(Ut, KQ)                   # [B, V, C]
-    Astate = torch.eye(K, device=device, dtype=Wt.dtype).unsqueeze(0) \
-        - torch.bmm(Wt, Kc)                       # [B, K, K]
-    UtK = torch.bmm(Ut, Kc)                       # [B, V, K]
+    KD = DC.unsqueeze(-1) * Kc                    # [B, C, K]
+    Astate = gammaC.view(B, 1, 1) * torch.eye(K, device=device, dtype=Wt.dtype) \
+        - torch.bmm(Wt, KD)                       # [B, K, K]
+    UtK = torch.bmm(Ut, KD)                       # [B, V, K]
 
     Astate_c = Astate.view(NC, HV, K, K)
     UtK_c = UtK.view(NC, HV, V, K)
-    gammaC_c = gammaC.view(NC, HV, 1, 1)
 
     # Sequential pass: only propagate the chunk-entry states (cheap, NC steps).
     # The per-token outputs are then computed in a single batched matmul, which
@@ -143,11 +147,11 @@ def _batched_chunk_scan(
     S = S0
     for c in range(NC):
         Sall[c] = S
-        S = gammaC_c[c] * (torch.bmm(S, Astate_c[c]) + UtK_c[c])
+        S = torch.bmm(S, Astate_c[c]) + UtK_c[c]
 
-    # O_c = gamma_c ⊙ (S_c @ P_c + O_intra)   — all chunks at once.
+    # O_c = S_c @ P_c + O_intra   — all chunks at once.
     SP = torch.bmm(Sall.reshape(B, V, K), P)            # [B, V, C]
-    out = gamma.view(B, 1, C) * (SP + O_intra)          # [B, V, C]
+    out = SP + O_intra                                  # [B, V, C]
     out = out.view(NC, HV, V, C).permute(0, 3, 1, 2).reshape(Lp, HV, V)[:L]
     return out, S
 
-- 
2.43.0


From a6d78ea1c7ca15e48c75b621def0ec600769226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:43 +0000
Subject: [PATCH 101/154] fix: the chunkwise GDN reference scan composes its
 updates in order and survives strong decay

---
 pymllm/layers/attention/gdn_chunkwise.py | 53 +++++++++++++-----------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/pymllm/layers/attention/gdn_chunkwise.py b/pymllm/layers/attention/gdn_chunkwise.py
index 30e31e5..b079b81 100644
--- a/pymllm/layers/attention/gdn_chunkwise.py
+++ b/pymllm/layers/attention/gdn_chunkwise.py
@@ -12,20 +12,21 @@ Algorithm (per chunk of C tokens with initial state S_0)
 ---------------------------------------------------------
 1. **WY construction** (sequential, O(C²K) per head):
 
-       w_i = β_i k_i - K_{<i}(W_{<i}^T (β_i k_i))
-       ũ_i = (β_i / γ_i) v_i - Ũ_{<i}(K_{<i}^T (β_i k_i))
+       w_i = γ_i β_i k_i - W_{<i}(D_i · K_{<i}^T (β_i k_i))
+       u_i = β_i v_i - U_{<i}(D_i · K_{<i}^T (β_i k_i))
 
-   where γ_i = Π_{j=0}^{i} α_j is the cumulative decay.
+   where γ_i = Π_{j=0}^{i} α_j is the cumulative decay and
+   D_ij = γ_i / γ_j the decay from token j to token i.
 
 2. **Output computation** (parallel, batch matmul):
 
-       O = γ · (S_0 Q − (S_0 W) · triu(K^T Q) + Ũ · triu(K^T Q))
+       O = γ · S_0 Q − (S_0 W) · triu(D · K^T Q) + U · triu(D · K^T Q)
 
    ``triu`` is the causal mask (upper-triangular: j ≤ r).
 
 3. **State update** (parallel, batch matmul):
 
-       S_new = γ_C · (S_0 − (S_0 W) K^T + Ũ^T K)
+       S_new = γ_C · S_0 − (S_0 W) (D_C · K)^T + U (D_C · K)^T
 
 Usage::
 
@@ -364,13 +365,19 @@ def _process_chunk(
     gamma = torch.exp(cum_log)                           # [C, HV]
     gamma_C = gamma[-1]                                  # [HV]
 
-    # ---- precompute β·k and (β/γ)·v ----
+    # Decay from token j to token i (j <= i): ratios of γ that do not
+    # underflow when γ itself does.
+    cum_h = cum_log.t()                                  # [HV, C]
+    D = torch.exp(torch.tril(cum_h.unsqueeze(2) - cum_h.unsqueeze(1)))  # [HV, C(i), C(j)]
+
+    # ---- precompute β·k, γ·β·k and β·v ----
     bk = beta_c.unsqueeze(-1) * k_c                      # [C, HV, K]
-    bv_scaled = (beta_c / gamma).unsqueeze(-1) * v_c     # [C, HV, V]
+    bv = beta_c.unsqueeze(-1) * v_c                      # [C, HV, V]
 
     # Contiguous buffers for WY vectors (permuted: [HV, dim, C])
     bk_p = bk.permute(1, 2, 0).contiguous()              # [HV, K, C]
-    bv_p = bv_scaled.permute(1, 2, 0).contiguous()       # [HV, V, C]
+    gbk_p = (gamma.unsqueeze(-1) * bk).permute(1, 2, 0).contiguous()
+    bv_p = bv.permute(1, 2, 0).contiguous()              # [HV, V, C]
     K_p = k_c.permute(1, 2, 0).contiguous()              # [HV, K, C]
 
     W_buf = torch.zeros(HV, K, C, device=device, dtype=torch.float32)
@@ -379,7 +386,7 @@ def _process_chunk(
     # ================================================================
     # Phase 1 — WY construction (sequential over C, parallel over HV)
     # ================================================================
-    W_buf[:, :, 0] = bk_p[:, :, 0]
+    W_buf[:, :, 0] = gbk_p[:, :, 0]
     U_buf[:, :, 0] = bv_p[:, :, 0]
 
     for t in range(1, C):
@@ -388,14 +395,13 @@ def _process_chunk(
         W_prev = W_buf[:, :, :t]                 # [HV, K, t]
         U_prev = U_buf[:, :, :t]                 # [HV, V, t]
 
-        # proj_w = W_prev^T @ (β_t k_t)
-        proj_w = torch.bmm(W_prev.transpose(1, 2), bk_t)   # [HV, t, 1]
-        # w correction = K_prev @ proj_w
-        w_corr = torch.bmm(K_prev, proj_w)                  # [HV, K, 1]
-        W_buf[:, :, t : t + 1] = bk_t - w_corr
-
-        # proj_k = K_prev^T @ (β_t k_t)  (shared for U update)
+        # proj_k = D_t ⊙ K_prev^T @ (β_t k_t)  (shared by both updates)
         proj_k = torch.bmm(K_prev.transpose(1, 2), bk_t)   # [HV, t, 1]
+        proj_k = proj_k * D[:, t, :t].unsqueeze(-1)
+
+        w_corr = torch.bmm(W_prev, proj_k)                  # [HV, K, 1]
+        W_buf[:, :, t : t + 1] = gbk_p[:, :, t : t + 1] - w_corr
+
         u_corr = torch.bmm(U_prev, proj_k)                  # [HV, V, 1]
         U_buf[:, :, t : t + 1] = bv_p[:, :, t : t + 1] - u_corr
 
@@ -404,30 +410,29 @@ def _process_chunk(
     # ================================================================
     Q_p = q_c.permute(1, 2, 0).contiguous()      # [HV, K, C]
 
-    SQ = torch.bmm(state, Q_p)                    # [HV, V, C]
+    SQ = torch.bmm(state, Q_p) * gamma.t().unsqueeze(1)   # [HV, V, C]
     SW = torch.bmm(state, W_buf)                   # [HV, V, C]
 
     # K^T Q with causal mask (j ≤ r → upper triangular)
     KQ = torch.bmm(K_p.transpose(1, 2), Q_p)      # [HV, C, C]
     causal = torch.triu(torch.ones(C, C, device=device, dtype=torch.float32))
-    KQ_masked = KQ * causal.unsqueeze(0)
+    KQ_masked = KQ * causal.unsqueeze(0) * D.transpose(1, 2)
 
     SW_KQ = torch.bmm(SW, KQ_masked)              # [HV, V, C]
     U_KQ = torch.bmm(U_buf, KQ_masked)            # [HV, V, C]
 
-    # O = γ · (S_0 Q − (S_0 W) triu(K^T Q) + Ũ triu(K^T Q))
-    gamma_bc = gamma.permute(1, 0).unsqueeze(1)    # [HV, 1, C]
-    O_chunk = gamma_bc * (SQ - SW_KQ + U_KQ)      # [HV, V, C]
+    # O = γ · S_0 Q − (S_0 W) triu(D · K^T Q) + U triu(D · K^T Q)
+    O_chunk = SQ - SW_KQ + U_KQ                   # [HV, V, C]
 
     output[write_offset : write_offset + C] = O_chunk.permute(2, 0, 1)
 
     # ================================================================
     # Phase 3 — state update
     # ================================================================
-    # S_new = γ_C · (S_0 − S_0 W K^T + Ũ^T K)
-    K_pT = K_p.transpose(1, 2)                    # [HV, C, K]
+    # S_new = γ_C · S_0 − S_0 W (D_C · K)^T + U (D_C · K)^T
+    K_pT = K_p.transpose(1, 2) * D[:, -1].unsqueeze(-1)   # [HV, C, K]
     SW_K = torch.bmm(SW, K_pT)                    # [HV, V, K]
     UK = torch.bmm(U_buf, K_pT)                   # [HV, V, K]
 
     gamma_C_bc = gamma_C.unsqueeze(-1).unsqueeze(-1)
-    return gamma_C_bc * (state - SW_K + UK)
+    return gamma_C_bc * state - SW_K + UK
-- 
2.43.0


From 21042b017078fc8bf7a1245958e0d2c5f66301e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 102/154] fix: channel-wise (group_size -1) compressed-tensors
 checkpoints can be loaded

---
 pymllm/quantization/methods/compressed_tensors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index db81603..b8a5de9 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -276,11 +276,13 @@ class CompressedTensorsWNA16Scheme:
     ) -> None:
         del output_size
         output_size_per_partition = sum(output_partition_sizes)
+        # -1 means one group per output channel.
+        group_size = self.group_size if self.group_size != -1 else input_size
         verify_marlin_supports_shape(
             output_size_per_partition=output_size_per_partition,
             input_size_per_partition=input_size_per_partition,
             input_size=input_size,
-            group_size=self.group_size,
+            group_size=group_size,
         )
 
         weight_packed = Parameter(
@@ -297,7 +299,7 @@ class CompressedTensorsWNA16Scheme:
         weight_scale = Parameter(
             torch.empty(
                 output_size_per_partition,
-                input_size_per_partition // self.group_size,
+                input_size_per_partition // group_size,
                 dtype=params_dtype,
             ),
             requires_grad=False,
-- 
2.43.0


From 874461d126ae3474486caff6b45f1a9265ff9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 103/154] fix: process groups of disjoint ranks can be created
 side by side

---
 pymllm/orchestrator/group_coordinator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/group_coordinator.py b/pymllm/orchestrator/group_coordinator.py
index 2fec307..6484f9c 100644
--- a/pymllm/orchestrator/group_coordinator.py
+++ b/pymllm/orchestrator/group_coordinator.py
@@ -32,7 +32,11 @@ class GroupCoordinator:
         
         # Create process group
         if dist.is_initialized() and self.world_size > 1:
-            self.device_group = dist.new_group(ranks, backend=backend)
+            # Only the members of the group call this, so it must not wait for
+            # (or share a group name with) the ranks of the other groups.
+            self.device_group = dist.new_group(
+                ranks, backend=backend, use_local_synchronization=True
+            )
         else:
             self.device_group = None
     
-- 
2.43.0


From c52764c2cffd73525c72b2aa8eae8660c101c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:18 +0000
Subject: [PATCH 104/154] fix: pipeline groups cross the tensor-parallel groups
 instead of coinciding with them

---
 pymllm/orchestrator/parallel_state.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/parallel_state.py b/pymllm/orchestrator/parallel_state.py
index 9fb2087..b8977cd 100644
--- a/pymllm/orchestrator/parallel_state.py
+++ b/pymllm/orchestrator/parallel_state.py
@@ -98,8 +98,17 @@ def initialize_model_parallel(
     if pipeline_model_parallel_size > 1:
         num_pp_groups = world_size // pipeline_model_parallel_size
         for i in range(num_pp_groups):
-            start = i * pipeline_model_parallel_size
-            ranks = list(range(start, start + pipeline_model_parallel_size))
+            # Stages are tensor_model_parallel_size ranks apart, so that the
+            # PP peers of a rank are never its TP peers.
+            block, tp_rank = divmod(i, tensor_model_parallel_size)
+            start = (
+                block * pipeline_model_parallel_size * tensor_model_parallel_size
+                + tp_rank
+            )
+            ranks = [
+                start + stage * tensor_model_parallel_size
+                for stage in range(pipeline_model_parallel_size)
+            ]
             if world_rank in ranks:
                 _PP_GROUP = GroupCoordinator(
                     ranks=ranks,
-- 
2.43.0


From faf8f3cc883d3f3c26cb01e78d75533993fe6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 105/154] fix: a compressed-tensors ignore list is matched by
 whole module names, and reaches fused layers

---
 .../methods/compressed_tensors.py             | 27 ++------
 pymllm/quantization/quant_config.py           | 61 ++++++++++++++++++-
 2 files changed, 66 insertions(+), 22 deletions(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index b8a5de9..356efc3 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import re
 from typing import Any, Dict, List, Optional
 
 import torch
@@ -10,7 +9,11 @@ from mllm_kernel.cuda.jit import gptq_marlin_gemm, gptq_marlin_repack
 
 from pymllm.layers.quantize_base import LinearMethodBase
 from pymllm.layers.utils import set_weight_attrs
-from pymllm.quantization.quant_config import QuantizationConfig, register_quantization
+from pymllm.quantization.quant_config import (
+    QuantizationConfig,
+    is_layer_skipped,
+    register_quantization,
+)
 
 MARLIN_SUPPORTED_GROUP_SIZES = [-1, 32, 64, 128]
 GPTQ_MARLIN_MIN_THREAD_N = 64
@@ -620,24 +623,6 @@ class CompressedTensorsConfig(QuantizationConfig):
         self, layer: torch.nn.Module, prefix: str = ""
     ) -> Optional[CompressedTensorsLinearMethod]:
         signature = _validate_supported_signature(self)
-        # Support two matching styles for items in self.ignore:
-        #   1. Exact prefix match: prefix.startswith(ignored)
-        #      e.g. ignore=["lm_head"] matches prefix="lm_head"
-        #   2. Path-component containment: ".ignored." in ".prefix."
-        #      e.g. ignore=["linear_attn"] matches prefix="layers.0.linear_attn.out_proj"
-        # Style 2 is needed because nested module names (e.g. inside decoder layers)
-        # never start with the bare module name.
-        dotted = f".{prefix}."
-        def _is_ignored(ignored: str) -> bool:
-            if not ignored:
-                return False
-            # Support llm-compressor-style regex patterns: "re:.*pattern.*"
-            if ignored.startswith("re:"):
-                try:
-                    return bool(re.search(ignored[3:], prefix))
-                except re.error:
-                    return False
-            return prefix.startswith(ignored) or f".{ignored}." in dotted
-        if any(_is_ignored(ig) for ig in self.ignore):
+        if is_layer_skipped(prefix, self.ignore):
             return None
         return CompressedTensorsLinearMethod(self, signature)
diff --git a/pymllm/quantization/quant_config.py b/pymllm/quantization/quant_config.py
index 8225f6d..1f4f048 100644
--- a/pymllm/quantization/quant_config.py
+++ b/pymllm/quantization/quant_config.py
@@ -34,8 +34,9 @@ How to add a new quantization method
 
 from __future__ import annotations
 
+import re
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional, Type
+from typing import Any, Dict, Iterable, List, Optional, Type
 
 import torch
 
@@ -93,6 +94,64 @@ def list_quantization_methods() -> List[str]:
     return sorted(_QUANTIZATION_REGISTRY)
 
 
+# ---------------------------------------------------------------------------
+# Matching layers against a checkpoint's list of unquantized modules
+# ---------------------------------------------------------------------------
+
+# Outer prefixes of checkpoint module names that pymllm may strip.
+_CHECKPOINT_PREFIXES = ("model.language_model.", "model.")
+
+# Fused layers and the checkpoint modules they are made of.
+_FUSED_MODULES = {
+    "qkv_proj": ("q_proj", "k_proj", "v_proj"),
+    "gate_up_proj": ("gate_proj", "up_proj"),
+}
+
+
+def _matches_module(entry: str, name: str) -> bool:
+    bare = name
+    for strip in _CHECKPOINT_PREFIXES:
+        if name.startswith(strip):
+            bare = name[len(strip):]
+            break
+
+    # llm-compressor-style regex patterns: "re:.*pattern.*"
+    if entry.startswith("re:"):
+        names = {name, bare, *(p + bare for p in _CHECKPOINT_PREFIXES)}
+        try:
+            return any(re.search(entry[3:], n) for n in names)
+        except re.error:
+            return False
+
+    for strip in _CHECKPOINT_PREFIXES:
+        if entry.startswith(strip):
+            entry = entry[len(strip):]
+            break
+    return bool(entry) and f".{entry}." in f".{bare}."
+
+
+def is_layer_skipped(prefix: str, skipped: Iterable[str]) -> bool:
+    """Whether the layer named *prefix* is in a checkpoint's list of modules
+    left unquantized.
+
+    Entries name whole modules (``"lm_head"``, ``"model.layers.0.mlp"``) or
+    path components (``"linear_attn"``), or are ``"re:"`` patterns.  A fused
+    layer is skipped when it is listed itself or all its parts are.
+    """
+    skipped = list(skipped)
+
+    def listed(name: str) -> bool:
+        return any(_matches_module(entry, name) for entry in skipped)
+
+    if listed(prefix):
+        return True
+    parent, _, leaf = prefix.rpartition(".")
+    parts = _FUSED_MODULES.get(leaf)
+    return parts is not None and all(
+        listed(f"{parent}.{part}" if parent else part) for part in parts
+    )
+
+
 # ---------------------------------------------------------------------------
 # Base config class
 # ---------------------------------------------------------------------------
-- 
2.43.0


From 0ffcdd1d71ba534c5332b23da4393a56697eec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 106/154] fix: layers an AWQ checkpoint leaves unquantized
 (modules_to_not_convert) are loaded unquantized

---
 pymllm/quantization/methods/awq_marlin.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pymllm/quantization/methods/awq_marlin.py b/pymllm/quantization/methods/awq_marlin.py
index e8f929a..4ef15ba 100644
--- a/pymllm/quantization/methods/awq_marlin.py
+++ b/pymllm/quantization/methods/awq_marlin.py
@@ -22,7 +22,11 @@ from torch.nn import Parameter
 
 from pymllm.layers.quantize_base import LinearMethodBase
 from pymllm.layers.utils import set_weight_attrs
-from pymllm.quantization.quant_config import QuantizationConfig, register_quantization
+from pymllm.quantization.quant_config import (
+    QuantizationConfig,
+    is_layer_skipped,
+    register_quantization,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -468,8 +472,10 @@ class AWQMarlinConfig(QuantizationConfig):
         weight_bits: int,
         group_size: int,
         zero_point: bool,
+        modules_to_not_convert: Optional[List[str]] = None,
     ) -> None:
         super().__init__()
+        self.modules_to_not_convert = modules_to_not_convert or []
         self.weight_bits = weight_bits
         self.group_size = group_size
         self.zero_point = zero_point
@@ -514,11 +520,14 @@ class AWQMarlinConfig(QuantizationConfig):
         weight_bits = config.get("bits", config.get("w_bit", 4))
         group_size = config.get("group_size", 128)
         zero_point = config.get("zero_point", True)
-        return cls(weight_bits, group_size, zero_point)
+        modules_to_not_convert = config.get("modules_to_not_convert")
+        return cls(weight_bits, group_size, zero_point, modules_to_not_convert)
 
     def get_quant_method(
         self,
         layer: torch.nn.Module,
         prefix: str = "",
     ) -> Optional[AWQMarlinLinearMethod]:
+        if is_layer_skipped(prefix, self.modules_to_not_convert):
+            return None
         return AWQMarlinLinearMethod(self)
-- 
2.43.0


From e582c6480000af2c3541c6d5e62c07ad2c1d72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 107/154] fix: Qwen3.5 fuses gate and up projections along the
 dimension each packed parameter is stacked on

---
 pymllm/models/qwen3_5.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 6fe5c08..3a7fb0e 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -447,16 +447,10 @@ class Qwen3_5ForCausalLM(nn.Module):
                 if stacked_name not in params_dict:
                     continue
                 param = params_dict[stacked_name]
-                # gate_up_proj is a plain Linear — manually place each shard.
-                # Guard: skip metadata tensors (e.g. weight_shape [2]) that
-                # cannot be evenly halved along dim-0.
-                output_dim = param.shape[0] // 2
-                if weight.shape[0] != output_dim:
-                    break  # not a shardable weight tensor; fall through to direct load
+                # gate_up_proj is a MergedLinear: its loader knows along which
+                # dimension each (possibly packed) parameter is stacked.
+                param.weight_loader(param, weight, shard_id)
                 name = stacked_name  # commit rename
-                param.data[shard_id * output_dim : (shard_id + 1) * output_dim].copy_(
-                    weight
-                )
                 matched = True
                 break
 
-- 
2.43.0


From ac32de9474d2125e82395945363fac5904ac20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 108/154] fix: Tensor::delete_ releases a tensor without
 touching it afterwards

---
 mllm/core/Tensor.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mllm/core/Tensor.cpp b/mllm/core/Tensor.cpp
index 37aea2d..13ae145 100644
--- a/mllm/core/Tensor.cpp
+++ b/mllm/core/Tensor.cpp
@@ -30,14 +30,13 @@
 
 namespace mllm {
 
-void Tensor::operator delete(void* ptr) noexcept {
-  ((Tensor*)ptr)->impl_.reset();
-  for (auto& [a, _] : ((Tensor*)ptr)->impl_->attachedViews()) { ((Tensor*)ptr)->impl_->attachedViews()[a].second.reset(); }
-}
+// The destructor has already released the impl when this is called.
+void Tensor::operator delete(void* ptr) noexcept { ::operator delete(ptr); }
 
 void Tensor::delete_() noexcept {
-  this->impl_.reset();
-  for (auto& [a, _] : this->impl_->attachedViews()) { this->impl_->attachedViews()[a].second.reset(); }
+  if (!impl_) { return; }
+  for (auto& [_, view] : impl_->attachedViews()) { view.second.reset(); }
+  impl_.reset();
 }
 
 /**
-- 
2.43.0


From 845bc261f3d67a8e7f8b09fdd2ad2855b167c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:42 +0000
Subject: [PATCH 109/154] fix: top-k sampling with k above the vocabulary size
 stays inside the vocabulary

---
 mllm/models/ARGeneration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 0017061..02caf2b 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -387,6 +387,9 @@ int64_t ARGeneration::sampleTopK(Tensor& logits, int k, float temperature) {
   auto prob_data = probs.ptr<float>();
   int vocab_size = probs.shape().back();
 
+  // There are not more candidates than tokens.
+  k = std::min(k, vocab_size);
+
   // Indexing
   std::vector<int> indices(vocab_size);
   std::iota(indices.begin(), indices.end(), 0);
-- 
2.43.0


From 5518603871bfcaf36c292ca3e4ca6b5407b4f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:16 +0000
Subject: [PATCH 110/154] fix: generate() does not ask logits that sampling
 released for their device

---
 mllm/models/ARGeneration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 02caf2b..216846f 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -157,6 +157,8 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
     if (i == 0) { prefillEventEndTimePoint(); }
 
     Tensor logits = output["sequence"];
+    auto device = logits.device();
+    logits = logits.to(kCPU);
 
     int64_t next_token_id;
     if (use_sampling) {
@@ -177,8 +179,9 @@ ARGenerationOutputPast ARGeneration::generate(const ARGenerationOutputPast& inpu
 
     // [B, S]
     past = output;
-    past["sequence"] = Tensor::empty({1, 1}, kInt64, logits.device()).alloc();
+    past["sequence"] = Tensor::empty({1, 1}, kInt64, kCPU).alloc();
     past["sequence"].at<mllm_int64_t>({0, 0}) = next_token_id;
+    past["sequence"] = past["sequence"].to(device);
 
     ar_steps_++;
   }
-- 
2.43.0


From dc3bcc879909db354344fccace0793caaeeef6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:51 +0000
Subject: [PATCH 111/154] fix: categorical sampling never runs past the last
 token of the vocabulary

---
 mllm/models/ARGeneration.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mllm/models/ARGeneration.cpp b/mllm/models/ARGeneration.cpp
index 216846f..db34efa 100644
--- a/mllm/models/ARGeneration.cpp
+++ b/mllm/models/ARGeneration.cpp
@@ -467,9 +467,14 @@ int64_t ARGeneration::categoricalSample(const Tensor& probs) {
   std::random_device rd;
   std::mt19937 gen(rd());
   std::uniform_real_distribution<> dis(0.0, 1.0);
-  float r = dis(gen);
 
-  auto it = std::lower_bound(cumulative_probs.begin(), cumulative_probs.end(), r);
+  // The rounded probabilities do not add up to exactly one, and r may round up to one.
+  float total = cumulative_probs.back();
+  float r = static_cast<float>(dis(gen)) * total;
+
+  // The first token that reaches r; no token of probability zero, whatever r is.
+  auto it = r > 0.f ? std::lower_bound(cumulative_probs.begin(), cumulative_probs.end(), std::min(r, total))
+                    : std::upper_bound(cumulative_probs.begin(), cumulative_probs.end(), 0.f);
   return std::distance(cumulative_probs.begin(), it);
 }
 __MLLM_UNSAFE_OPT_END
-- 
2.43.0


From 34a8c4604ba5d5187d652d715a748f58fd7a34c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:24 +0000
Subject: [PATCH 112/154] fix: Llama generation ends at the configured end
 token

---
 mllm/models/llama/modeling_llama.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/models/llama/modeling_llama.hpp b/mllm/models/llama/modeling_llama.hpp
index 58a0336..16e80af 100644
--- a/mllm/models/llama/modeling_llama.hpp
+++ b/mllm/models/llama/modeling_llama.hpp
@@ -302,6 +302,8 @@ class LlamaForCausalLM : public nn::Module, public ARGeneration {
       lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
     tie_word_embeddings_ = cfg.tie_word_embeddings;
+    eos_token_id_ = cfg.eos_token_id;
+    max_length_ = cfg.max_position_embeddings;
   }
 
   ARGenerationOutputPast forward(const ARGenerationOutputPast& input, const ARGenerationArgs& args) override {
-- 
2.43.0


From ce92517a0e000dd0fb8c828e2634db305699749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:24 +0000
Subject: [PATCH 113/154] fix: Llama with tied word embeddings returns logits

---
 mllm/models/llama/modeling_llama.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mllm/models/llama/modeling_llama.hpp b/mllm/models/llama/modeling_llama.hpp
index 16e80af..c80e22d 100644
--- a/mllm/models/llama/modeling_llama.hpp
+++ b/mllm/models/llama/modeling_llama.hpp
@@ -365,7 +365,11 @@ class LlamaForCausalLM : public nn::Module, public ARGeneration {
     }
 
     Tensor logits;
-    if (!tie_word_embeddings_) { logits = lm_head_(hidden_states); }
+    if (!tie_word_embeddings_) {
+      logits = lm_head_(hidden_states);
+    } else {
+      logits = nn::functional::matmul(hidden_states, model.embedding_.weight(), false, true);
+    }
 
     return {
         {"sequence", logits},
-- 
2.43.0


From 210d73fa447263224a601d7f20ac9c0037f08794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:24 +0000
Subject: [PATCH 114/154] fix: models with an untied output head apply it

---
 mllm/models/qwen3/modeling_qwen3.hpp             | 4 +++-
 mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp | 9 +++------
 mllm/models/smollm3_3B/modeling_smollm3.hpp      | 6 +++---
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3.hpp b/mllm/models/qwen3/modeling_qwen3.hpp
index 8829b6b..72352b6 100644
--- a/mllm/models/qwen3/modeling_qwen3.hpp
+++ b/mllm/models/qwen3/modeling_qwen3.hpp
@@ -290,6 +290,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       // NOTE:
       // model.lm_head.weight is quantization weights of model.embed_tokens.weight
       lm_head_ = reg<nn::Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     // Init inv freq
@@ -334,7 +336,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
diff --git a/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp b/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
index 379db0c..5c00739 100644
--- a/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
+++ b/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
@@ -423,11 +423,8 @@ class Qwen3MoeForCausalLM : public ARGeneration, public nn::Module {
 
     llm = reg<Qwen3MoeText>("model", cfg);
 
-    if (cfg.tie_word_embeddings) {
-      // NOTE:
-      // model.lm_head.weight is quantization weights of model.embed_tokens.weight
-      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
-    }
+    // With tied embeddings lm_head.weight is a copy of model.embed_tokens.weight of its own (it may be quantized).
+    lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
 
     // Init inv freq
     auto inv = makeRoPEInvFreq(cfg.head_dim, cfg.rope_theta);
@@ -471,7 +468,7 @@ class Qwen3MoeForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
diff --git a/mllm/models/smollm3_3B/modeling_smollm3.hpp b/mllm/models/smollm3_3B/modeling_smollm3.hpp
index 3d7ee4a..90b2e81 100644
--- a/mllm/models/smollm3_3B/modeling_smollm3.hpp
+++ b/mllm/models/smollm3_3B/modeling_smollm3.hpp
@@ -264,6 +264,8 @@ class Smollm3ForCausalLM : public ARGeneration, public nn::Module {
 
     if (cfg.tie_word_embeddings) {
       lm_head_ = reg<nn::Linear>("model.lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     auto inv = makeRoPEInvFreq(cfg.head_dim, cfg.rope_theta);
@@ -306,9 +308,7 @@ class Smollm3ForCausalLM : public ARGeneration, public nn::Module {
     auto S = sequence.shape()[1];
     sequence = sequence[{kAll, {S - 1}, kAll}];
 
-    if (tie_word_embeddings_) { 
-      sequence = lm_head_(sequence); 
-    }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
-- 
2.43.0


From 75122ce98ada7e7df4dab13d147bc51851a19715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 115/154] fix: Qwen3 generation ends at the configured end
 token

---
 mllm/models/qwen3/modeling_qwen3.hpp                 | 2 +-
 mllm/models/qwen3/modeling_qwen3_fa2.hpp             | 2 +-
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 2 +-
 mllm/models/qwen3/modeling_qwen3_qnn_aot.hpp         | 2 +-
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 2 +-
 mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp     | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3.hpp b/mllm/models/qwen3/modeling_qwen3.hpp
index 72352b6..63c960f 100644
--- a/mllm/models/qwen3/modeling_qwen3.hpp
+++ b/mllm/models/qwen3/modeling_qwen3.hpp
@@ -280,7 +280,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
                                 kCPU,                     // device_type
                                 false                     // use_fa2
     );
-    eos_token_id_ = cfg.end_of_text_token_id;
+    eos_token_id_ = cfg.eos_token_id;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
 
diff --git a/mllm/models/qwen3/modeling_qwen3_fa2.hpp b/mllm/models/qwen3/modeling_qwen3_fa2.hpp
index a309159..dfea796 100644
--- a/mllm/models/qwen3/modeling_qwen3_fa2.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_fa2.hpp
@@ -253,7 +253,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
                                 kCPU,                     // device_type
                                 true                      // use_fa2
     );
-    eos_token_id_ = cfg.end_of_text_token_id;
+    eos_token_id_ = cfg.eos_token_id;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
 
diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index f4b3cea..68bebcf 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -401,7 +401,7 @@ class Qwen3ProbingText final : public Module {
 class Qwen3ProbingForCausalLM : public ARGeneration, public Module {
  public:
   explicit Qwen3ProbingForCausalLM(const Qwen3Config& cfg) : cfg(cfg) {
-    eos_token_id_ = cfg.end_of_text_token_id;
+    eos_token_id_ = cfg.eos_token_id;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
     llm = reg<Qwen3ProbingText>("model", cfg);
diff --git a/mllm/models/qwen3/modeling_qwen3_qnn_aot.hpp b/mllm/models/qwen3/modeling_qwen3_qnn_aot.hpp
index bea991a..bc3ff67 100644
--- a/mllm/models/qwen3/modeling_qwen3_qnn_aot.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_qnn_aot.hpp
@@ -280,7 +280,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
                                 kCPU,                     // device_type
                                 false                     // use_fa2
     );
-    eos_token_id_ = cfg.end_of_text_token_id;
+    eos_token_id_ = cfg.eos_token_id;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
 
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 2f879c3..17b2988 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -308,7 +308,7 @@ class Qwen3Text final : public nn::Module {
 class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
  public:
   explicit Qwen3ForCausalLM(const Qwen3Config& cfg) : cfg(cfg) {
-    eos_token_id_ = cfg.end_of_text_token_id;
+    eos_token_id_ = cfg.eos_token_id;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
 
diff --git a/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp b/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
index 5c00739..1ad1ed9 100644
--- a/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
+++ b/mllm/models/qwen3_moe/modeling_qwen3_moe_fa2.hpp
@@ -417,7 +417,7 @@ class Qwen3MoeForCausalLM : public ARGeneration, public nn::Module {
                                 kCPU,                     // device_type
                                 true                      // use_fa2
     );
-    eos_token_id_ = cfg.end_of_text_token_id;
+    eos_token_id_ = cfg.eos_token_id;
     max_length_ = cfg.max_cache_length;
     tie_word_embeddings_ = cfg.tie_word_embeddings;
 
-- 
2.43.0


From 5328e45421f46e145cb5947ccde82a07c643464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 116/154] fix: SmolLM3 generation uses the end token and length
 limit it configures

---
 mllm/models/smollm3_3B/modeling_smollm3.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mllm/models/smollm3_3B/modeling_smollm3.hpp b/mllm/models/smollm3_3B/modeling_smollm3.hpp
index 90b2e81..c735acc 100644
--- a/mllm/models/smollm3_3B/modeling_smollm3.hpp
+++ b/mllm/models/smollm3_3B/modeling_smollm3.hpp
@@ -321,8 +321,6 @@ class Smollm3ForCausalLM : public ARGeneration, public nn::Module {
   nn::StaticCache kv_cache_;
   Smollm3Text llm;
   nn::Linear lm_head_;
-  int eos_token_id_;
-  int max_length_;
   bool tie_word_embeddings_;
 };
 
-- 
2.43.0


From 1f5a3de1d01901e86c27c5494e9cf10acd2be537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 117/154] fix: SmolLM3 leaves the layers configured without
 rotary embedding unrotated

---
 mllm/models/smollm3_3B/configuration_smollm3.hpp | 16 ++++++++++++++++
 mllm/models/smollm3_3B/modeling_smollm3.hpp      |  8 ++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mllm/models/smollm3_3B/configuration_smollm3.hpp b/mllm/models/smollm3_3B/configuration_smollm3.hpp
index 966a5a6..0b4a506 100644
--- a/mllm/models/smollm3_3B/configuration_smollm3.hpp
+++ b/mllm/models/smollm3_3B/configuration_smollm3.hpp
@@ -2,6 +2,8 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <vector>
+
 #include "mllm/core/aops/LinearOp.hpp"
 #include "mllm/engine/ConfigFile.hpp"
 
@@ -33,6 +35,12 @@ struct Smollm3Config : protected ConfigFile {
     tie_word_embeddings = data()["tie_word_embeddings"];
     max_cache_length = 2048; // Use reasonable default
 
+    // Layers without positional encoding: explicit list (1 = rotary embedding), or every n-th layer
+    if (data().contains("no_rope_layers") && data()["no_rope_layers"].is_array()) {
+      no_rope_layers = data()["no_rope_layers"].get<std::vector<int32_t>>();
+    }
+    if (data().contains("no_rope_layer_interval")) { no_rope_layer_interval = data()["no_rope_layer_interval"]; }
+
     // Read linear_impl_type from config, use default if not present
     if (data().contains("linear_impl_type")) {
         linear_impl_type = aops::str2LinearImplTypes(data()["linear_impl_type"]);
@@ -60,6 +68,14 @@ struct Smollm3Config : protected ConfigFile {
   bool tie_word_embeddings = true;
   int32_t max_cache_length = 2048;
 
+  std::vector<int32_t> no_rope_layers;
+  int32_t no_rope_layer_interval = 4;
+
+  [[nodiscard]] bool layerUsesRoPE(int32_t layer_idx) const {
+    if (layer_idx < static_cast<int32_t>(no_rope_layers.size())) { return no_rope_layers[layer_idx] != 0; }
+    return (layer_idx + 1) % no_rope_layer_interval != 0;
+  }
+
   aops::LinearImplTypes linear_impl_type = aops::LinearImplTypes::kDefault;
 };
 
diff --git a/mllm/models/smollm3_3B/modeling_smollm3.hpp b/mllm/models/smollm3_3B/modeling_smollm3.hpp
index c735acc..fc72464 100644
--- a/mllm/models/smollm3_3B/modeling_smollm3.hpp
+++ b/mllm/models/smollm3_3B/modeling_smollm3.hpp
@@ -151,8 +151,10 @@ class Smollm3Attention final : public nn::Module {
     key_states = key_states.transpose(1, 2);
     value_states = value_states.transpose(1, 2);
 
-    query_states = q_rope_(query_states, llm_embedding_sin, llm_embedding_cos);
-    key_states = k_rope_(key_states, llm_embedding_sin, llm_embedding_cos);
+    if (use_rope_) {
+      query_states = q_rope_(query_states, llm_embedding_sin, llm_embedding_cos);
+      key_states = k_rope_(key_states, llm_embedding_sin, llm_embedding_cos);
+    }
 
     auto [key_states_result, value_states_result] = past_kv_cache->updateKVCache(layer_idx_, key_states, value_states);
     key_states = std::move(key_states_result);
@@ -178,6 +180,7 @@ class Smollm3Attention final : public nn::Module {
   }
 
   int layer_idx_ = 0;
+  bool use_rope_ = true;
 };
 
 class Smollm3Decoder final : public nn::Module {
@@ -221,6 +224,7 @@ class Smollm3Text final : public nn::Module {
     decode_blocks_ = reg<nn::ModuleList<Smollm3Decoder>>("layers", cfg.num_hidden_layers, cfg);
     for (auto [idx, b] : enumerate(decode_blocks_.list())) { 
       b.self_attn_.layer_idx_ = idx; 
+      b.self_attn_.use_rope_ = cfg.layerUsesRoPE(idx);
     }
     norm_ = reg<nn::RMSNorm>("norm", cfg.rms_norm_eps);
     embedding_ = reg<nn::Embedding>("embed_tokens", cfg.vocab_size, cfg.hidden_size);
-- 
2.43.0


From e7f4b8c12b38f69e119137d7fd7924660f0c6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 118/154] fix: MiniCPM4 keeps the long rope factors of the
 whole sequence while decoding

---
 mllm/models/minicpm4/modeling_minicpm4.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/models/minicpm4/modeling_minicpm4.hpp b/mllm/models/minicpm4/modeling_minicpm4.hpp
index 312a457..248ba56 100644
--- a/mllm/models/minicpm4/modeling_minicpm4.hpp
+++ b/mllm/models/minicpm4/modeling_minicpm4.hpp
@@ -326,8 +326,6 @@ class MiniCPM4ForCausalLM : public ARGeneration, public nn::Module {
     auto batch_size = sequence.shape()[0];
     auto seq_len = sequence.shape()[1];
 
-    auto inv_freq = makeRoPEInvFreqWithLongRoPE(cfg.hidden_size / cfg.num_attention_heads, cfg.rope_theta, cfg, seq_len);
-
     Tensor position_ids = Tensor::nil();
     if (input.count("position_ids")) {
       // Use existing position_ids for decode phase
@@ -348,6 +346,10 @@ class MiniCPM4ForCausalLM : public ARGeneration, public nn::Module {
       }
     }
 
+    // The frequencies depend on the length of the whole sequence, not on that of the chunk fed in this step
+    auto total_len = *position_ids.offsettedPtr<int64_t>({0, position_ids.shape()[1] - 1}) + 1;
+    auto inv_freq = makeRoPEInvFreqWithLongRoPE(cfg.hidden_size / cfg.num_attention_heads, cfg.rope_theta, cfg, total_len);
+
     // Generate RoPE embeddings using the inv_freq buffer
     auto [llm_embedding_sin, llm_embedding_cos] = makeRotaryPosEmbedding(position_ids, inv_freq, longrope_scaling_factor_);
 
-- 
2.43.0


From 5a8ab0dd238734865258d549e3572715c6a42dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:00 +0000
Subject: [PATCH 119/154] fix: the other Qwen3 variants apply an untied output
 head

---
 mllm/models/qwen3/modeling_qwen3_fa2.hpp             | 4 +++-
 mllm/models/qwen3/modeling_qwen3_probing_service.hpp | 4 +++-
 mllm/models/qwen3/modeling_qwen3_service.hpp         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_fa2.hpp b/mllm/models/qwen3/modeling_qwen3_fa2.hpp
index dfea796..9266e0f 100644
--- a/mllm/models/qwen3/modeling_qwen3_fa2.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_fa2.hpp
@@ -263,6 +263,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       // NOTE:
       // model.lm_head.weight is quantization weights of model.embed_tokens.weight
       lm_head_ = reg<nn::Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     // Init inv freq
@@ -307,7 +309,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 68bebcf..0f97531 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -407,6 +407,8 @@ class Qwen3ProbingForCausalLM : public ARGeneration, public Module {
     llm = reg<Qwen3ProbingText>("model", cfg);
     if (cfg.tie_word_embeddings) {
       lm_head_ = reg<Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
     auto inv = makeRoPEInvFreq(cfg.head_dim, cfg.rope_theta);
     registerBuffer("inv_freq", inv);
@@ -540,7 +542,7 @@ class Qwen3ProbingForCausalLM : public ARGeneration, public Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
     return {{"sequence", sequence}, {"position_ids", position_ids}};
   }
 
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 17b2988..20903bd 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -319,6 +319,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       // NOTE:
       // model.lm_head.weight is quantization weights of model.embed_tokens.weight
       lm_head_ = reg<nn::Linear>("lm_head_out", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
+    } else {
+      lm_head_ = reg<nn::Linear>("lm_head", cfg.hidden_size, cfg.vocab_size, false, cfg.linear_impl_type);
     }
 
     // Init inv freq
@@ -367,7 +369,7 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
       auto S = sequence.shape()[1];
       sequence = sequence[{kAll, {S - 1}, kAll}];
     }
-    if (tie_word_embeddings_) { sequence = lm_head_(sequence); }
+    sequence = lm_head_(sequence);
 
     return {
         {"sequence", sequence},
-- 
2.43.0


From 2716e2679525a35912d7b87af82fd050b8215e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:43 +0000
Subject: [PATCH 120/154] fix: a service response wakes the client that waits
 for it

---
 mllm/engine/service/Service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5400bcd..17ed20f 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -47,7 +47,8 @@ void ResponsePool::push(const std::string& req_id, ResponseItem item) {
   std::unique_lock lk(mtx_);
   auto& q = queues_[req_id];
   q.push(std::move(item));
-  cv_.notify_one();
+  // The waiters wait for different requests, the one this response is for has to be among those woken.
+  cv_.notify_all();
 }
 
 std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
-- 
2.43.0


From f3a1e8185dd6c08af762e3488f459a03c34fed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:43 +0000
Subject: [PATCH 121/154] fix: sessions can be inserted while workers look
 sessions up

---
 mllm/engine/service/Service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 17ed20f..ecc285e 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -76,11 +76,13 @@ void ResponsePool::shutdown() {
 // SessionPool
 //===----------------------------------------------------------------------===//
 std::shared_ptr<Session> SessionPool::get(const std::string& session_id) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) { return sessions_[session_id]; }
   return nullptr;
 }
 
 void SessionPool::registerSession(const std::string& session_id, const std::shared_ptr<Session>& session) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) {
     // TODO
     return;
-- 
2.43.0


From 0ba8f2dc0b0f0e882f9e13393be42a2b0dbb71e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:43 +0000
Subject: [PATCH 122/154] fix: every service request is answered to its end,
 without a model, with an unknown one and when the session fails

---
 mllm/engine/service/Service.cpp | 64 +++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index ecc285e..f747518 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -118,37 +118,47 @@ SessionPool& Service::sessionPool() { return sess_pool_; }
 
 void Service::workerLoop() {
   while (running_) {
+    auto req_opt = req_pool_.pop();
+    // pop return empty, which means service is stopped and queue is empty.
+    if (!req_opt) { break; }
+
+    const RequestItem& req = *req_opt;
+    std::string model = "<none>";
+    bool answered = false;
+    auto respond = [&](const std::string& token, bool finished, const std::string& error) {
+      ResponseItem item;
+      item.id = req.id;
+      item.finished = finished;
+      item.raw = token;
+
+      std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
+
+      // Make payload
+      item.payload = {{"model", model},
+                      {"created", now},
+                      {"choices", nlohmann::json::array({{{"index", 0},
+                                                          {"delta", {{"content", token}}},
+                                                          {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
+      if (!error.empty()) { item.payload["error"] = error; }
+
+      answered = answered || finished;
+      resp_pool_.push(req.id, std::move(item));
+    };
+
+    std::string error;
     try {
-      if (auto req_opt = req_pool_.pop(); req_opt) {
-        RequestItem& req = *req_opt;
-        auto session = sess_pool_.get(req.payload.value("model", "<none>"));
-
-        session->streamGenerate(
-            req.payload, [this, req_payload = req.payload, req_id = req.id](const std::string& token, bool finished) {
-              ResponseItem item;
-              item.id = req_id;
-              item.finished = finished;
-              item.raw = token;
-
-              std::time_t now = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
-
-              // Make payload
-              item.payload = {
-                  {"model", req_payload["model"]},
-                  {"created", now},
-                  {"choices", nlohmann::json::array({{{"index", 0},
-                                                      {"delta", {{"content", token}}},
-                                                      {"finish_reason", finished ? "stop" : nlohmann::json(nullptr)}}})}};
-
-              resp_pool_.push(req_id, std::move(item));
-            });
+      model = req.payload.value("model", "<none>");
+      if (auto session = sess_pool_.get(model); session) {
+        session->streamGenerate(req.payload, [&](const std::string& token, bool finished) { respond(token, finished, ""); });
       } else {
-        // pop return empty, which means service is stopped and queue is empty.
-        break;
+        error = "No session for model " + model;
       }
-    } catch (...) {
-      // TODO
+    } catch (const std::exception& e) { error = std::string("Session failed: ") + e.what(); } catch (...) {
+      error = "Session failed";
     }
+
+    // Whoever waits for this request waits for its last response.
+    if (!answered) { respond("", true, error); }
   }
 }
 
-- 
2.43.0


From 461cdadd4a71d93bbd70bf0c329129f14c7a14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:43 +0000
Subject: [PATCH 123/154] fix: stopping the service ends the clients' wait and
 keeps the responses it has

---
 mllm/engine/service/Service.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index f747518..cf5adfa 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -57,7 +57,7 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
     auto it = queues_.find(req_id);
     return (it != queues_.end() && !it->second.empty()) || stop_;
   });
-  if (stop_) return std::nullopt;
+  if (queues_.count(req_id) == 0) return std::nullopt;
 
   auto& q = queues_[req_id];
   auto v = std::move(q.front());
@@ -198,7 +198,7 @@ Response getResponse(const std::string& id) {
     auto opt = pool.pop(id);
     if (!opt) {
       nlohmann::json j;
-      j["finished"] = false;
+      j["finished"] = true;
       return j.dump();
     }
     nlohmann::json j = opt->payload;
-- 
2.43.0


From b54108e63a3aa3c5db414175b5846e75094b8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:43 +0000
Subject: [PATCH 124/154] fix: a stopped service can be started again

---
 mllm/engine/service/Service.cpp | 13 +++++++++++++
 mllm/engine/service/Service.hpp |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index cf5adfa..03a5f80 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -32,6 +32,11 @@ std::optional<RequestItem> RequestPool::pop() {
   return item;
 }
 
+void RequestPool::open() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 void RequestPool::shutdown() {
   {
     std::lock_guard lk(mtx_);
@@ -66,6 +71,11 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
   return v;
 }
 
+void ResponsePool::open() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 void ResponsePool::shutdown() {
   std::lock_guard lk(mtx_);
   stop_ = true;
@@ -94,6 +104,8 @@ void SessionPool::registerSession(const std::string& session_id, const std::shar
 // Service
 //===----------------------------------------------------------------------===//
 void Service::start(size_t worker_threads) {
+  req_pool_.open();
+  resp_pool_.open();
   running_ = true;
   sess_pool_.registerSession("<none>", std::make_shared<NoneSession>());
   for (size_t i = 0; i < worker_threads; ++i) workers_.emplace_back([this] { workerLoop(); });
@@ -106,6 +118,7 @@ void Service::stop() {
   for (auto& t : workers_) {
     if (t.joinable()) { t.join(); }
   }
+  workers_.clear();
 
   resp_pool_.shutdown();
 }
diff --git a/mllm/engine/service/Service.hpp b/mllm/engine/service/Service.hpp
index 2ae6e8a..fc92680 100644
--- a/mllm/engine/service/Service.hpp
+++ b/mllm/engine/service/Service.hpp
@@ -40,6 +40,8 @@ class RequestPool {
 
   std::optional<RequestItem> pop();
 
+  void open();
+
   void shutdown();
 
  private:
@@ -66,6 +68,8 @@ class ResponsePool {
 
   std::optional<ResponseItem> pop(const std::string& req_id);
 
+  void open();
+
   void shutdown();
 
  private:
-- 
2.43.0


From df38ec52b0b9dc40adcae0cf2ffddea8f2cefd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:43 +0000
Subject: [PATCH 125/154] fix: a response with a partial UTF-8 sequence does
 not end its stream

---
 mllm/engine/service/Service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 03a5f80..21e055d 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -218,7 +218,8 @@ Response getResponse(const std::string& id) {
     j["id"] = opt->id;
     j["object"] = "chat.completion.chunk";
     j["finished"] = opt->finished;
-    std::string s = j.dump();
+    // A token may end within a UTF-8 sequence
+    std::string s = j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     return s;
   } catch (...) {
     // TODO
-- 
2.43.0


From f4c7593c7bd78b8e3acf5973078094a56b18ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:47 +0000
Subject: [PATCH 126/154] fix: radix attention runs the scalar kernels where an
 arch has none of its own

---
 .../cpu/kernels/common/radix_attn/arch.hpp    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/radix_attn/arch.hpp b/mllm/backends/cpu/kernels/common/radix_attn/arch.hpp
index dae6e8e..cc89f0b 100644
--- a/mllm/backends/cpu/kernels/common/radix_attn/arch.hpp
+++ b/mllm/backends/cpu/kernels/common/radix_attn/arch.hpp
@@ -16,25 +16,36 @@ using x86_arch_tag = __X86ArchTag;
 struct __ArmArchTag {};
 using arm_arch_tag = __ArmArchTag;
 
+// The scalar loops are what an arch without a specialization of its own runs.
 template<typename __ArgTag, typename __LhsDataType, typename __RhsDataType, typename __DstDataType>
 struct VectorDotProduct {
   static MLLM_FORCE_INLINE void run(const __LhsDataType* __restrict__ __lhs, const __RhsDataType* __restrict__ __rhs,
-                                    __DstDataType* __out, size_t len) {}
+                                    __DstDataType* __out, size_t len) {
+    __DstDataType ret = 0;
+    for (size_t i = 0; i < len; ++i) { ret += __lhs[i] * __rhs[i]; }
+    *__out = ret;
+  }
 };
 
 template<typename __ArgTag, typename __FromDataType, typename __constDataType>
 struct MulFromConst {
-  static MLLM_FORCE_INLINE void run(__FromDataType* __restrict__ __from, const __constDataType const_v, size_t len) {}
+  static MLLM_FORCE_INLINE void run(__FromDataType* __restrict__ __from, const __constDataType const_v, size_t len) {
+    for (size_t i = 0; i < len; ++i) { __from[i] *= const_v; }
+  }
 };
 
 template<typename ArchTag, typename T, typename U, typename V>
 struct FMAConstArray {
-  static MLLM_FORCE_INLINE void run(T* __restrict__ acc_o, const U acc_s, const V* __restrict__ v_token, size_t len) {}
+  static MLLM_FORCE_INLINE void run(T* __restrict__ acc_o, const U acc_s, const V* __restrict__ v_token, size_t len) {
+    for (size_t i = 0; i < len; ++i) { acc_o[i] += acc_s * v_token[i]; }
+  }
 };
 
 template<typename ArchTag, typename T>
 struct FilledWithConst {
-  static MLLM_FORCE_INLINE void run(T* __restrict__ a, const T v, size_t len) {}
+  static MLLM_FORCE_INLINE void run(T* __restrict__ a, const T v, size_t len) {
+    for (size_t i = 0; i < len; ++i) { a[i] = v; }
+  }
 };
 
 }  // namespace mllm::cpu::radix_attn::details
-- 
2.43.0


From da3cbcb0cf360a3ff364b077ea7a75e85a47f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:49 +0000
Subject: [PATCH 127/154] fix: the Qwen3 session strips reasoning and line
 breaks as the model's chat template does

---
 .../qwen3/modeling_qwen3_probing_service.hpp    | 17 +++++++++--------
 mllm/models/qwen3/modeling_qwen3_service.hpp    | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
index 0f97531..1878e62 100644
--- a/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_probing_service.hpp
@@ -925,12 +925,13 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
                               }}});
   }
 
+  // The template strips line breaks only.
   std::string ltrim(const std::string& s) {
-    size_t start = s.find_first_not_of(" \n\r\t\f\v");
+    size_t start = s.find_first_not_of('\n');
     return (start == std::string::npos) ? "" : s.substr(start);
   }
   std::string rtrim(const std::string& s) {
-    size_t end = s.find_last_not_of(" \n\r\t\f\v");
+    size_t end = s.find_last_not_of('\n');
     return (end == std::string::npos) ? "" : s.substr(0, end + 1);
   }
   std::string trim(const std::string& s) { return rtrim(ltrim(s)); }
@@ -962,7 +963,7 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
         if (msg.value("role", "") == "user" && msg.contains("content") && msg["content"].is_string()) {
           std::string content_str = msg["content"].get<std::string>();
           if (!(content_str.starts_with("<tool_response>")
-                && content_str.find("</tool_response>") == content_str.length() - std::string("</tool_response>").length())) {
+                && content_str.ends_with("</tool_response>"))) {
             last_query_index = i;
             found_last_query = true;
             break;
@@ -987,11 +988,11 @@ class Qwen3ProbingSession final : public ::mllm::service::Session {
         } else {
           auto think_end_pos = content.find("</think>");
           if (think_end_pos != std::string::npos) {
-            auto think_start_pos = content.rfind("<think>", think_end_pos);
-            if (think_start_pos != std::string::npos) {
-              reasoning_content = content.substr(think_start_pos + 7, think_end_pos - (think_start_pos + 7));
-              content = content.substr(think_end_pos + 8);
-            }
+            reasoning_content = rtrim(content.substr(0, think_end_pos));
+            auto think_start_pos = reasoning_content.rfind("<think>");
+            if (think_start_pos != std::string::npos) { reasoning_content = reasoning_content.substr(think_start_pos + 7); }
+            reasoning_content = ltrim(reasoning_content);
+            content = ltrim(content.substr(content.rfind("</think>") + 8));
           }
         }
 
diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 20903bd..3d55800 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -546,13 +546,14 @@ class Qwen3Session final : public ::mllm::service::Session {
                               }}});
   }
 
+  // The template strips line breaks only.
   std::string ltrim(const std::string& s) {
-    size_t start = s.find_first_not_of(" \n\r\t\f\v");
+    size_t start = s.find_first_not_of('\n');
     return (start == std::string::npos) ? "" : s.substr(start);
   }
 
   std::string rtrim(const std::string& s) {
-    size_t end = s.find_last_not_of(" \n\r\t\f\v");
+    size_t end = s.find_last_not_of('\n');
     return (end == std::string::npos) ? "" : s.substr(0, end + 1);
   }
 
@@ -586,7 +587,7 @@ class Qwen3Session final : public ::mllm::service::Session {
         if (msg.value("role", "") == "user" && msg.contains("content") && msg["content"].is_string()) {
           std::string content_str = msg["content"].get<std::string>();
           if (!(content_str.starts_with("<tool_response>")
-                && content_str.find("</tool_response>") == content_str.length() - std::string("</tool_response>").length())) {
+                && content_str.ends_with("</tool_response>"))) {
             last_query_index = i;
             found_last_query = true;
             break;
@@ -611,11 +612,11 @@ class Qwen3Session final : public ::mllm::service::Session {
         } else {
           auto think_end_pos = content.find("</think>");
           if (think_end_pos != std::string::npos) {
-            auto think_start_pos = content.rfind("<think>", think_end_pos);
-            if (think_start_pos != std::string::npos) {
-              reasoning_content = content.substr(think_start_pos + 7, think_end_pos - (think_start_pos + 7));
-              content = content.substr(think_end_pos + 8);
-            }
+            reasoning_content = rtrim(content.substr(0, think_end_pos));
+            auto think_start_pos = reasoning_content.rfind("<think>");
+            if (think_start_pos != std::string::npos) { reasoning_content = reasoning_content.substr(think_start_pos + 7); }
+            reasoning_content = ltrim(reasoning_content);
+            content = ltrim(content.substr(content.rfind("</think>") + 8));
           }
         }
 
-- 
2.43.0


From 069851fd76ab65d9388eac6238d2d11e60cb5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:49 +0000
Subject: [PATCH 128/154] fix: the Qwen3 service model keeps the position of a
 one token prompt remainder

---
 mllm/models/qwen3/modeling_qwen3_service.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 3d55800..6284958 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -337,15 +337,8 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
 
     Tensor position_ids = Tensor::nil();
     if (input.count("position_ids")) {
-      // Use existing position_ids for decode phase
+      // Positions of the tokens in sequence
       position_ids = input.at("position_ids");
-
-      // For decode phase, increment the last position
-      if (seq_len == 1) {
-        auto last_pos = *position_ids.offsettedPtr<int64_t>({0, position_ids.shape()[1] - 1});
-        position_ids = Tensor::empty({batch_size, 1}, kInt64, kCPU).alloc();
-        *position_ids.offsettedPtr<int64_t>({0, 0}) = last_pos + 1;
-      }
     } else {
       // NOTE: Service Session should not go into this branch !!!
       MLLM_RT_ASSERT(false);
@@ -371,9 +364,17 @@ class Qwen3ForCausalLM : public ARGeneration, public nn::Module {
     }
     sequence = lm_head_(sequence);
 
+    // The position of the token that comes next. A single token may also be all of a prompt that is not cached yet, so its
+    // position can't be told from the length of the sequence.
+    auto next_position_ids = Tensor::empty({batch_size, 1}, kInt64, kCPU).alloc();
+    for (int b = 0; b < batch_size; ++b) {
+      *next_position_ids.offsettedPtr<int64_t>({b, 0}) =
+          *position_ids.offsettedPtr<int64_t>({b, position_ids.shape()[1] - 1}) + 1;
+    }
+
     return {
         {"sequence", sequence},
-        {"position_ids", position_ids},
+        {"position_ids", next_position_ids},
     };
   }
 
-- 
2.43.0


From 9f8df27a2f10a39a17a1f7470fc7650920d358c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:49 +0000
Subject: [PATCH 129/154] fix: the Qwen3 session answers a prompt that is
 wholly cached

---
 mllm/models/qwen3/modeling_qwen3_service.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 6284958..72f39ff 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -409,6 +409,12 @@ class Qwen3Session final : public ::mllm::service::Session {
 
     // Search in the radix cache. Find the tokens we really need to compute.
     auto prefix_cache_result = cache_->find(full_seq_idx);
+    // The answer starts from the logits of the last prompt token: compute it even if all of the prompt is cached.
+    if (prefix_cache_result.matched_length >= full_seq_idx.size()) {
+      prefix_cache_result.matched_length = full_seq_idx.size() - 1;
+      for (auto& k_vec : prefix_cache_result.k_cache_addresses) k_vec.resize(prefix_cache_result.matched_length);
+      for (auto& v_vec : prefix_cache_result.v_cache_addresses) v_vec.resize(prefix_cache_result.matched_length);
+    }
     fmt::print("Reuse Tokens: {}, compute budget: {} tokens\n", prefix_cache_result.matched_length,
                full_seq_idx.size() - prefix_cache_result.matched_length);
     std::span<int64_t> reduced_seq_idx(full_seq_idx.data() + prefix_cache_result.matched_length,
-- 
2.43.0


From 34d3d6071cc53cc0333a108d0facbdf1f1e87332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:46 +0000
Subject: [PATCH 130/154] fix: the Qwen3 session gives back the cache slots no
 later request can find

---
 mllm/models/qwen3/modeling_qwen3_service.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index 72f39ff..f392f99 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -492,12 +492,27 @@ class Qwen3Session final : public ::mllm::service::Session {
     // changed in 2ed turn.
     auto thinking_end_token_idx = findThinkStartToken(full_seq_idx);
     full_seq_idx.resize(thinking_end_token_idx);
+    auto used_k_cache_addrs = k_cache_addrs_;
+    auto used_v_cache_addrs = v_cache_addrs_;
     for (auto& k_vec : k_cache_addrs_) k_vec.resize(thinking_end_token_idx);
     for (auto& v_vec : v_cache_addrs_) v_vec.resize(thinking_end_token_idx);
 
     // Insert generated tokens to the cache.
     cache_->promote(full_seq_idx, k_cache_addrs_, v_cache_addrs_);
 
+    // Give back what the cache did not take: the thinking budget and the tokens it already had.
+    auto kept = cache_->find(full_seq_idx);
+    auto give_back = [this](const std::vector<std::vector<prefix_cache::vp_addr_t>>& used,
+                            const std::vector<std::vector<prefix_cache::vp_addr_t>>& kept) {
+      for (size_t b = 0; b < used.size(); ++b) {
+        for (size_t i = 0; i < used[b].size(); ++i) {
+          if (i >= kept[b].size() || kept[b][i] != used[b][i]) { cache_->free(kCPU, used[b][i]); }
+        }
+      }
+    };
+    give_back(used_k_cache_addrs, kept.k_cache_addresses);
+    give_back(used_v_cache_addrs, kept.v_cache_addresses);
+
     // Cleanup session Context
     k_cache_addrs_ = {};
     v_cache_addrs_ = {};
-- 
2.43.0


From b5b13ff1bfa1623ee146724c3a9df4c1ddd0629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:49 +0000
Subject: [PATCH 131/154] fix: requests that run at the same time do not share
 the Qwen3 session's state

---
 mllm/models/qwen3/modeling_qwen3_service.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mllm/models/qwen3/modeling_qwen3_service.hpp b/mllm/models/qwen3/modeling_qwen3_service.hpp
index f392f99..3bce248 100644
--- a/mllm/models/qwen3/modeling_qwen3_service.hpp
+++ b/mllm/models/qwen3/modeling_qwen3_service.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <mutex>
 #include <span>
 #include <memory>
 #include <ranges>
@@ -397,6 +398,9 @@ class Qwen3Session final : public ::mllm::service::Session {
 
   void streamGenerate(const nlohmann::json& request,
                       const std::function<void(const nlohmann::json&, bool)>& callback) override {
+    // The model, its cache and the addresses below serve one request at a time; the service may have several workers.
+    std::lock_guard<std::mutex> lock(generate_mutex_);
+
     // The cpu thread pool should start to work
     mllm::cpu::wakeupHpcThreadPool();
 
@@ -692,6 +696,7 @@ class Qwen3Session final : public ::mllm::service::Session {
 
  private:
   // States
+  std::mutex generate_mutex_;
   std::vector<std::vector<prefix_cache::vp_addr_t>> k_cache_addrs_;
   std::vector<std::vector<prefix_cache::vp_addr_t>> v_cache_addrs_;
 
-- 
2.43.0


From 2e9a1fd6135ee38951111b7cab629eb80016b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:38 +0000
Subject: [PATCH 132/154] fix: flash attention reads keys and values that are
 part of a longer cache

---
 mllm/backends/cpu/ops/FlashAttention2Op.cpp   | 19 +++++++++++--------
 .../cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp    | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/mllm/backends/cpu/ops/FlashAttention2Op.cpp b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
index 3177d0f..a35adca 100644
--- a/mllm/backends/cpu/ops/FlashAttention2Op.cpp
+++ b/mllm/backends/cpu/ops/FlashAttention2Op.cpp
@@ -12,19 +12,22 @@ CPUFlashAttention2Op::CPUFlashAttention2Op(const aops::FlashAttention2OpOptions&
 
 void CPUFlashAttention2Op::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& Q = inputs[0];
-  auto& K = inputs[1];
-  auto& V = inputs[2];
   auto& O = outputs[0];
 
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(Q.isContiguous());
 
-  // NOTE:
-  //
-  // K, V is in flexible layout, no contiguous is OK.
-  //
-  // MLLM_RT_ASSERT(K.isContiguous());
-  // MLLM_RT_ASSERT(V.isContiguous());
+  // The kernel walks K and V densely. The stride of a dimension of size one does not matter.
+  auto dense = [](const Tensor& t) {
+    int64_t expected = 1;
+    for (int i = t.rank() - 1; i >= 0; --i) {
+      if (t.shape()[i] != 1 && t.stride()[i] != expected) { return Tensor(t).contiguous(); }
+      expected *= t.shape()[i];
+    }
+    return t;
+  };
+  auto K = dense(inputs[1]);
+  auto V = dense(inputs[2]);
 
   auto B = Q.shape()[0];
   auto S_Q = Q.shape()[1];
diff --git a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
index b2a08c5..c704c44 100644
--- a/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
+++ b/mllm/backends/cpu/ops/FlashAttn2WithSinkAndSwaOp.cpp
@@ -13,20 +13,23 @@ CPUFlashAttention2SwaSinkOp::CPUFlashAttention2SwaSinkOp(const aops::FlashAttent
 
 void CPUFlashAttention2SwaSinkOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& outputs) {
   auto& Q = inputs[0];
-  auto& K = inputs[1];
-  auto& V = inputs[2];
   auto& S_AUX = inputs[3];
   auto& O = outputs[0];
 
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(Q.isContiguous());
 
-  // NOTE:
-  //
-  // K, V is in flexible layout, no contiguous is OK.
-  //
-  // MLLM_RT_ASSERT(K.isContiguous());
-  // MLLM_RT_ASSERT(V.isContiguous());
+  // The kernel walks K and V densely. The stride of a dimension of size one does not matter.
+  auto dense = [](const Tensor& t) {
+    int64_t expected = 1;
+    for (int i = t.rank() - 1; i >= 0; --i) {
+      if (t.shape()[i] != 1 && t.stride()[i] != expected) { return Tensor(t).contiguous(); }
+      expected *= t.shape()[i];
+    }
+    return t;
+  };
+  auto K = dense(inputs[1]);
+  auto V = dense(inputs[2]);
 
   auto B = Q.shape()[0];
   auto S_Q = Q.shape()[1];
-- 
2.43.0


From 0ed764903d16df33feb73bcdbcaec4150431597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:49 +0000
Subject: [PATCH 133/154] fix: paged attention finds each batch when the cache
 holds more tokens than the index

---
 .../cpu/kernels/common/paged_attn/fwd_bshd.hpp         | 10 ++++++----
 mllm/backends/cpu/ops/PagedAttnOp.cpp                  |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
index 5f8d6bb..abd6213 100644
--- a/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
+++ b/mllm/backends/cpu/kernels/common/paged_attn/fwd_bshd.hpp
@@ -16,11 +16,13 @@ namespace mllm::cpu::paged_attn {
 // Q: [B, S(partial block), H_Q, D]
 // index: [S(partial block)]
 //
+// S_KV is the length of index, S_FULL is the number of tokens K and V hold.
+//
 // H_KV should <= H_Q
 __MLLM_UNSAFE_OPT_BEGIN_O3
 template<typename __ArchTag>
-MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_KV, int32_t H_Q, int32_t H_KV, int32_t D,
-                                             const mllm_fp32_t* __restrict__ __q, const mllm_fp32_t* __restrict__ __k,
+MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_KV, int32_t S_FULL, int32_t H_Q, int32_t H_KV,
+                                             int32_t D, const mllm_fp32_t* __restrict__ __q, const mllm_fp32_t* __restrict__ __k,
                                              const mllm_fp32_t* __restrict__ __v, mllm_fp32_t* __restrict__ __out,
                                              mllm_fp32_t* __restrict__ __attn_weights, const mllm_int32_t* __restrict__ __index,
                                              const mllm_fp32_t* __restrict__ __custom_causal_mask,
@@ -45,7 +47,7 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
             if (S_Q == 1 || __custom_causal_mask[s_q_i * S_KV + s_kv_i] > -1.f) {
               details::VectorDotProduct<__ArchTag, kFloat32, kFloat32, kFloat32>::run(
                   __q + b_i * H_Q * S_Q * D + s_q_i * H_Q * D + h_q_i * D,
-                  __k + b_i * H_KV * S_KV * D + __index[s_kv_i] * H_KV * D + h_kv_i * D,
+                  __k + b_i * H_KV * S_FULL * D + __index[s_kv_i] * H_KV * D + h_kv_i * D,
                   __attn_weights + b_i * H_Q * S_Q * S_KV + h_q_i * S_Q * S_KV + s_q_i * S_KV + s_kv_i, D);
               __attn_weights[b_i * H_Q * S_Q * S_KV + h_q_i * S_Q * S_KV + s_q_i * S_KV + s_kv_i] *= scale;
             } else {
@@ -95,7 +97,7 @@ MLLM_FORCE_INLINE bool fwd_bshd_fp32_fastexp(int32_t B, int32_t S_Q, int32_t S_K
 
               // Load value vector (4 elements at a time)
               int32_t physical_block = __index[s_kv_i];
-              const mllm_fp32_t* v_ptr = __v + b_i * H_KV * S_KV * D + physical_block * H_KV * D + h_kv_i * D + d_i;
+              const mllm_fp32_t* v_ptr = __v + b_i * H_KV * S_FULL * D + physical_block * H_KV * D + h_kv_i * D + d_i;
 
 #if defined(__SSE__) || defined(__x86_64__)
               __m128 weight_vec = _mm_set1_ps(weight);
diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index 3311fbc..a2aa22d 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -22,6 +22,7 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   auto B = q_shape[0];
   auto S_Q = q_shape[1];
   auto S_KV = index.shape()[0];
+  auto S_FULL = K.shape()[1];
   auto H_Q = q_shape[2];
   auto H_KV = H_Q / options_.head_repeat_times;
   auto D = q_shape[3];
@@ -36,17 +37,17 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
     case aops::PagedAttnImplType::kAllFp32: {
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
-          B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
+          B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
-          B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
+          B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #else
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
-          B, S_Q, S_KV, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
+          B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #endif
-- 
2.43.0


From 2d5f5d32e98e4aed9ebc73387401dd2194d38b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:49 +0000
Subject: [PATCH 134/154] fix: paged attention runs the scalar kernels where an
 arch has none of its own

---
 mllm/backends/cpu/ops/PagedAttnOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index a2aa22d..03075d4 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -41,12 +41,12 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
+      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
 #else
-      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
+      paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
           options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
           S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
-- 
2.43.0


From 99db13db80284a51709ae596b89e1082ccd5cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:58 +0000
Subject: [PATCH 135/154] fix: paged attention computes its output also when
 its weights are not returned

---
 mllm/backends/cpu/ops/PagedAttnOp.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mllm/backends/cpu/ops/PagedAttnOp.cpp b/mllm/backends/cpu/ops/PagedAttnOp.cpp
index 03075d4..95dcdd7 100644
--- a/mllm/backends/cpu/ops/PagedAttnOp.cpp
+++ b/mllm/backends/cpu/ops/PagedAttnOp.cpp
@@ -28,7 +28,9 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   auto D = q_shape[3];
 
   auto& out = outputs[0];
-  Tensor attn = options_.need_attn_weights ? outputs[1] : Tensor::nil();
+  // The kernel works on the weights, they are scratch memory if the caller does not want them.
+  Tensor attn =
+      options_.need_attn_weights ? outputs[1] : Tensor::empty({B, H_Q, S_Q, S_KV}, kFloat32, Q.device()).alloc();
 
   // Not support yet.
   MLLM_RT_ASSERT_EQ(options_.fuse_rope, false);
@@ -38,18 +40,18 @@ void CPUPagedAttnOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::arm_arch_tag>(
           B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
-          options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
-          S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
+          attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
+          S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), true, options_.getThreads());
 #elif defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
-          options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
-          S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
+          attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
+          S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), true, options_.getThreads());
 #else
       paged_attn::fwd_bshd_fp32_fastexp<paged_attn::details::any_arch_tag>(
           B, S_Q, S_KV, S_FULL, H_Q, H_KV, D, Q.ptr<mllm_fp32_t>(), K.ptr<mllm_fp32_t>(), V.ptr<mllm_fp32_t>(), out.ptr<mllm_fp32_t>(),
-          options_.need_attn_weights ? attn.ptr<mllm_fp32_t>() : nullptr, index.ptr<int32_t>(),
-          S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), options_.need_attn_weights, options_.getThreads());
+          attn.ptr<mllm_fp32_t>(), index.ptr<int32_t>(),
+          S_Q == 1 ? nullptr : causal_mask.ptr<mllm_fp32_t>(), true, options_.getThreads());
 #endif
       break;
     }
-- 
2.43.0


From eeee623c035a95a7db034de91dfe96fc00874604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:47 +0000
Subject: [PATCH 136/154] fix: mllm-server reads the images field of an OCR
 request

---
 mllm-cli/pkg/server/handlers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index 2041117..45258ba 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -60,14 +60,15 @@ func (s *Server) preprocessRequestForOCR(payload map[string]interface{}) (bool,
 			continue
 		}
 		if role, _ := msg["role"].(string); role == "user" {
-			delete(msg, "images") 
+			images, _ := msg["images"].([]interface{})
+			delete(msg, "images")
 
 			if content, ok := msg["content"].([]interface{}); ok {
 				userMessage = msg
 				contentArray = content
 				log.Println("[Handler] Found OpenAI Vision 'content' array.")
 				break
-			} else if images, ok := msg["images"].([]interface{}); ok && len(images) > 0 {
+			} else if len(images) > 0 {
 				log.Println("[Handler] Found custom 'images' field.")
 				base64URI, ok := images[0].(string)
 				if !ok || !strings.HasPrefix(base64URI, "data:image") {
-- 
2.43.0


From 78dc87a408ed23dbd46e6c74eeb0adb7fb3d36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:22 +0000
Subject: [PATCH 137/154] fix: mllm-server passes the numbers of a request on
 as they are

---
 mllm-cli/pkg/server/handlers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index 45258ba..c75a2ba 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -172,7 +172,10 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 		}
 
 		var requestPayload map[string]interface{}
-		if err := json.NewDecoder(r.Body).Decode(&requestPayload); err != nil {
+		decoder := json.NewDecoder(r.Body)
+		// Numbers go on to the session as the client wrote them, a float64 does not hold all of them.
+		decoder.UseNumber()
+		if err := decoder.Decode(&requestPayload); err != nil {
 			http.Error(w, "Invalid request body", http.StatusBadRequest)
 			return
 		}
-- 
2.43.0


From 44cd3c176223e879f420638a9fa6b9751e7007f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:55 +0000
Subject: [PATCH 138/154] fix: mllm-server takes the whole answer of a client
 that has left

---
 mllm-cli/pkg/server/handlers.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mllm-cli/pkg/server/handlers.go b/mllm-cli/pkg/server/handlers.go
index c75a2ba..74eec62 100644
--- a/mllm-cli/pkg/server/handlers.go
+++ b/mllm-cli/pkg/server/handlers.go
@@ -238,11 +238,6 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 		log.Printf("Streaming response for session %s (Request ID: %s)...", session.SessionID(), requestID)
 
 		for {
-			if r.Context().Err() != nil {
-				log.Printf("Client disconnected. Stopping stream for %s.", session.SessionID())
-				break
-			}
-
 			rawResponse := session.PollResponse(requestID)
 
 			if rawResponse == "" {
@@ -250,9 +245,15 @@ func (s *Server) chatCompletionsHandler() http.HandlerFunc {
 				break
 			}
 
-			fmt.Fprintf(w, "data: %s\n\n", rawResponse)
-			if fl, ok := w.(http.Flusher); ok {
-				fl.Flush()
+			// The session goes on when the client has left: the rest of the answer is still taken from it (nobody else would), and
+			// the files of the request stay until then.
+			if r.Context().Err() != nil {
+				log.Printf("Client disconnected. Dropping the rest of the stream for %s.", session.SessionID())
+			} else {
+				fmt.Fprintf(w, "data: %s\n\n", rawResponse)
+				if fl, ok := w.(http.Flusher); ok {
+					fl.Flush()
+				}
 			}
 
 			var responseChunk map[string]interface{}
-- 
2.43.0


From b344df7f6be0f4c5f7acee1bb991848cd1a54789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:12 +0000
Subject: [PATCH 139/154] fix: a parallel loop whose step does not divide its
 range runs its last index

---
 mllm/engine/HpcThreadPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 9d552d2..d1d1608 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -6,7 +6,7 @@
 namespace mllm {
 
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   // There is no need to fall in back to thread pool
   if (tiles_num <= 1 || task_slot_idx < 0) {
@@ -81,7 +81,7 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = (task.end - task.start + task.step - 1) / task.step;
 
   int _cnt = 0;
   std::vector<int> true_idx(tiles_num);
-- 
2.43.0


From 26b9f48846245d54f1cdfdf51e6a776c03d575d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:12 +0000
Subject: [PATCH 140/154] fix: a thread pool without workers runs its loops on
 the calling thread

---
 mllm/engine/HpcThreadPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index d1d1608..710e408 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -76,8 +76,8 @@ void HpcThreadPool::showCpuTopology() {
 void HpcThreadPool::__threadPoolDestroy() { available_task_slots_ = 0; }
 
 void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
-  // There are no task slots, use this main thread to compute!
-  if (available_task_slots_ == 0) {
+  // There are no task slots or no workers, use this main thread to compute!
+  if (available_task_slots_ == 0 || thread_cnt_ <= 1) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-- 
2.43.0


From e67e1bcae79ca7d6097c46f87d63f5f0cd9052bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:02 +0000
Subject: [PATCH 141/154] fix: a thread pool that was idled twice can be woken
 up

---
 mllm/engine/HpcThreadPool.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 710e408..02207f3 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -36,6 +36,8 @@ void HpcThreadPool::deactivate() {
 
 void HpcThreadPool::idle() {
   std::lock_guard<std::mutex> _l(queue_mutex_);
+  // A pool that idles already keeps what it goes back to
+  if (available_task_slots_ == 0) { return; }
   available_task_slots_old_ = available_task_slots_.load();
   available_task_slots_.store(0);
 }
-- 
2.43.0


From fe2e0f06f30146878b62a04b3d8fb100df0e0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:02 +0000
Subject: [PATCH 142/154] fix: idling the thread pool does not abandon a loop
 that runs

---
 mllm/engine/HpcThreadPool.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 02207f3..22acc1f 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -115,8 +115,18 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
         .step = 1,
     };
   }
+  bool has_workers = false;
   {
-    for (int i = 1; i < tiles_num; ++i) { *tasks_[task_slot_idx].second[i] = true; }
+    // The workers finish what they were given before they idle. Nothing is given to them once they do.
+    std::lock_guard<std::mutex> _l(queue_mutex_);
+    has_workers = available_task_slots_ > 0;
+    if (has_workers) {
+      for (int i = 1; i < tiles_num; ++i) { *tasks_[task_slot_idx].second[i] = true; }
+    }
+  }
+  if (!has_workers) {
+    for (int i = 0; i < tiles_num; ++i) { tasks_[task_slot_idx].first.func(i); }
+    return;
   }
 
   // Explain why we start a 0 idx function.
@@ -154,8 +164,14 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
   for (int i = 1; i < thread_cnt_; ++i) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
+      auto has_work = [this, thread_idx] {
+        for (auto& task : tasks_) {
+          if (*task.second[thread_idx]) { return true; }
+        }
+        return false;
+      };
       while (!stop_) {
-        while (available_task_slots_ > 0) {
+        while (available_task_slots_ > 0 || has_work()) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
             if (*tasks_[i].second[thread_idx]) {
               tasks_[i].first.func(thread_idx);
@@ -165,7 +181,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
           std::this_thread::yield();
         }
         std::unique_lock<std::mutex> _l(queue_mutex_);
-        condition_.wait(_l, [this] { return stop_ || available_task_slots_ > 0; });
+        condition_.wait(_l, [this, &has_work] { return stop_ || available_task_slots_ > 0 || has_work(); });
       }
     });
   }
-- 
2.43.0


From 2a8d4bf7673683d1d8165eb96f9a741aef9494ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:02 +0000
Subject: [PATCH 143/154] fix: a thread pool that is active can be destroyed

---
 mllm/engine/HpcThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 22acc1f..2ebbc43 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -171,7 +171,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
         return false;
       };
       while (!stop_) {
-        while (available_task_slots_ > 0 || has_work()) {
+        while (!stop_ && (available_task_slots_ > 0 || has_work())) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
             if (*tasks_[i].second[thread_idx]) {
               tasks_[i].first.func(thread_idx);
-- 
2.43.0


From dd7de3f362fddb1e58936afa3c7f74f1d067c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:01 +0000
Subject: [PATCH 144/154] fix: a symbolic expression keeps the precedence of
 three operators in a row

---
 mllm/compile/symbolic_expr/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index a6f3eda..1ede9b7 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -298,9 +298,10 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseBinaryExpr(expr_ast_ptr_
 
   // look ahead, LL(1)
   auto next_op = lookOneMoreToken();
-  if (next_op.type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(next_op) > lexer_->getPrecedence(binary_op)) {
+  while (next_op.type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(next_op) > lexer_->getPrecedence(binary_op)) {
     (void)getNextToken();
     rhs_expr = parseBinaryExpr(rhs_expr);
+    next_op = lookOneMoreToken();
   }
 
   return std::make_shared<BinaryExprAST>(binary_op.token_v_, prev_expr, rhs_expr);
@@ -327,6 +328,7 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNumberLiteralExpr() {
 }
 
 SymbolExprToken SymbolExprParser::lookOneMoreToken() {
+  if (!token_buffer_.empty()) { return token_buffer_.front(); }
   auto ret = lexer_->getNextToken();
   token_buffer_.push(ret);
   return ret;
-- 
2.43.0


From 2fe6fc613da3f0e0342e67be3889a3d73e7dd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:10 +0000
Subject: [PATCH 145/154] fix: the command line rejects numbers with something
 after them

---
 mllm/utils/Argparse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mllm/utils/Argparse.hpp b/mllm/utils/Argparse.hpp
index 9007ce4..2d1d8c2 100644
--- a/mllm/utils/Argparse.hpp
+++ b/mllm/utils/Argparse.hpp
@@ -84,7 +84,10 @@ class Argument : public ArgumentBase, public ArgArgument<Argument<T>> {
       } else {
         iss >> value_;
       }
-      if (iss.fail()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Invalid value type"); }
+      // The whole word has to be the value, "12abc" is not 12
+      if (iss.fail() || (!std::is_same_v<T, std::string> && !(iss >> std::ws).eof())) {
+        MLLM_ERROR_EXIT(ExitCode::kCoreError, "Invalid value type");
+      }
     }
     is_set_ = true;
   }
-- 
2.43.0


From d4827f3b6de9a3b35397a8ad3c8e9e78e1d271a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:10 +0000
Subject: [PATCH 146/154] fix: an argument without a default that is not given
 is zero

---
 mllm/utils/Argparse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mllm/utils/Argparse.hpp b/mllm/utils/Argparse.hpp
index 2d1d8c2..faae165 100644
--- a/mllm/utils/Argparse.hpp
+++ b/mllm/utils/Argparse.hpp
@@ -126,8 +126,8 @@ class Argument : public ArgumentBase, public ArgArgument<Argument<T>> {
   std::vector<std::string> flags_;
   std::string help_;
   std::string meta_;
-  T value_;
-  T default_;
+  T value_{};
+  T default_{};
   bool required_ = false;
   bool positional_ = false;
   bool is_set_ = false;
-- 
2.43.0


From 137a7694fc05a6daefdc3b322dea9e8017d398d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:10 +0000
Subject: [PATCH 147/154] fix: an AnyValue can be assigned a part of its own
 value

---
 mllm/utils/AnyValue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/utils/AnyValue.hpp b/mllm/utils/AnyValue.hpp
index 23a98b7..1e7a938 100644
--- a/mllm/utils/AnyValue.hpp
+++ b/mllm/utils/AnyValue.hpp
@@ -103,9 +103,11 @@ class AnyValue {
 
   template<typename T, typename... Args>
   T& emplace(Args&&... args) {
-    reset();
     using OwnedType = std::decay_t<T>;
-    data_ = new OwnedType(std::forward<Args>(args)...);
+    // The new value may be made from the old one, and making it may fail
+    auto* data = new OwnedType(std::forward<Args>(args)...);
+    reset();
+    data_ = data;
     type_info_ = &typeid(T);
     manager_ = manager_for_<OwnedType>();
     return *static_cast<OwnedType*>(data_);
-- 
2.43.0


From 8d76de91d5f05225bb2599a21b5f3609f8f2fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:10 +0000
Subject: [PATCH 148/154] fix: moving an IntrusivePtr to one of its base class
 keeps the object

---
 mllm/utils/IntrusivePtr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/utils/IntrusivePtr.hpp b/mllm/utils/IntrusivePtr.hpp
index fff1820..2a40a52 100644
--- a/mllm/utils/IntrusivePtr.hpp
+++ b/mllm/utils/IntrusivePtr.hpp
@@ -56,7 +56,8 @@ class IntrusivePtr {
 
   template<typename U>
   IntrusivePtr(IntrusivePtr<U>&& other) noexcept : ptr(other.get()) {  // NOLINT
-    other.reset();
+    // The reference moves along, it is not released
+    other.ptr = nullptr;
   }
 
   ~IntrusivePtr() {
-- 
2.43.0


From 6405b6f385f0df82ca6d8f970811c99efb1591a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:50 +0000
Subject: [PATCH 149/154] fix: polling for a response ends when the service is
 stopped

---
 mllm/c_api/Runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mllm/c_api/Runtime.cpp b/mllm/c_api/Runtime.cpp
index e0b301c..249394e 100644
--- a/mllm/c_api/Runtime.cpp
+++ b/mllm/c_api/Runtime.cpp
@@ -163,6 +163,8 @@ const char* pollResponse(const char* session_id) {
     try {
         nlohmann::json j = nlohmann::json::parse(response);
 
+        // The last response of a request. A stopped service has no choices in it.
+        finished = j.value("finished", false);
 
         if (j.contains("choices")) {
             if (j["choices"].is_array() && !j["choices"].empty()) {
-- 
2.43.0


From cdc25747ecb2a5f85b2aa7265bfd6bd7dc987c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:31 +0000
Subject: [PATCH 150/154] fix: the pool of CUDA IPC chunks can be created

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..4444809 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,11 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From ad6eca3443c8ce91d9128b6d1a709110fedc76d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:31 +0000
Subject: [PATCH 151/154] fix: request IDs that are no file name can be passed
 through shared memory

---
 pymllm/orchestrator/shared_memory_queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 2f006bd..0c6d311 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -77,7 +77,7 @@ class SharedMemoryManager:
         """Write metadata to shared memory and return the segment name.
 
         Args:
-            rid: Request ID (used as part of the shared memory name)
+            rid: Request ID
             metadata: Serializable metadata object
 
         Returns:
@@ -85,7 +85,8 @@ class SharedMemoryManager:
         """
         data = pickle.dumps(metadata)
         size = len(data)
-        shm_name = f"pymllm_meta_{rid}_{uuid.uuid4().hex[:8]}"
+        # Not of the request ID: it may be too long for a name or hold a slash.
+        shm_name = f"pymllm_meta_{uuid.uuid4().hex}"
         try:
             shm = SharedMemory(name=shm_name, create=True, size=size)
             shm.buf[:size] = data
-- 
2.43.0


From f8a72daab64d7a856419b9d59dd762f4356dc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:54 +0000
Subject: [PATCH 152/154] fix: the chunks of empty tensors do not break up the
 CUDA IPC pool

---
 pymllm/orchestrator/cuda_ipc_transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 4444809..a95decf 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -307,8 +307,10 @@ class MmItemMemoryPool:
         for chunk in self.occupied_chunks:
             if chunk.try_to_recycle(self.num_consumers):
                 self._return_sync_buffer(chunk.sync_flag)
-                chunk.sync_flag = self._new_sync_buffer()
-                self.available_chunks.append(chunk)
+                # The chunk of an empty tensor would keep its neighbours apart
+                if chunk.mem_size > 0:
+                    chunk.sync_flag = self._new_sync_buffer()
+                    self.available_chunks.append(chunk)
             else:
                 new_occupied.append(chunk)
         self.occupied_chunks = new_occupied
-- 
2.43.0


From c9b947bc894e8542fd510941fe857d7b7be2d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:54 +0000
Subject: [PATCH 153/154] fix: strided tensors and scalars can be sent through
 the CUDA IPC pool

---
 pymllm/orchestrator/cuda_ipc_transport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index a95decf..5489f31 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -436,7 +436,7 @@ class CudaIpcTensorTransportProxy:
                 result = torch.empty(
                     h["target_shape"], dtype=h["target_dtype"], device=target_device
                 ).contiguous()
-                result.view(torch.int8).view(-1).copy_(slice_tensor)
+                result.view(-1).view(torch.int8).copy_(slice_tensor)
 
             # Signal sender that the chunk can be recycled
             _increment_sync_flag(self.sync_data_meta)
@@ -601,7 +601,8 @@ def _wrap_cuda_tensor(
         sync_meta, pool_slice = pool.get_slice_with_flag(tensor)
         if pool_slice is not None:
             # Copy tensor bytes into the pool slice
-            pool_slice.copy_(tensor.view(torch.int8).view(-1), non_blocking=True)
+            flat = tensor.contiguous().as_strided((tensor.numel(),), (1,))
+            pool_slice.copy_(flat.view(torch.int8), non_blocking=True)
             return CudaIpcTensorTransportProxy(
                 data=pool_slice,
                 info_data=tensor,
-- 
2.43.0


From d72c021148568c5f037bfda0790c763e18a8ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:54 +0000
Subject: [PATCH 154/154] fix: without an IPC handle the receiver gets the
 tensor itself and its chunk is recycled

---
 pymllm/orchestrator/cuda_ipc_transport.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 5489f31..31bc66b 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -402,7 +402,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -438,8 +438,6 @@ class CudaIpcTensorTransportProxy:
                 ).contiguous()
                 result.view(-1).view(torch.int8).copy_(slice_tensor)
 
-            # Signal sender that the chunk can be recycled
-            _increment_sync_flag(self.sync_data_meta)
         elif state["tensor_data"] is not None:
             result = state["tensor_data"]
             if device_index is not None:
@@ -447,6 +445,8 @@ class CudaIpcTensorTransportProxy:
         else:
             raise RuntimeError("CudaIpcTensorTransportProxy: invalid state")
 
+        # Signal sender that the chunk can be recycled
+        _increment_sync_flag(self.sync_data_meta)
         self._reconstructed = result
         return result
 
-- 
2.43.0

