From fd2ead7a334937d8ce4bbb7f7fcfb4984c11c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 01/26] fix: compare the expected value, not the index suffix,
 when replacing in a list

---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From bd3f7e777e6542a4bc8d30c2a5d936f139ea73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 02/26] fix: removing the only element of a queue by index must
 not shrink it from both ends

---
 src/queues.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..16a1a1b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -270,8 +270,7 @@ impl CandyStore {
             let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
             if queue.head_idx == idx {
                 queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
+            } else if queue.tail_idx == idx + 1 {
                 queue.tail_idx -= 1;
             }
             queue.num_items -= 1;
-- 
2.43.0


From 67d081397d3adb4af82fe2f50394e126a66f99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 03/26] fix: an empty big value exists

---
 src/store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index 74d9877..0ad6972 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -529,8 +529,14 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        let val = val.as_ref();
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        if val.is_empty() {
+            // an empty value still takes one (empty) chunk, or it would seem as if the key does not exist
+            self.extend_queue(key, [val].into_iter())?;
+        } else {
+            self.extend_queue(key, val.chunks(MAX_VALUE_SIZE))?;
+        }
         Ok(existed)
     }
 
-- 
2.43.0


From 786738c380310a04f6c01f5b3cf9d0970546fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 04/26] fix: check sizes before modifying anything in
 multi-entry operations

---
 src/lists.rs  | 11 +++++++++++
 src/queues.rs | 15 +++++++++++++++
 src/store.rs  | 36 ++++++++++++++++++++++--------------
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..a954262 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -142,6 +142,14 @@ impl CandyStore {
         self.keyed_locks[(list_ph.signature() & self.keyed_locks_mask) as usize].lock()
     }
 
+    fn ensure_list_item_fits(&self, list_key: &[u8], item_key: &[u8], val: &[u8]) -> Result<()> {
+        self.ensure_entry_fits(
+            item_key.len() + size_of::<PartedHash>() + ITEM_NAMESPACE.len(),
+            val.len() + size_of::<u64>(),
+        )?;
+        self.ensure_entry_fits(list_key.len() + LIST_NAMESPACE.len(), size_of::<List>())
+    }
+
     fn _insert_to_list(
         &self,
         list_key: Vec<u8>,
@@ -149,6 +157,8 @@ impl CandyStore {
         mut val: Vec<u8>,
         mode: InsertMode,
     ) -> Result<InsertToListStatus> {
+        self.ensure_list_item_fits(&list_key, &item_key, &val)?;
+
         let (list_ph, list_key) = self.make_list_key(list_key);
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
 
@@ -297,6 +307,7 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            self.ensure_list_item_fits(&list_key, &item_key, &val)?;
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 16a1a1b..8a0481e 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,7 +111,17 @@ impl CandyStore {
         item_key
     }
 
+    pub(crate) fn ensure_queue_item_fits(&self, queue_key: &[u8], val_len: usize) -> Result<()> {
+        self.ensure_entry_fits(
+            queue_key.len() + size_of::<u64>() + QUEUE_ITEM_NAMESPACE.len(),
+            val_len,
+        )?;
+        self.ensure_entry_fits(queue_key.len() + QUEUE_NAMESPACE.len(), size_of::<Queue>())
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
+        self.ensure_queue_item_fits(queue_key, val.len())?;
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
@@ -328,6 +338,11 @@ impl CandyStore {
         items: impl Iterator<Item = impl AsRef<[u8]>>,
     ) -> Result<Range<usize>> {
         let queue_key = queue_key.as_ref();
+        let items = items.collect::<Vec<_>>();
+        for item in items.iter() {
+            self.ensure_queue_item_fits(queue_key, item.as_ref().len())?;
+        }
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 0ad6972..40653a8 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,37 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    // operations that modify several entries check all of them before modifying any
+    pub(crate) fn ensure_entry_fits(&self, full_key_len: usize, val_len: usize) -> Result<()> {
         ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key_len + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key_len + val_len,
                 self.config.max_shard_size as usize
             )));
         }
 
+        Ok(())
+    }
+
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+
+        self.ensure_entry_fits(full_key.len(), val.len())?;
+
         self.root.insert(ph, full_key, val, mode)
     }
 
@@ -530,6 +537,7 @@ impl CandyStore {
         val: &B2,
     ) -> Result<bool> {
         let val = val.as_ref();
+        self.ensure_queue_item_fits(key.as_ref(), val.len().min(MAX_VALUE_SIZE))?;
         let existed = self.discard_queue(key)?;
         if val.is_empty() {
             // an empty value still takes one (empty) chunk, or it would seem as if the key does not exist
-- 
2.43.0


From a4d35430ed511d79608097aef8bd1a0ebf314172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 05/26] fix: remove list items before their bookkeeping so that
 a crash cannot detach them

---
 src/lists.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index a954262..bdc49f5 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -448,6 +448,19 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // the item goes first and the list is updated last, so if we crash in between we're left with a hole
+        // (which is skipped) and not with an item that can be fetched but isn't part of the list
+
+        // remove item
+        self.remove_raw(&item_key)?;
+
+        // remove chain
+        self.remove_raw(bytes_of(&ChainKey {
+            list_ph,
+            idx: item_idx,
+            namespace: CHAIN_NAMESPACE,
+        }))?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(&list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -468,16 +481,6 @@ impl CandyStore {
             }
         }
 
-        // remove chain
-        self.remove_raw(bytes_of(&ChainKey {
-            list_ph,
-            idx: item_idx,
-            namespace: CHAIN_NAMESPACE,
-        }))?;
-
-        // remove item
-        self.remove_raw(&item_key)?;
-
         Ok(Some(existing_val))
     }
 
@@ -649,12 +652,13 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            // same order as in remove_from_list
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From c48c0fe1fd3f09e2505cdf5832ea00aab3140b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 06/26] fix: list peeks and pops find and remove the end of the
 list under one lock

---
 src/lists.rs | 79 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 27 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index bdc49f5..960d73e 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -436,8 +436,17 @@ impl CandyStore {
         let (_, item_key) = self.make_item_key(list_ph, item_key);
 
         let _guard = self.lock_list(list_ph);
+        self._remove_from_list(list_ph, &list_key, &item_key)
+    }
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+    // must be called with the list's lock held
+    fn _remove_from_list(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -452,7 +461,7 @@ impl CandyStore {
         // (which is skipped) and not with an item that can be fetched but isn't part of the list
 
         // remove item
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         // remove chain
         self.remove_raw(bytes_of(&ChainKey {
@@ -462,7 +471,7 @@ impl CandyStore {
         }))?;
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -475,9 +484,9 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
@@ -665,6 +674,40 @@ impl CandyStore {
         Ok(true)
     }
 
+    // finding the element and removing it happen under a single lock, so that what we return is indeed the
+    // head (or tail) of the list at that moment
+    fn _peek_or_pop_list(
+        &self,
+        list_key: Vec<u8>,
+        fwd: bool,
+        remove: bool,
+    ) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+        let mut range = list.head_idx..list.tail_idx;
+
+        while let Some(idx) = if fwd { range.next() } else { range.next_back() } {
+            let Some((_, full_key, mut val)) = self.get_from_list_at_index(list_ph, idx, false)?
+            else {
+                continue;
+            };
+            if remove {
+                self._remove_from_list(list_ph, &list_key, &full_key)?;
+            }
+            let mut key = full_key;
+            key.truncate(key.len() - size_of::<PartedHash>() - ITEM_NAMESPACE.len());
+            val.truncate(val.len() - size_of::<u64>());
+            return Ok(Some((key, val)));
+        }
+
+        Ok(None)
+    }
+
     /// Returns the first (head) element of the list
     pub fn peek_list_head<B: AsRef<[u8]> + ?Sized>(&self, list_key: &B) -> Result<Option<KVPair>> {
         self.owned_peek_list_head(list_key.as_ref().to_owned())
@@ -672,10 +715,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_head]
     pub fn owned_peek_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        let Some(kv) = self.owned_iter_list(list_key).next() else {
-            return Ok(None);
-        };
-        Ok(Some(kv?))
+        self._peek_or_pop_list(list_key, true, false)
     }
 
     /// Returns the last (tail) element of the list
@@ -685,10 +725,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_peek_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key) {
-            return Ok(Some(kv?));
-        }
-        Ok(None)
+        self._peek_or_pop_list(list_key, false, false)
     }
 
     /// Removes and returns the first (head) element of the list
@@ -698,13 +735,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._peek_or_pop_list(list_key, true, true)
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -714,13 +745,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._peek_or_pop_list(list_key, false, true)
     }
 
     /// Returns the estimated list length
-- 
2.43.0


From 1d4137fab38afee2f83c17ac59e379b6feaccf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 07/26] fix: queue peeks look at the queue's end under its lock

---
 src/queues.rs | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 8a0481e..85ff0ff 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -376,15 +376,33 @@ impl CandyStore {
         Ok(indices)
     }
 
+    fn _peek_queue(&self, queue_key: &[u8], pos: QueuePos) -> Result<Option<(usize, Vec<u8>)>> {
+        let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
+        let _guard = self.lock_list(queue_ph);
+
+        let Some(queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = from_bytes::<Queue>(&queue_bytes);
+        let mut range = queue.head_idx..queue.tail_idx;
+
+        while let Some(idx) = match pos {
+            QueuePos::Head => range.next(),
+            QueuePos::Tail => range.next_back(),
+        } {
+            if let Some(v) = self.get_raw(&self.make_queue_item_key(queue_key, idx))? {
+                return Ok(Some((idx as usize, v)));
+            }
+        }
+        Ok(None)
+    }
+
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
     pub fn peek_queue_head_with_idx<B: AsRef<[u8]> + ?Sized>(
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), QueuePos::Head)
     }
 
     /// Returns (without removing) the head element of the queue, or None if the queue is empty
@@ -392,10 +410,9 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self
+            ._peek_queue(queue_key.as_ref(), QueuePos::Head)?
+            .map(|iv| iv.1))
     }
 
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
@@ -403,10 +420,7 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<(usize, Vec<u8>)>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?));
-        }
-        Ok(None)
+        self._peek_queue(queue_key.as_ref(), QueuePos::Tail)
     }
 
     /// Returns (without removing) the tail element of the queue, or None if the queue is empty
@@ -414,10 +428,9 @@ impl CandyStore {
         &self,
         queue_key: &B,
     ) -> Result<Option<Vec<u8>>> {
-        for res in self.iter_queue_backwards(queue_key) {
-            return Ok(Some(res?.1));
-        }
-        Ok(None)
+        Ok(self
+            ._peek_queue(queue_key.as_ref(), QueuePos::Tail)?
+            .map(|iv| iv.1))
     }
 
     /// Returns a forward iterator (head to tail) over the elements of the queue. If the queue does not exist,
-- 
2.43.0


From 565aecb9607ed37b0ce01ac607cb7b9c8e928e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 08/26] fix: remove_from_queue must not touch leftovers outside
 the queue's range

---
 src/queues.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 85ff0ff..f4e712b 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -272,23 +272,29 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
+        let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        if !(queue.head_idx..queue.tail_idx).contains(&idx) {
+            // an interrupted extend may leave items outside the range, they're not part of the queue
+            return Ok(None);
+        }
+
         let Some(val) = self.remove_raw(&self.make_queue_item_key(queue_key, idx as u64))? else {
             return Ok(None);
         };
 
-        if let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? {
-            let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
-            if queue.head_idx == idx {
-                queue.head_idx += 1;
-            } else if queue.tail_idx == idx + 1 {
-                queue.tail_idx -= 1;
-            }
-            queue.num_items -= 1;
-            if queue.is_empty() {
-                self.remove_raw(&full_queue_key)?;
-            } else {
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-            }
+        if queue.head_idx == idx {
+            queue.head_idx += 1;
+        } else if queue.tail_idx == idx + 1 {
+            queue.tail_idx -= 1;
+        }
+        queue.num_items -= 1;
+        if queue.is_empty() {
+            self.remove_raw(&full_queue_key)?;
+        } else {
+            self.set_raw(&full_queue_key, &queue_bytes)?;
         }
 
         Ok(Some(val))
-- 
2.43.0


From 7ffee4b7edbbc5ae869b989561a1cb19f2a39fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 09/26] fix: write a pushed queue item before making it part of
 the queue

---
 src/queues.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index f4e712b..db0110f 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -125,20 +125,17 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
-        let status = self.get_or_create_raw(
-            &full_queue_key,
-            bytes_of(&Queue {
-                head_idx: Self::FIRST_QUEUE_IDX,
-                tail_idx: Self::FIRST_QUEUE_IDX + 1,
-                num_items: 1,
-            })
-            .to_owned(),
-        )?;
-
-        let item_idx = match status {
-            crate::GetOrCreateStatus::CreatedNew(_) => Self::FIRST_QUEUE_IDX,
-            crate::GetOrCreateStatus::ExistingValue(mut queue_bytes) => {
-                let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        let (queue, item_idx) = match self.get_raw(&full_queue_key)? {
+            None => (
+                Queue {
+                    head_idx: Self::FIRST_QUEUE_IDX,
+                    tail_idx: Self::FIRST_QUEUE_IDX + 1,
+                    num_items: 1,
+                },
+                Self::FIRST_QUEUE_IDX,
+            ),
+            Some(queue_bytes) => {
+                let mut queue = *from_bytes::<Queue>(&queue_bytes);
                 let item_idx = match pos {
                     QueuePos::Head => {
                         queue.head_idx -= 1;
@@ -151,12 +148,14 @@ impl CandyStore {
                     }
                 };
                 queue.num_items += 1;
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-                item_idx
+                (queue, item_idx)
             }
         };
 
+        // the item is written before it becomes part of the queue, so if we crash in between we will not expose
+        // a leftover of an interrupted extend that may be found at this index
         self.set_raw(&self.make_queue_item_key(queue_key, item_idx), val)?;
+        self.set_raw(&full_queue_key, bytes_of(&queue))?;
         Ok(item_idx as usize)
     }
 
-- 
2.43.0


From 43620a3274fa632f726be11822fc46ba2a26a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 10/26] fix: the cookie of an exhausted iterator must not wrap
 to the beginning

---
 src/store.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 40653a8..353f2c0 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,8 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        // the selector of an exhausted iterator is END_OF_SHARDS, so it takes 17 bits
+        ((self.shard_selector as u64 & 0x1ffff) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +144,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From 4498e6b39aef557562079f51f41690172277f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 11/26] fix: do not split shards endlessly when splitting
 cannot make room

---
 src/shard.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6859359..f10ce40 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -533,6 +533,15 @@ impl Shard {
         Ok(())
     }
 
+    // a shard that covers a single selector, or that holds nothing but the entry being written (the rest is
+    // garbage), would be just as full after a split
+    fn can_split(&self, file: &MmapFile, row: &ShardRow, ph: PartedHash) -> bool {
+        let num_inserts = file.header().num_inserts.load(Ordering::Relaxed);
+        let num_removals = file.header().num_removals.load(Ordering::Relaxed);
+        let exists = row.lookup(ph.signature(), &mut 0).is_some() as u64;
+        self.span.len() > 1 && num_inserts > num_removals + exists
+    }
+
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
@@ -996,6 +1005,7 @@ impl Shard {
                     } else if file.header().write_offset.load(Ordering::Relaxed)
                         + (full_key.len() + val.len()) as u64
                         > self.config.max_shard_size as u64
+                        && self.can_split(file, row, ph)
                     {
                         return Ok(InsertStatus::SplitNeeded);
                     }
@@ -1029,6 +1039,10 @@ impl Shard {
                             Ok(InsertStatus::Added)
                         } else {
                             // no room in this row, must split
+                            ensure!(
+                                self.can_split(file, row, ph),
+                                "row is full and shard cannot be split"
+                            );
                             Ok(InsertStatus::SplitNeeded)
                         }
                     }
-- 
2.43.0


From f07b2d0c9a17ec818a4efa21714993818a6c612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 12/26] fix: merge small shards in place

Merging recursed into already merged nodes and locked the same nodes twice, which
deadlocked, merged stale shards again, and reopened every shard file (while compactions
could be running on them).
---
 src/router.rs | 97 ++++++++++++++-------------------------------------
 1 file changed, 26 insertions(+), 71 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..5aee727 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -393,66 +393,36 @@ impl ShardRouter {
         }
     }
 
-    fn _merge(
-        &self,
-        bottom: &ShardRouter,
-        top: &ShardRouter,
-        max_fill: usize,
-        shards_to_remove: &mut u32,
-    ) -> Result<Option<ShardRouter>> {
-        if *shards_to_remove == 0 {
-            return Ok(None);
-        }
+    // merges the leaves under this node as much as possible, returns true if it is (or became) a leaf
+    fn _merge(&self, max_fill: usize, shards_to_remove: &mut u32) -> Result<bool> {
+        let mut guard = self.node.write();
+        let (bottom, top) = match &*guard {
+            ShardNode::Leaf(_) => return Ok(true),
+            ShardNode::Vertex(bottom, top) => (bottom.clone(), top.clone()),
+        };
 
-        let bottom_guard = bottom.node.write();
-        let top_guard = top.node.write();
+        let bottom_is_leaf = bottom._merge(max_fill, shards_to_remove)?;
+        let top_is_leaf = top._merge(max_fill, shards_to_remove)?;
+        if !bottom_is_leaf || !top_is_leaf || *shards_to_remove == 0 {
+            return Ok(false);
+        }
 
-        match (&*bottom_guard, &*top_guard) {
+        let merged = match (&*bottom.node.read(), &*top.node.read()) {
             (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
-                if b.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if t.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if let Some(sh) = Shard::merge(b, t)? {
-                    *shards_to_remove = *shards_to_remove - 1;
-                    let span = sh.span.clone();
-                    Ok(Some(ShardRouter {
-                        config: self.config.clone(),
-                        node: RwLock::new(ShardNode::Leaf(sh)),
-                        span,
-                        stats: self.stats.clone(),
-                        threadpool: self.threadpool.clone(),
-                    }))
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
-                if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(bottom, &merged_top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
-                if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(&merged_bottom, top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
-                match (m1, m2) {
-                    (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
+                if b.get_stats()?.num_items() > max_fill || t.get_stats()?.num_items() > max_fill {
+                    return Ok(false);
                 }
+                Shard::merge(b, t)?
             }
+            _ => unreachable!(),
+        };
+
+        if let Some(sh) = merged {
+            *shards_to_remove -= 1;
+            *guard = ShardNode::Leaf(sh);
+            Ok(true)
+        } else {
+            Ok(false)
         }
     }
 
@@ -475,22 +445,7 @@ impl ShardRouter {
         }
         let mut shards_to_remove = starting_num_shards - needed_shards;
 
-        {
-            let mut guard = self.node.write();
-
-            match &*guard {
-                ShardNode::Leaf(_) => None,
-                ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
-                }
-            };
-
-            *guard = Self::treeify(
-                Self::load(&self.config, &self.stats, &self.threadpool)?,
-                &self.stats,
-                &self.threadpool,
-            );
-        }
+        self._merge(max_fill, &mut shards_to_remove)?;
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
 
-- 
2.43.0


From 23c31a3f98b0f0db805a7bef5899a6b970d80931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 13/26] fix: files that merely look like shards must not panic
 or be taken for one

---
 src/router.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 5aee727..003bcd6 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -130,11 +130,22 @@ impl ShardRouter {
             let Some((start, end)) = span.split_once("-") else {
                 continue;
             };
-            let start = u32::from_str_radix(start, 16).expect(filename);
-            let end = u32::from_str_radix(end, 16).expect(filename);
+            let (Ok(start), Ok(end)) = (
+                u32::from_str_radix(start, 16),
+                u32::from_str_radix(end, 16),
+            ) else {
+                continue;
+            };
+            if filename != format!("shard_{start:04x}-{end:04x}") {
+                // not one of ours
+                continue;
+            }
 
             ensure!(
-                start < end && end <= Self::END_OF_SHARDS,
+                start < end
+                    && end <= Self::END_OF_SHARDS
+                    && (end - start).is_power_of_two()
+                    && start % (end - start) == 0,
                 "Bad span for {filename}"
             );
 
-- 
2.43.0


From 55b7fa9525568375da390cc158de6f2d478d66a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 14/26] fix: survive a crash while creating shard files

A store that died between creating its shards, or before writing the header of a shard
or of a compaction target, could not be opened again.
---
 src/router.rs | 31 +++++++++++++++++++++++++++++--
 src/shard.rs  | 43 ++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 003bcd6..ee3403b 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -162,10 +162,10 @@ impl ShardRouter {
         }
 
         let mut shards = vec![];
-        for span in shards_to_keep {
+        for (span, missing) in Self::fill_gaps(shards_to_keep) {
             shards.push(Shard::open(
                 span,
-                false,
+                missing,
                 config.clone(),
                 stats.clone(),
                 threadpool.clone(),
@@ -175,6 +175,33 @@ impl ShardRouter {
         Ok(shards)
     }
 
+    // the process may have died while creating or clearing the store, when only some of the shards existed.
+    // returns all the spans (if there are any), each with whether it's a missing one
+    fn fill_gaps(spans: Vec<Range<u32>>) -> Vec<(Range<u32>, bool)> {
+        let mut filled = vec![];
+        if spans.is_empty() {
+            return filled;
+        }
+
+        let mut pos = 0;
+        let end_of_shards = Self::END_OF_SHARDS..Self::END_OF_SHARDS;
+        for span in spans.into_iter().chain([end_of_shards]) {
+            while pos < span.start {
+                let mut len = Self::END_OF_SHARDS;
+                while pos % len != 0 || pos + len > span.start {
+                    len /= 2;
+                }
+                filled.push((pos..pos + len, true));
+                pos += len;
+            }
+            if !span.is_empty() {
+                pos = span.end;
+                filled.push((span, false));
+            }
+        }
+        filled
+    }
+
     fn calc_step(num_items: usize) -> u32 {
         let step = (Self::END_OF_SHARDS as f64)
             / (num_items as f64 / Shard::EXPECTED_CAPACITY as f64).max(1.0);
diff --git a/src/shard.rs b/src/shard.rs
index f10ce40..77ac064 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,5 +1,5 @@
 use anyhow::{bail, ensure};
-use bytemuck::{bytes_of_mut, Pod, Zeroable};
+use bytemuck::{bytes_of, bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
 use std::{
@@ -165,9 +165,14 @@ impl MmapFile {
             libc::posix_fallocate(file.as_raw_fd(), 0, HEADER_SIZE as i64)
         };
 
-        let header = unsafe { &mut *(mmap.as_ptr() as *mut ShardHeader) };
-        header.metadata.magic = SHARD_FILE_MAGIC;
-        header.metadata.version = SHARD_FILE_VERSION;
+        // written at once, so that we'd never leave a file with a magic but no version
+        file.write_all_at(
+            bytes_of(&MetaHeader {
+                magic: SHARD_FILE_MAGIC,
+                version: SHARD_FILE_VERSION,
+            }),
+            0,
+        )?;
 
         Ok(Self { file, mmap })
     }
@@ -369,6 +374,11 @@ impl Shard {
             .open(&filename)?;
 
         let mut file_size = file.metadata()?.len();
+        if file_size >= HEADER_SIZE && Self::is_zeroed(&file)? {
+            // the process died while creating this shard
+            file.set_len(0)?;
+            file_size = 0;
+        }
         if file_size != 0 {
             let mut meta_header = MetaHeader::default();
             let sz = file.read(bytes_of_mut(&mut meta_header))?;
@@ -423,11 +433,22 @@ impl Shard {
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            if let Ok(mut compacted_file) = OpenOptions::new()
                 .read(true)
                 .write(true)
                 .open(&compacted_filename)
             {
+                let mut meta_header = MetaHeader::default();
+                _ = compacted_file.read(bytes_of_mut(&mut meta_header))?;
+                if compacted_file.metadata()?.len() < HEADER_SIZE
+                    || meta_header.magic != SHARD_FILE_MAGIC
+                    || meta_header.version != SHARD_FILE_VERSION
+                {
+                    // the process died while creating it, so nothing was moved there yet
+                    compacted_file.set_len(0)?;
+                    compacted_file.set_len(HEADER_SIZE)?;
+                }
+
                 let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                 Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
                 std::fs::rename(compacted_filename, filename)?;
@@ -450,6 +471,18 @@ impl Shard {
         })
     }
 
+    fn is_zeroed(file: &File) -> Result<bool> {
+        // no need to look at the rest if the magic is there
+        for len in [size_of::<MetaHeader>(), HEADER_SIZE as usize] {
+            let mut buf = vec![0u8; len];
+            file.read_exact_at(&mut buf, 0)?;
+            if buf.iter().any(|b| *b != 0) {
+                return Ok(false);
+            }
+        }
+        Ok(true)
+    }
+
     fn new(
         span: Range<u32>,
         mmap_file: MmapFile,
-- 
2.43.0


From 2efae5a83428f342ae82d363c1a9165ade62c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 15/26] fix: flush the target of a running compaction, and do
 not deadlock with it

---
 src/shard.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 77ac064..294a9aa 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -562,7 +562,13 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+        // we might already hold it for reading, when called by flush_aggregation
+        let files_guard = self.files.read_recursive();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // the rows that were already compacted live there
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 771c7704de13a76bcee529e917c45da776a80460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 16/26] fix: the number of inserts must never be less than the
 number of removals

---
 src/shard.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 294a9aa..ecfab26 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -544,9 +544,9 @@ impl Shard {
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
                 target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
+                target.header().num_inserts.fetch_add(1, Ordering::SeqCst);
                 std::sync::atomic::fence(Ordering::SeqCst);
                 target_row.signatures[target_col] = ph.signature();
-                target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                 target_col += 1;
             }
 
@@ -1062,6 +1062,9 @@ impl Shard {
                         if let Some(idx) = row.lookup(INVALID_SIG, &mut start) {
                             let new_off = file.write_kv(&self.stats, &full_key, val)?;
 
+                            // count it first, so that a crash can't leave us with more items than inserts
+                            file.header().num_inserts.fetch_add(1, Ordering::SeqCst);
+
                             // we don't want a reorder to happen here - first write the offset, then the signature
                             row.offsets_and_sizes[idx] = new_off;
                             std::sync::atomic::fence(Ordering::SeqCst);
@@ -1069,7 +1072,6 @@ impl Shard {
                             if had_collision {
                                 self.stats.num_collisions.fetch_add(1, Ordering::Relaxed);
                             }
-                            file.header().num_inserts.fetch_add(1, Ordering::Relaxed);
                             #[cfg(feature = "flush_aggregation")]
                             {
                                 drop(_guard);
@@ -1130,11 +1132,15 @@ impl Shard {
         self.wait_for_compaction()?;
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
+        // entries may be inserted and removed meanwhile, so load what was lost before what was added
+        let wasted_bytes = hdr.wasted_bytes.load(Ordering::SeqCst) as usize;
+        let num_removals = hdr.num_removals.load(Ordering::SeqCst) as usize;
+        let num_inserts = hdr.num_inserts.load(Ordering::SeqCst) as usize;
         Ok(ShardStats {
-            write_offset: hdr.write_offset.load(Ordering::Relaxed) as usize,
-            wasted_bytes: hdr.wasted_bytes.load(Ordering::Relaxed) as usize,
-            num_inserts: hdr.num_inserts.load(Ordering::Relaxed) as usize,
-            num_removals: hdr.num_removals.load(Ordering::Relaxed) as usize,
+            write_offset: hdr.write_offset.load(Ordering::SeqCst) as usize,
+            wasted_bytes,
+            num_inserts,
+            num_removals,
         })
     }
 }
-- 
2.43.0


From cc23bd9f3702fa36bbfc43f508aaa682723c6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 17/26] fix: resuming a compaction must start over the row that
 was interrupted

Entries that were copied before the interruption and removed after it came back.
---
 src/shard.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index ecfab26..cfb66e5 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -530,14 +530,25 @@ impl Shard {
             let target_row = target.row_mut(row_idx);
             let mut target_col = 0;
 
+            if first_row {
+                // we may have been interrupted in the middle of this row, whose entries may be changed or
+                // removed since then, so start it over
+                for sig in target_row.signatures.iter_mut() {
+                    if *sig != INVALID_SIG {
+                        *sig = INVALID_SIG;
+                        target.header().num_inserts.fetch_sub(1, Ordering::SeqCst);
+                    }
+                }
+            }
+
             for (src_col, &sig) in src_row.signatures.iter().enumerate() {
                 if sig == INVALID_SIG {
                     continue;
                 }
                 let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
 
-                assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
+                assert_eq!(
+                    target_row.signatures[target_col], INVALID_SIG,
                     "row={row_idx} col={target_col} sig={}",
                     target_row.signatures[target_col]
                 );
-- 
2.43.0


From f2bfbc582531ed2e20a0cd0207dd42a3d294f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:35 +0000
Subject: [PATCH 18/26] fix: resume compactions that failed instead of never
 compacting the shard again

---
 src/shard.rs | 139 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 96 insertions(+), 43 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index cfb66e5..ad9b36e 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -593,10 +593,7 @@ impl Shard {
     }
 
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
-        let mut handle_guard = self.compaction_handle.lock();
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
-        }
+        self.settle_compaction()?;
 
         let files_guard = self.files.write();
 
@@ -691,6 +688,9 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
+        bottom.settle_compaction()?;
+        top.settle_compaction()?;
+
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
 
@@ -953,54 +953,79 @@ impl Shard {
         Ok(TryReplaceStatus::KeyDoesNotExist(row_guard, had_collision))
     }
 
-    fn wait_for_compaction(&self) -> Result<()> {
+    pub(crate) fn wait_for_compaction(&self) {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
+            // if it failed, the target is still there, and the compaction will be resumed
+            _ = handle.wait();
+        }
+    }
+
+    // waits for the running compaction to end, and if it failed, completes it
+    fn settle_compaction(&self) -> Result<()> {
+        self.wait_for_compaction();
+        if self.files.read().1.is_none() {
+            return Ok(());
+        }
+
+        let mut files_guard = self.files.write();
+        if let (src, Some(target)) = &*files_guard {
+            let t0 = Instant::now();
+            let (src_filename, target_filename) = self.compaction_filenames();
+            Self::complete_compaction(
+                &self.row_locks,
+                src,
+                target,
+                &self.stats,
+                &self.config,
+                t0,
+                &src_filename,
+                &target_filename,
+            )?;
+            files_guard.0 = files_guard.1.take().unwrap();
         }
         Ok(())
     }
 
+    // a compaction is stalled if it has failed, e.g., because the disk is full
+    fn is_compaction_stalled(&self) -> bool {
+        self.compaction_handle
+            .try_lock()
+            .is_some_and(|guard| guard.as_ref().map_or(true, |handle| handle.finished()))
+    }
+
+    fn compaction_filenames(&self) -> (PathBuf, PathBuf) {
+        let span = format!("{:04x}-{:04x}", self.span.start, self.span.end);
+        (
+            self.config.dir_path.join(format!("shard_{span}")),
+            self.config.dir_path.join(format!("compact_{span}")),
+        )
+    }
+
     fn begin_compaction(&self, min_write_offset: u64) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         let mut files_guard = self.files.write();
 
-        if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
-            // already compacted by someone else
-            return Ok(());
-        }
-
+        let t0 = Instant::now();
+        let (src_filename, target_filename) = self.compaction_filenames();
         if files_guard.1.is_some() {
             // if the compaction target exists and the thread is still running -- all good
             if let Some(ref handle) = *handle_guard {
                 if !handle.finished() {
                     return Ok(());
                 }
-            } else {
+            }
+            // otherwise it has failed, pick up from where it stopped
+        } else {
+            if files_guard.0.header().write_offset.load(Ordering::Relaxed) < min_write_offset {
+                // already compacted by someone else
                 return Ok(());
             }
+            let target = MmapFile::create(&target_filename, &self.config)?;
+            target.header().compacted_up_to.store(0, Ordering::Release);
+            files_guard.1 = Some(target);
         }
 
-        // the thread could've crashed in the middle of a compaction, and here's the place to extract the error
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
-        }
-
-        assert!(files_guard.1.is_none());
-
-        let t0 = Instant::now();
-        let src_filename = self.config.dir_path.join(format!(
-            "shard_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target_filename = self.config.dir_path.join(format!(
-            "compact_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target = MmapFile::create(&target_filename, &self.config)?;
-        target.header().compacted_up_to.store(0, Ordering::Release);
-        files_guard.1 = Some(target);
-
         let handle = self.threadpool.submit(CompactionInfo {
             files: self.files.clone(),
             stats: self.stats.clone(),
@@ -1015,20 +1040,43 @@ impl Shard {
         Ok(())
     }
 
+    fn complete_compaction(
+        row_locks: &[RwLock<()>; NUM_ROWS],
+        src: &MmapFile,
+        target: &MmapFile,
+        stats: &InternalStats,
+        config: &InternalConfig,
+        t0: Instant,
+        src_filename: &Path,
+        target_filename: &Path,
+    ) -> Result<()> {
+        Self::do_compaction(row_locks, src, target, stats, config)?;
+
+        std::fs::rename(target_filename, src_filename)?;
+
+        stats.report_compaction(
+            t0,
+            src.header().write_offset.load(Ordering::Relaxed),
+            target.header().write_offset.load(Ordering::Relaxed),
+        );
+        Ok(())
+    }
+
     fn background_compact(info: CompactionInfo) -> Result<()> {
         let mut files_guard = info.files.upgradable_read();
         let src = &files_guard.0;
         let target = files_guard.1.as_ref().unwrap();
 
-        Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
-
-        std::fs::rename(&info.target_filename, &info.src_filename)?;
-
-        info.stats.report_compaction(
+        Self::complete_compaction(
+            &info.row_locks,
+            src,
+            target,
+            &info.stats,
+            &info.config,
             info.t0,
-            src.header().write_offset.load(Ordering::Relaxed),
-            target.header().write_offset.load(Ordering::Relaxed),
-        );
+            &info.src_filename,
+            &info.target_filename,
+        )?;
 
         files_guard.with_upgraded(|files| {
             files.0 = files.1.take().unwrap();
@@ -1047,7 +1095,11 @@ impl Shard {
 
         let status =
             self.operate_on_row_mut(ph.row_selector(), |file, is_compacting, row_guard, row| {
-                if !is_compacting {
+                if is_compacting {
+                    if self.is_compaction_stalled() {
+                        should_compact = Some(u64::MAX);
+                    }
+                } else {
                     if file.header().wasted_bytes.load(Ordering::Relaxed)
                         >= self.config.min_compaction_threashold as u64
                     {
@@ -1140,7 +1192,8 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        // if it can't be completed now, report what we know
+        _ = self.settle_compaction();
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         // entries may be inserted and removed meanwhile, so load what was lost before what was added
@@ -1158,6 +1211,6 @@ impl Shard {
 
 impl Drop for Shard {
     fn drop(&mut self) {
-        _ = self.wait_for_compaction();
+        self.wait_for_compaction();
     }
 }
-- 
2.43.0


From 411522f55ee7f763a289b545c462293a507ee0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 19/26] fix: once renamed, a merged shard must be used even if
 its sources cannot be removed

---
 src/shard.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index ad9b36e..a6dbe0d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -762,8 +762,10 @@ impl Shard {
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
         std::fs::rename(tmp_filename, dst_filename)?;
-        std::fs::remove_file(bottom_filename)?;
-        std::fs::remove_file(top_filename)?;
+        // from here on we must use the merged shard. if these can't be removed now, they will be on the next
+        // open, since they're contained in it
+        _ = std::fs::remove_file(bottom_filename);
+        _ = std::fs::remove_file(top_filename);
 
         drop(combined_files);
 
-- 
2.43.0


From c632c5b69748d8c33cf8711ed5b1d441130c0838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 20/26] fix: clear must not race with compactions or
 multi-entry operations, or lose the tree when it fails

---
 src/router.rs | 33 +++++++++++++++++++++++++++++----
 src/store.rs  |  7 +++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index ee3403b..f5c57b8 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -65,6 +65,15 @@ impl ShardNode {
     fn len(&self) -> u32 {
         self.span().end - self.span().start
     }
+    fn wait_for_compactions(&self) {
+        match self {
+            Self::Leaf(sh) => sh.wait_for_compaction(),
+            Self::Vertex(bottom, top) => {
+                bottom.node.read().wait_for_compactions();
+                top.node.read().wait_for_compactions();
+            }
+        }
+    }
 }
 
 pub(crate) struct ShardRouter {
@@ -335,6 +344,25 @@ impl ShardRouter {
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
 
+        // new compactions can't begin now, but running ones would rename their targets over the new shards
+        guard.wait_for_compactions();
+
+        let res = self.recreate_shards();
+        if res.is_err() {
+            // some of the shards may be gone, use the remaining ones
+            let mut shards = Self::load(&self.config, &self.stats, &self.threadpool)?;
+            if shards.is_empty() {
+                shards =
+                    Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
+            }
+            *guard = Self::treeify(shards, &self.stats, &self.threadpool);
+        }
+        *guard = Self::treeify(res?, &self.stats, &self.threadpool);
+
+        Ok(())
+    }
+
+    fn recreate_shards(&self) -> Result<Vec<Shard>> {
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -356,10 +384,7 @@ impl ShardRouter {
             }
         }
 
-        let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
-        *guard = Self::treeify(shards, &self.stats, &self.threadpool);
-
-        Ok(())
+        Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)
     }
 
     pub(crate) fn call_on_all_shards<T>(
diff --git a/src/store.rs b/src/store.rs
index 353f2c0..50033b0 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -261,6 +261,13 @@ impl CandyStore {
 
     /// Clears the store (erasing all keys), and removing all shard files
     pub fn clear(&self) -> Result<()> {
+        // multi-entry operations must see either the old store or the cleared one
+        let _guards = self
+            .keyed_locks
+            .iter()
+            .map(|lock| lock.lock())
+            .collect::<Vec<_>>();
+
         self.root.clear()?;
         self.stats.clear();
 
-- 
2.43.0


From 85f0358da05b76e0df7d9cb28db454ae8098fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 21/26] fix: iteration must not miss entries that are moved by
 compaction, splits and merges

---
 src/shard.rs | 22 +++++++++------
 src/store.rs | 78 +++++++++++++++++++++++++++++-----------------------
 2 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index a6dbe0d..023b964 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -3,6 +3,7 @@ use bytemuck::{bytes_of, bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
 use std::{
+    collections::VecDeque,
     fs::{File, OpenOptions},
     io::Read,
     ops::Range,
@@ -817,15 +818,20 @@ impl Shard {
         )
     }
 
-    pub(crate) fn read_at(&self, row_idx: usize, entry_idx: usize) -> Result<Option<KVPair>> {
+    // reads the entries of the row, starting at the given one, with their indices
+    pub(crate) fn read_row(
+        &self,
+        row_idx: usize,
+        start_idx: usize,
+    ) -> Result<VecDeque<(usize, Result<KVPair>)>> {
         self.operate_on_row(row_idx, |file, row| {
-            if row.signatures[entry_idx] != INVALID_SIG {
-                Ok(Some(
-                    file.read_kv(&self.stats, row.offsets_and_sizes[entry_idx])?,
-                ))
-            } else {
-                Ok(None)
-            }
+            Ok((start_idx..ROW_WIDTH)
+                .filter(|idx| row.signatures[*idx] != INVALID_SIG)
+                .map(|idx| {
+                    let res = file.read_kv(&self.stats, row.offsets_and_sizes[idx]);
+                    (idx, res)
+                })
+                .collect())
         })
     }
 
diff --git a/src/store.rs b/src/store.rs
index 50033b0..92a1e76 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -2,6 +2,7 @@ use anyhow::{anyhow, bail, ensure};
 use fslock::LockFile;
 use parking_lot::Mutex;
 use std::{
+    collections::VecDeque,
     path::{Path, PathBuf},
     sync::Arc,
 };
@@ -12,10 +13,7 @@ use crate::{
     shard::{CompactionThreadPool, InsertMode, InsertStatus, KVPair},
     Stats, MAX_KEY_SIZE, MAX_TOTAL_VALUE_SIZE,
 };
-use crate::{
-    shard::{NUM_ROWS, ROW_WIDTH},
-    stats::InternalStats,
-};
+use crate::{shard::NUM_ROWS, stats::InternalStats};
 
 use crate::{CandyError, Config, Result, MAX_TOTAL_KEY_SIZE, MAX_VALUE_SIZE};
 
@@ -118,6 +116,12 @@ pub struct CandyStoreIterator<'a> {
     row_idx: usize,
     entry_idx: usize,
     raw: bool,
+    // the end of the shard that we've begun iterating over, it may be split or merged meanwhile
+    shard_end: Option<u32>,
+    // the rest of the current row. entries move around when their shard is compacted, split or merged, so a row
+    // is always read at once
+    row: VecDeque<(usize, Result<KVPair>)>,
+    row_loaded: bool,
 }
 
 impl<'a> CandyStoreIterator<'a> {
@@ -128,6 +132,9 @@ impl<'a> CandyStoreIterator<'a> {
             row_idx: 0,
             entry_idx: 0,
             raw,
+            shard_end: None,
+            row: VecDeque::new(),
+            row_loaded: false,
         }
     }
 
@@ -148,6 +155,9 @@ impl<'a> CandyStoreIterator<'a> {
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
+            shard_end: None,
+            row: VecDeque::new(),
+            row_loaded: false,
         }
     }
 }
@@ -156,47 +166,47 @@ impl<'a> Iterator for CandyStoreIterator<'a> {
     type Item = Result<KVPair>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        while self.shard_selector < ShardRouter::END_OF_SHARDS {
-            let res = self.store.root.shared_op(self.shard_selector, |sh| {
-                while self.row_idx < NUM_ROWS {
-                    let row_idx = self.row_idx;
-                    let entry_idx = self.entry_idx;
-
-                    self.entry_idx += 1;
-                    if self.entry_idx >= ROW_WIDTH {
-                        self.entry_idx = 0;
-                        self.row_idx += 1;
-                    }
-
-                    let Some((mut k, v)) = sh.read_at(row_idx, entry_idx)? else {
-                        continue;
-                    };
-                    if self.raw {
-                        return Ok((sh.span.start, Some((k, v))));
-                    } else if k.ends_with(USER_NAMESPACE) {
-                        k.truncate(k.len() - USER_NAMESPACE.len());
-                        return Ok((sh.span.start, Some((k, v))));
+        loop {
+            while let Some((entry_idx, res)) = self.row.pop_front() {
+                self.entry_idx = entry_idx + 1;
+                match res {
+                    Err(e) => return Some(Err(e)),
+                    Ok((k, v)) if self.raw => return Some(Ok((k, v))),
+                    Ok((mut k, v)) => {
+                        if k.ends_with(USER_NAMESPACE) {
+                            k.truncate(k.len() - USER_NAMESPACE.len());
+                            return Some(Ok((k, v)));
+                        }
                     }
                 }
+            }
 
+            if self.row_loaded {
+                self.row_loaded = false;
                 self.entry_idx = 0;
+                self.row_idx += 1;
+            }
+            if self.row_idx >= NUM_ROWS {
                 self.row_idx = 0;
-                Ok((sh.span.end, None))
-            });
+                self.shard_selector = self.shard_end.take().unwrap_or(ShardRouter::END_OF_SHARDS);
+            }
+            if self.shard_selector >= ShardRouter::END_OF_SHARDS {
+                return None;
+            }
 
+            let res = self.store.root.shared_op(self.shard_selector, |sh| {
+                Ok((sh.span.end, sh.read_row(self.row_idx, self.entry_idx)?))
+            });
             match res {
-                Ok((shard_selector, kv)) => {
-                    self.shard_selector = shard_selector;
-                    if let Some(kv) = kv {
-                        return Some(Ok(kv));
-                    }
-                    // continue
+                Ok((span_end, row)) => {
+                    // only what was covered by all the shards we've seen has been fully iterated over
+                    self.shard_end = Some(self.shard_end.map_or(span_end, |end| end.min(span_end)));
+                    self.row = row;
+                    self.row_loaded = true;
                 }
                 Err(e) => return Some(Err(e)),
             }
         }
-
-        None
     }
 }
 
-- 
2.43.0


From 52c20402622de79e43aa9380ebd4ba2d1aad1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 22/26] fix: a compaction thread must survive a result nobody
 waits for

---
 src/shard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 023b964..7344ce2 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -294,7 +294,8 @@ impl CompactionThreadPool {
                         break;
                     };
                     let res = Shard::background_compact(info);
-                    handle_tx.send(res)?;
+                    // whoever submitted it may not be interested in the result any longer, the pool must live on
+                    _ = handle_tx.send(res);
                 }
                 Ok(())
             });
-- 
2.43.0


From 75fe2af4696e940439708ddade65b154829b3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 23/26] fix: completing a failed compaction must exclude
 starting a new one

---
 src/shard.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 7344ce2..9b15993 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -972,7 +972,11 @@ impl Shard {
 
     // waits for the running compaction to end, and if it failed, completes it
     fn settle_compaction(&self) -> Result<()> {
-        self.wait_for_compaction();
+        // no new compaction may start in the meanwhile, it would run into the target being completed here
+        let mut handle_guard = self.compaction_handle.lock();
+        if let Some(handle) = handle_guard.take() {
+            _ = handle.wait();
+        }
         if self.files.read().1.is_none() {
             return Ok(());
         }
-- 
2.43.0


From c3940e042b102da94e5c8a9c536b51474fd6350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:27 +0000
Subject: [PATCH 24/26] fix: an interrupted clear must not bring back outdated
 entries of a failed split or compaction

---
 src/router.rs | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f5c57b8..d2bc642 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -106,12 +106,21 @@ impl ShardRouter {
         })
     }
 
+    fn parse_span(prefix: &str, filename: &str) -> Option<Range<u32>> {
+        let (start, end) = filename.strip_prefix(prefix)?.split_once("-")?;
+        let start = u32::from_str_radix(start, 16).ok()?;
+        let end = u32::from_str_radix(end, 16).ok()?;
+        // otherwise it's not one of ours
+        (filename == format!("{prefix}{start:04x}-{end:04x}")).then_some(start..end)
+    }
+
     fn load(
         config: &Arc<InternalConfig>,
         stats: &Arc<InternalStats>,
         threadpool: &Arc<CompactionThreadPool>,
     ) -> Result<Vec<Shard>> {
         let mut found_shards = vec![];
+        let mut found_targets = vec![];
         for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -130,25 +139,14 @@ impl ShardRouter {
             {
                 std::fs::remove_file(entry.path())?;
                 continue;
-            } else if !filename.starts_with("shard_") {
-                continue;
             }
-            let Some((_, span)) = filename.split_once("_") else {
+            if let Some(span) = Self::parse_span("compact_", filename) {
+                found_targets.push((span, entry.path()));
                 continue;
-            };
-            let Some((start, end)) = span.split_once("-") else {
-                continue;
-            };
-            let (Ok(start), Ok(end)) = (
-                u32::from_str_radix(start, 16),
-                u32::from_str_radix(end, 16),
-            ) else {
+            }
+            let Some(Range { start, end }) = Self::parse_span("shard_", filename) else {
                 continue;
             };
-            if filename != format!("shard_{start:04x}-{end:04x}") {
-                // not one of ours
-                continue;
-            }
 
             ensure!(
                 start < end
@@ -169,6 +167,12 @@ impl ShardRouter {
                     .join(format!("shard_{:04x}-{:04x}", span.start, span.end)),
             )?;
         }
+        for (span, path) in found_targets {
+            // left by a clear that was interrupted, it must not be taken for the target of a future shard
+            if !shards_to_keep.contains(&span) {
+                std::fs::remove_file(path)?;
+            }
+        }
 
         let mut shards = vec![];
         for (span, missing) in Self::fill_gaps(shards_to_keep) {
@@ -363,6 +367,7 @@ impl ShardRouter {
     }
 
     fn recreate_shards(&self) -> Result<Vec<Shard>> {
+        let mut paths = vec![];
         for res in std::fs::read_dir(&self.config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
@@ -380,10 +385,19 @@ impl ShardRouter {
                 || filename.starts_with("bottom_")
                 || filename.starts_with("top_")
             {
-                std::fs::remove_file(entry.path())?;
+                // if we're interrupted, whatever remains will be loaded, so outdated files have to be removed before
+                // the ones that hold newer entries: failed splits leave halves that are older than the whole shard,
+                // and the target of a failed compaction is newer than its shard
+                let span_len = Self::parse_span("shard_", filename).map_or(0, |span| span.len());
+                paths.push((filename.starts_with("compact_"), span_len, entry.path()));
             }
         }
 
+        paths.sort();
+        for (_, _, path) in paths {
+            std::fs::remove_file(path)?;
+        }
+
         Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)
     }
 
-- 
2.43.0


From 5988e544fb3d0f6345d3277b93dbbe60ca62d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:33 +0000
Subject: [PATCH 25/26] fix: a call must not rely on somebody else's failed
 sync (flush aggregation)

---
 src/shard.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9b15993..947b53f 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -353,6 +353,8 @@ pub(crate) struct Shard {
     sync_agg_mutex: parking_lot::Mutex<()>,
     #[cfg(feature = "flush_aggregation")]
     in_sync_agg_delay: std::sync::atomic::AtomicBool,
+    #[cfg(feature = "flush_aggregation")]
+    num_failed_agg_syncs: std::sync::atomic::AtomicU64,
 }
 
 impl Shard {
@@ -470,6 +472,8 @@ impl Shard {
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
+            #[cfg(feature = "flush_aggregation")]
+            num_failed_agg_syncs: std::sync::atomic::AtomicU64::new(0),
         })
     }
 
@@ -510,6 +514,8 @@ impl Shard {
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
+            #[cfg(feature = "flush_aggregation")]
+            num_failed_agg_syncs: std::sync::atomic::AtomicU64::new(0),
         })
     }
 
@@ -888,7 +894,9 @@ impl Shard {
             self.in_sync_agg_delay.store(true, Ordering::SeqCst);
             std::thread::sleep(delay);
             self.in_sync_agg_delay.store(false, Ordering::SeqCst);
-            self.flush()
+            self.flush().inspect_err(|_| {
+                self.num_failed_agg_syncs.fetch_add(1, Ordering::SeqCst);
+            })
         };
 
         if let Some(_guard) = self.sync_agg_mutex.try_lock() {
@@ -897,10 +905,11 @@ impl Shard {
         } else {
             // another thread is currently sync'ing, we're waiting in line. if the holder of the lock is in the
             // sleep (aggregation) phase, we can just wait for it to finish and return -- the other thread will
-            // have sync'ed us by the time we got the lock. otherwise, we'll need to sync as well
-            let was_in_delay = self.in_sync_agg_delay.load(Ordering::Relaxed);
+            // have sync'ed us by the time we got the lock, unless it failed. otherwise, we'll need to sync as well
+            let num_failed = self.num_failed_agg_syncs.load(Ordering::SeqCst);
+            let was_in_delay = self.in_sync_agg_delay.load(Ordering::SeqCst);
             let _guard = self.sync_agg_mutex.lock();
-            if !was_in_delay {
+            if !was_in_delay || self.num_failed_agg_syncs.load(Ordering::SeqCst) != num_failed {
                 do_sync()?;
             }
         }
-- 
2.43.0


From 8b9164136fd309ab18a31d1154235cc17c86d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:01:15 +0000
Subject: [PATCH 26/26] fix: entries beyond 4 GB of a shard's file were lost

---
 src/shard.rs | 14 ++++++++++----
 src/store.rs |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 947b53f..54159e2 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -119,6 +119,9 @@ struct ShardHeader {
     rows: PageAligned<[ShardRow; NUM_ROWS]>,
 }
 
+// entries refer to their offsets by 32 bits
+const MAX_WRITE_OFFSET: u64 = 1 << 32;
+
 pub(crate) const HEADER_SIZE: u64 = size_of::<ShardHeader>() as u64;
 const _: () = assert!(HEADER_SIZE % 4096 == 0);
 
@@ -240,10 +243,13 @@ impl MmapFile {
 
         // atomically allocate some area. it may leak if the IO below fails or if we crash before updating the
         // offsets_and_size array, but we're okay with leaks
-        let write_offset = self
-            .header()
-            .write_offset
-            .fetch_add(buf.len() as u64, Ordering::SeqCst) as u64;
+        let Ok(write_offset) = self.header().write_offset.fetch_update(
+            Ordering::SeqCst,
+            Ordering::SeqCst,
+            |offset| Some(offset + buf.len() as u64).filter(|end| *end <= MAX_WRITE_OFFSET),
+        ) else {
+            bail!("the shard's file has reached its maximal size");
+        };
 
         // now writing can be non-atomic (pwrite)
         self.file.write_all_at(&buf, HEADER_SIZE + write_offset)?;
diff --git a/src/store.rs b/src/store.rs
index 92a1e76..d105f7f 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -221,7 +221,8 @@ impl CandyStore {
             hash_seed: config.hash_seed,
             max_concurrent_list_ops: config.max_concurrent_list_ops,
             max_shard_size: config.max_shard_size,
-            min_compaction_threashold: config.min_compaction_threashold,
+            // the garbage has to be collected before the file reaches its maximal size
+            min_compaction_threashold: config.min_compaction_threashold.min(u32::MAX / 2),
             truncate_up: config.truncate_up,
             clear_on_unsupported_version: config.clear_on_unsupported_version,
             mlock_headers: config.mlock_headers,
-- 
2.43.0

