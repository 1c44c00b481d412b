From d7bfb90ae41ddc0bde536305bf0f70630fd13ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:59 +0000
Subject: [PATCH 001/116] fix: propagate errors raised by eql? during hash
 table probes

find and find_or_find_insert_slot turned an error from the equality
callback into 'not equal', so lookups reported absent keys and inserts
created duplicates. Stop the probe at the error and return it.
HashSet::get_or_insert_with swallowed the same error in its assertion.
---
 hashbrown/src/raw/mod.rs | 41 ++++++++++++++++++++++++++++------------
 hashbrown/src/set.rs     |  2 +-
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 46a7978..4617f38 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -1011,17 +1011,25 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 3. The `find_or_find_insert_slot_inner` function returns the `index` of only the full bucket,
             //    which is in the range `0..self.buckets()` (since there is at least one empty `bucket` in
             //    the table), so calling `self.bucket(index)` and `Bucket::as_ref` is safe.
-            Ok(
-                match self
-                    .table
-                    .find_or_find_insert_slot_inner(hash, &mut |index| {
-                        eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
-                    }) {
-                    // SAFETY: See explanation above.
-                    Ok(index) => Ok(self.bucket(index)),
-                    Err(slot) => Err(slot),
-                },
-            )
+            //
+            // An error raised by `eq` stops the probe (as if it had matched) and is returned.
+            let mut error = None;
+            let result = self
+                .table
+                .find_or_find_insert_slot_inner(hash, &mut |index| {
+                    eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                        error = Some(err);
+                        true
+                    })
+                });
+            if let Some(err) = error {
+                return Err(err);
+            }
+            Ok(match result {
+                // SAFETY: See explanation above.
+                Ok(index) => Ok(self.bucket(index)),
+                Err(slot) => Err(slot),
+            })
         }
     }
 
@@ -1093,9 +1101,18 @@ impl<T, E, G, R> RawTable<T, E, G, R> {
             // 1. The `find_inner` function returns the `index` of only the full bucket, which is in
             //    the range `0..self.buckets()`, so calling `self.bucket(index)` and `Bucket::as_ref`
             //    is safe.
+            //
+            // An error raised by `eq` stops the probe (as if it had matched) and is returned.
+            let mut error = None;
             let result = self.table.find_inner(hash, &mut |index| {
-                eq(self.bucket(index).as_ref(), e, g).unwrap_or(false) // TO_BE_FIXED
+                eq(self.bucket(index).as_ref(), e, g).unwrap_or_else(|err| {
+                    error = Some(err);
+                    true
+                })
             });
+            if let Some(err) = error {
+                return Err(err);
+            }
 
             // Avoid `Option::map` because it bloats LLVM IR.
             match result {
diff --git a/hashbrown/src/set.rs b/hashbrown/src/set.rs
index 596e734..d62e9ec 100644
--- a/hashbrown/src/set.rs
+++ b/hashbrown/src/set.rs
@@ -685,7 +685,7 @@ where
             Err(slot) => {
                 let new = f(value);
                 assert!(
-                    value.equivalent(&new, e, g).unwrap_or(false), // TO_BE_FIXED
+                    value.equivalent(&new, e, g)?,
                     "new value is not equivalent"
                 );
                 unsafe { self.map.table.insert_in_slot(hash, slot, (new, ())) }
-- 
2.43.0


From bf1da60abc707140c7877485eeacca0a645bcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:59 +0000
Subject: [PATCH 002/116] fix: hash the key when removing from a single-entry
 map

swap_remove_full and shift_remove_full compared the only entry via eql?
without calling hash, so a key with a different hash could remove it and
errors raised by hash were not seen. get_index_of already avoids this.
---
 rubymap/src/map.rs | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/rubymap/src/map.rs b/rubymap/src/map.rs
index 1e42989..8ef5992 100644
--- a/rubymap/src/map.rs
+++ b/rubymap/src/map.rs
@@ -983,20 +983,13 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.swap_remove_full(hash, key, e, g)
-            }
+        // Like `get_index_of`: always hash the query key of a non-empty map
+        // and consult `#eql?` only on equal hashes.
+        if self.as_entries().is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.swap_remove_full(hash, key, e, g)
     }
 
     /// Remove `key` from the index table only, leaving its entry in place
@@ -1116,20 +1109,13 @@ where
     where
         Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>,
     {
-        match self.as_entries() {
-            [x] if key.equivalent(&x.key, e, g)? => {
-                let (k, v) = match self.core.pop(e, g)? {
-                    Some((k, v)) => (k, v),
-                    None => return Ok(None),
-                };
-                Ok(Some((0, k, v)))
-            }
-            [_] | [] => Ok(None),
-            _ => {
-                let hash = self.hash(key, e, g)?;
-                self.core.shift_remove_full(hash, key, e, g)
-            }
+        // Like `get_index_of`: always hash the query key of a non-empty map
+        // and consult `#eql?` only on equal hashes.
+        if self.as_entries().is_empty() {
+            return Ok(None);
         }
+        let hash = self.hash(key, e, g)?;
+        self.core.shift_remove_full(hash, key, e, g)
     }
 }
 
-- 
2.43.0


From 838cf7c8faa4327ae1663f3d23e5521ac3f9a1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:39 +0000
Subject: [PATCH 003/116] fix: consult eql? only for equal hashes in indexed
 maps

The index table narrows candidates by a few hash bits, so eql? ran against
keys with a different hash and could report them as equal. Small maps
compare the stored hash first; do the same once the index is built.
---
 rubymap/src/map/core.rs       | 16 +++++++++-------
 rubymap/src/map/core/entry.rs |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index 242642b..a91bc2e 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -76,10 +76,12 @@ fn get_hash<K, V>(entries: &[Bucket<K, V>]) -> impl Fn(&usize) -> u64 + '_ {
 
 #[inline]
 fn equivalent<'a, K, V, E, G, R, Q: ?Sized + Equivalent<K, E, G, R>>(
+    hash: HashValue,
     key: &'a Q,
     entries: &'a [Bucket<K, V>],
 ) -> impl Fn(&usize, &mut E, &mut G) -> Result<bool, R> + 'a {
-    move |&i, e, g| Q::equivalent(key, &entries[i].key, e, g)
+    // The table's probe only narrows candidates down by a few hash bits.
+    move |&i, e, g| Ok(entries[i].hash == hash && Q::equivalent(key, &entries[i].key, e, g)?)
 }
 
 #[inline]
@@ -396,7 +398,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         if self.linear {
             return self.linear_find(hash, key, e, g);
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(self.indices.find(hash.get(), eq, e, g)?.copied())
     }
 
@@ -434,7 +436,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
             // Crossing AR_MAX: build the table once, then fall through.
             self.ensure_indexed();
         }
-        let eq = equivalent(&key, &self.entries);
+        let eq = equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry(hash.get(), eq, hasher, e, g)? {
             hash_table::Entry::Occupied(entry) => {
@@ -648,7 +650,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         K: RubyEql<E, G, R>,
     {
         self.ensure_indexed();
-        let eq = equivalent(&key, &self.entries);
+        let eq = equivalent(hash, &key, &self.entries);
         let hasher = get_hash(&self.entries);
         match self.indices.entry(hash.get(), eq, hasher, e, g)? {
             hash_table::Entry::Occupied(entry) => {
@@ -701,7 +703,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         Q: ?Sized + Equivalent<K, E, G, R>,
     {
         self.ensure_indexed();
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
@@ -789,7 +791,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
                 None => None,
             });
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
@@ -862,7 +864,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
                 None => None,
             });
         }
-        let eq = equivalent(key, &self.entries);
+        let eq = equivalent(hash, key, &self.entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(entry) => {
                 let (index, _) = entry.remove();
diff --git a/rubymap/src/map/core/entry.rs b/rubymap/src/map/core/entry.rs
index c90c76a..4ff48bf 100644
--- a/rubymap/src/map/core/entry.rs
+++ b/rubymap/src/map/core/entry.rs
@@ -19,7 +19,7 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
         // flavour about both modes.
         self.ensure_indexed();
         let entries = &mut self.entries;
-        let eq = equivalent(&key, entries);
+        let eq = equivalent(hash, &key, entries);
         Ok(match self.indices.find_entry(hash.get(), eq, e, g)? {
             Ok(index) => Entry::Occupied(OccupiedEntry { entries, index }),
             Err(absent) => Entry::Vacant(VacantEntry {
-- 
2.43.0


From bd4569ed51f618de50120f7996eab790b2de0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:28 +0000
Subject: [PATCH 004/116] fix: refuse a hash table reservation whose item count
 overflows

In builds without overflow checks the sum of the current item count and
the requested room wrapped around, and reserve returned as if it had
succeeded. It now panics like other impossible reservations.
---
 hashbrown/src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hashbrown/src/raw/mod.rs b/hashbrown/src/raw/mod.rs
index 4617f38..3095f4f 100644
--- a/hashbrown/src/raw/mod.rs
+++ b/hashbrown/src/raw/mod.rs
@@ -2453,7 +2453,10 @@ impl RawTableInner {
         drop: Option<unsafe fn(*mut u8)>,
     ) {
         // Avoid `Option::ok_or_else` because it bloats LLVM IR.
-        let new_items = self.items + additional;
+        let new_items = match self.items.checked_add(additional) {
+            Some(new_items) => new_items,
+            None => panic!("Hash table capacity overflow"),
+        };
         let full_capacity = bucket_mask_to_capacity(self.bucket_mask);
         if new_items <= full_capacity / 2 {
             // Rehash in-place without re-allocating if we have plenty of spare
-- 
2.43.0


From 38c7363ef1bb9d362d93bdb1a20738aac81e27f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:28 +0000
Subject: [PATCH 005/116] fix: do not report room a small map's index does not
 have

A map whose index is not built yet reported the capacity of its entry
vector alone. After clear or clone_from that can be far more than it can
hold without allocating, because growing past eight entries has to build
the index.
---
 rubymap/src/map/core.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index a91bc2e..5184ab4 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -233,11 +233,14 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
 
     #[inline]
     pub(crate) fn capacity(&self) -> usize {
-        if self.linear {
-            self.entries.capacity()
+        let indices = if self.linear {
+            // No index is needed up to `AR_MAX` entries; past that it
+            // has to fit in the table kept from an earlier life, if any.
+            Ord::max(self.indices.capacity(), AR_MAX)
         } else {
-            Ord::min(self.indices.capacity(), self.entries.capacity())
-        }
+            self.indices.capacity()
+        };
+        Ord::min(indices, self.entries.capacity())
     }
 
     /// Build the indices table from `entries` and leave linear mode.
-- 
2.43.0


From 3cf705694ce96422bef84d2313f04cefcd0f4d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:23:20 +0000
Subject: [PATCH 006/116] fix: keep a map's index in step when a sort or retain
 callback panics

---
 rubymap/src/map/core.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index 5184ab4..80e0731 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -180,8 +180,18 @@ impl<K, V, E, G, R> crate::Entries for IndexMapCore<K, V, E, G, R> {
     where
         F: FnOnce(&mut [Self::Entry]),
     {
-        f(&mut self.entries);
-        self.rebuild_hash_table();
+        let guard = RebuildOnDrop(self);
+        f(&mut guard.0.entries);
+    }
+}
+
+/// Rebuilds the indices when it goes out of scope, so that they match the
+/// entries even if a user callback unwinds half-way.
+struct RebuildOnDrop<'a, K, V, E, G, R>(&'a mut IndexMapCore<K, V, E, G, R>);
+
+impl<K, V, E, G, R> Drop for RebuildOnDrop<'_, K, V, E, G, R> {
+    fn drop(&mut self) {
+        self.0.rebuild_hash_table();
     }
 }
 
@@ -956,10 +966,14 @@ impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
     where
         F: FnMut(&mut K, &mut V) -> bool,
     {
-        self.entries
+        let len = self.entries.len();
+        let guard = RebuildOnDrop(self);
+        guard
+            .0
+            .entries
             .retain_mut(|entry| keep(&mut entry.key, &mut entry.value));
-        if !self.linear && self.entries.len() < self.indices.len() {
-            self.rebuild_hash_table();
+        if guard.0.entries.len() == len {
+            mem::forget(guard);
         }
     }
 
-- 
2.43.0


From c9bc1e6508ec6e3d4a3d4ffd2aab7894e8fd4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:04 +0000
Subject: [PATCH 007/116] fix: leave an empty map behind when cloning into it
 panics

---
 rubymap/src/map/core.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/rubymap/src/map/core.rs b/rubymap/src/map/core.rs
index 80e0731..fb08dad 100644
--- a/rubymap/src/map/core.rs
+++ b/rubymap/src/map/core.rs
@@ -147,14 +147,26 @@ where
     }
 
     fn clone_from(&mut self, other: &Self) {
-        self.linear = other.linear;
-        self.indices.clone_from(&other.indices);
-        if self.entries.capacity() < other.entries.len() {
+        let guard = ClearOnDrop(self);
+        let this = &mut *guard.0;
+        this.linear = other.linear;
+        this.indices.clone_from(&other.indices);
+        if this.entries.capacity() < other.entries.len() {
             // If we must resize, match the indices capacity.
-            let additional = other.entries.len() - self.entries.len();
-            self.borrow_mut().reserve_entries(additional);
+            let additional = other.entries.len() - this.entries.len();
+            this.borrow_mut().reserve_entries(additional);
         }
-        self.entries.clone_from(&other.entries);
+        this.entries.clone_from(&other.entries);
+        mem::forget(guard);
+    }
+}
+
+/// Empties the map if cloning into it unwinds half-way.
+struct ClearOnDrop<'a, K, V, E, G, R>(&'a mut IndexMapCore<K, V, E, G, R>);
+
+impl<K, V, E, G, R> Drop for ClearOnDrop<'_, K, V, E, G, R> {
+    fn drop(&mut self) {
+        self.0.clear();
     }
 }
 
-- 
2.43.0


From 82ba0c7d4f637d427e6c7e94bca07e55d5266c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:02 +0000
Subject: [PATCH 008/116] fix: keep pushed-back bytes when a line read is
 interrupted

A line read that started from pushed-back bytes dropped them when the
underlying read was interrupted by a signal or would block. The retried
read then returned only the rest of the line.
---
 monoruby/src/value/rvalue/io.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index b91ba9e..6848556 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1489,8 +1489,17 @@ impl IoInner {
                 }
                 None => {
                     let mut line = self.take_pushback(None);
-                    if let Some(rest) = self.read_line_bytes_underlying()? {
-                        line.extend_from_slice(&rest);
+                    match self.read_line_bytes_underlying() {
+                        Ok(Some(rest)) => line.extend_from_slice(&rest),
+                        Ok(None) => {}
+                        Err(err) => {
+                            // See `read_more_preserving`: the retried read
+                            // has to see the drained bytes again.
+                            if err.is_signal_interrupt() || err.is_would_block_interrupt() {
+                                let _ = self.unget(&line);
+                            }
+                            return Err(err);
+                        }
                     }
                     // `line` is non-empty: the pushback supplied at least
                     // one byte.
-- 
2.43.0


From 2634ce5cbd7ff4cc441df09fafc26b61a630249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:32 +0000
Subject: [PATCH 009/116] fix: write buffered bytes before a non-blocking write

A non-blocking write went straight to the descriptor while earlier
writes were still buffered, so the later bytes came out first.
---
 monoruby/src/value/rvalue/io.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 6848556..8c33797 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1402,6 +1402,14 @@ impl IoInner {
         }
         let fd = self.fileno()?;
         self.set_nonblock()?;
+        // Anything still buffered goes first, or the output would be
+        // reordered (CRuby flushes in `rb_io_write_nonblock` too).
+        if let Err(err) = self.flush(store) {
+            if err.is_would_block_interrupt() || err.is_signal_interrupt() {
+                return Ok(NonblockWrite::WouldBlock);
+            }
+            return Err(err);
+        }
         // SAFETY: fd is valid; bytes is a valid buffer of `bytes.len()`.
         let n = unsafe {
             libc::write(fd, bytes.as_ptr() as *const libc::c_void, bytes.len())
-- 
2.43.0


From a1bfd53fc5b703743124890d1b68dd95db1ac949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:32 +0000
Subject: [PATCH 010/116] fix: write out buffered bytes when an unclosed stream
 is collected

A file stream that was dropped without being closed discarded whatever
was still in its write buffer.
---
 monoruby/src/value/rvalue/io.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 8c33797..fd4430b 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -455,6 +455,11 @@ impl FileDescriptor {
 
 impl Drop for FileDescriptor {
     fn drop(&mut self) {
+        // A stream collected without `#close` still owes its buffered
+        // bytes to the fd (CRuby's `fptr_finalize_flush`). There is nowhere
+        // to report a failure to, and no poll point to unwind to.
+        let mut sink: &std::fs::File = self.reader.get_ref();
+        let _ = self.wbuf.get_mut().drain(&mut sink, &|| false);
         let fd = self.reader.get_ref().as_raw_fd();
         // SAFETY: `reader` is wrapped in `ManuallyDrop` and is only taken
         // here, exactly once, in `Drop`. After this, `self.reader` must not
-- 
2.43.0


From a277abbe4d96bcb3cf277ba4d4fef0d74db97747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:47 +0000
Subject: [PATCH 011/116] fix: serve read-ahead bytes first in a non-blocking
 read

On a pipe or socket a non-blocking read skipped the bytes an earlier
buffered read had already fetched, returning later bytes first or
reporting that it would block.
---
 monoruby/src/value/rvalue/io.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index fd4430b..19af01f 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1370,12 +1370,10 @@ impl IoInner {
         if !self.is_readable() {
             return Err(MonorubyErr::ioerr("not opened for reading"));
         }
-        // Best-effort: sync a seekable File's BufReader to its logical
-        // position (discarding its buffer) so the raw read below is at
-        // the right offset; pipes/sockets aren't seekable and skip it.
-        if let IoKind::File(file) = &mut self.kind {
-            let reader = &mut *Rc::get_mut(file).unwrap().reader;
-            let _ = reader.seek(SeekFrom::Current(0));
+        // Bytes already read ahead come before anything still in the fd
+        // (CRuby's `read_buffered_data`).
+        if self.has_buffered_data() {
+            return Ok(NonblockRead::Data(self.readpartial(maxlen)?));
         }
         let fd = self.fileno()?;
         self.set_nonblock()?;
-- 
2.43.0


From 4e4957c77bd6a3021b83b057dd810199d77757f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:47 +0000
Subject: [PATCH 012/116] fix: forget pushed-back bytes on seek

Bytes pushed back by ungetc or by an interrupted read stayed in front of
the stream after a seek, so the next read returned them instead of the
bytes at the new position.
---
 monoruby/src/value/rvalue/io.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 19af01f..0d56cd8 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1806,7 +1806,22 @@ impl IoInner {
                         _ => std::io::Error::from_raw_os_error(EINTR),
                     });
                 }
-                Rc::get_mut(file).unwrap().reader.seek(seek_from)
+                let file = Rc::get_mut(file).unwrap();
+                let pushback = file.pushback.get_mut();
+                // Pushed-back bytes belong to the position being left: a
+                // relative seek starts behind them, and every seek that
+                // moves drops them. `Current(0)` only asks for the
+                // position, which the callers adjust themselves.
+                let seek_from = match seek_from {
+                    SeekFrom::Current(0) => return file.reader.seek(seek_from),
+                    SeekFrom::Current(n) => {
+                        SeekFrom::Current(n.saturating_sub(pushback.len() as i64))
+                    }
+                    _ => seek_from,
+                };
+                let pos = file.reader.seek(seek_from)?;
+                pushback.clear();
+                Ok(pos)
             }
             IoKind::Closed(..) => Err(std::io::Error::from_raw_os_error(9)), // EBADF
             _ => Err(std::io::Error::from_raw_os_error(ESPIPE)),
-- 
2.43.0


From db2d0b2bd1dcd4d0745f317710b42a0e2add38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:16 +0000
Subject: [PATCH 013/116] fix: write at the logical position after a buffered
 read

A write on a descriptor opened for both reading and writing landed
after the bytes the reader had fetched ahead, not where the program had
read up to.
---
 monoruby/src/value/rvalue/io.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index 0d56cd8..e625390 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -981,6 +981,19 @@ impl IoInner {
             IoKind::Stdout => stdout_buf().write(data, progress, &signal_pending),
             IoKind::Stderr => stderr_buf().write(data, progress, &signal_pending),
             IoKind::File(file) => {
+                // Bytes read ahead leave the fd past the logical position;
+                // the write belongs at the latter (CRuby's `io_unread`).
+                // Unseekable streams keep what they hold.
+                if let Some(file) = Rc::get_mut(file) {
+                    let pushback = file.pushback.get_mut();
+                    let ahead = pushback.len() as i64;
+                    if (ahead > 0 || !file.reader.buffer().is_empty())
+                        && file.wbuf.get_mut().buffered_len() == 0
+                        && file.reader.seek(SeekFrom::Current(-ahead)).is_ok()
+                    {
+                        pushback.clear();
+                    }
+                }
                 let mut wbuf = file.wbuf.borrow_mut();
                 let mut sink: &std::fs::File = file.reader.get_ref();
                 wbuf.write(&mut sink, data, progress, &signal_pending)
-- 
2.43.0


From 7592100afd21db203503383a0aa79078f53d6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:18:37 +0000
Subject: [PATCH 014/116] fix: give a child its buffered bytes before closing
 its input

Closing the write side of a popen stream discarded what was still
buffered when sync had been turned off.
---
 monoruby/src/builtins/io.rs     |  6 ++++--
 monoruby/src/value/rvalue/io.rs | 10 +++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/io.rs b/monoruby/src/builtins/io.rs
index a5664b4..9f11e70 100644
--- a/monoruby/src/builtins/io.rs
+++ b/monoruby/src/builtins/io.rs
@@ -1637,7 +1637,7 @@ fn close(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 /// ### IO#close_write
 #[monoruby_builtin]
 fn close_write(
-    _vm: &mut Executor,
+    vm: &mut Executor,
     globals: &mut Globals,
     lfp: Lfp,
     _: BytecodePtr,
@@ -1646,7 +1646,9 @@ fn close_write(
     let io = self_.as_io_inner_mut();
     match io.kind() {
         IoKind::Popen(_) => {
-            io.popen_close_write();
+            blocking_io_region(vm, globals, self_, libc::POLLOUT, |store| {
+                lfp.self_val().as_io_inner_mut().popen_close_write(store)
+            })?;
         }
         // CRuby: no-op on an already-closed stream.
         IoKind::Closed(..) => {}
diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index e625390..ceb5985 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -834,14 +834,22 @@ impl IoInner {
 
     /// `IO#close_write` on a popen stream: drop the write side, and close
     /// the whole thing once the read side is gone too.
-    pub fn popen_close_write(&mut self) {
+    pub fn popen_close_write(&mut self, store: &Store) -> Result<()> {
         if let IoKind::Popen(popen) = &mut self.kind {
             let popen = Rc::get_mut(popen).unwrap();
+            // With `sync = false` there may be bytes the child has not
+            // been given yet.
+            if let Some(writer) = popen.writer.as_mut() {
+                writer
+                    .drain(&signal_pending)
+                    .map_err(|e| drain_err(e, store))?;
+            }
             popen.writer = None;
             if popen.reader.is_none() {
                 self.close_kind();
             }
         }
+        Ok(())
     }
 
     /// `IO#close_read` on a popen stream; mirror of
-- 
2.43.0


From da89dbef5c71a06f8844b9cef7c9cd3343e643e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:30 +0000
Subject: [PATCH 015/116] fix: keep the bytes of an interrupted read on
 standard input

An interrupted read of standard input dropped what it had already
consumed, and pushing bytes back was refused as if the stream were not
readable. Both now return the bytes to the shared read buffer.
---
 monoruby/src/value/rvalue/io.rs     | 33 ++++++++++++++++++++++-------
 monoruby/src/value/rvalue/io/buf.rs | 10 +++++++++
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/value/rvalue/io.rs b/monoruby/src/value/rvalue/io.rs
index ceb5985..d466227 100644
--- a/monoruby/src/value/rvalue/io.rs
+++ b/monoruby/src/value/rvalue/io.rs
@@ -1080,9 +1080,13 @@ impl IoInner {
     pub fn unget(&mut self, bytes: &[u8]) -> Result<()> {
         match &self.kind {
             IoKind::Closed(..) => Err(MonorubyErr::ioerr("closed stream")),
-            IoKind::Stdin | IoKind::Stdout | IoKind::Stderr => {
+            IoKind::Stdout | IoKind::Stderr => {
                 Err(MonorubyErr::ioerr("not opened for reading"))
             }
+            IoKind::Stdin => {
+                stdin_buf().unread(bytes);
+                Ok(())
+            }
             IoKind::File(f) if !f.readable => {
                 Err(MonorubyErr::ioerr("not opened for reading"))
             }
@@ -1179,10 +1183,8 @@ impl IoInner {
         // read helpers), bytes already consumed from the fd are pushed back
         // so that the retried read (after a `Signal.trap` handler ran, or
         // after the green thread was parked until the fd became ready)
-        // returns them first and no data is lost. `pushback` is `None` for
-        // Stdin, which has no pushback cell — an interrupted stdin read may
-        // drop the partial data, like the pre-existing ungetc limitation
-        // there.
+        // returns them first and no data is lost. Stdin has no pushback
+        // cell; its bytes go back into the shared read buffer.
         let interrupted = |kind: std::io::ErrorKind,
                            partial: Vec<u8>,
                            pushback: Option<&RefCell<Vec<u8>>>|
@@ -1205,7 +1207,12 @@ impl IoInner {
                 };
                 match res {
                     Ok(()) => Ok(buf),
-                    Err(e) => Err(map_read_err(e, MonorubyErr::runtimeerr)),
+                    Err(e) => {
+                        if is_interrupt_kind(e.kind()) {
+                            stdin_buf().unread(&buf);
+                        }
+                        Err(map_read_err(e, MonorubyErr::runtimeerr))
+                    }
                 }
             }
             IoKind::Stdout => Err(MonorubyErr::argumenterr("can't read from $stdin")),
@@ -1559,8 +1566,18 @@ impl IoInner {
         };
         let size = match &mut self.kind {
             IoKind::Closed(..) => return Err(MonorubyErr::ioerr("closed stream")),
-            IoKind::Stdin => read_until_step(&mut *stdin_buf(), b'\n', &mut buf)
-                .map_err(|e| map_read_err(e, MonorubyErr::runtimeerr))?,
+            IoKind::Stdin => {
+                let mut stdin = stdin_buf();
+                match read_until_step(&mut *stdin, b'\n', &mut buf) {
+                    Ok(n) => n,
+                    Err(e) => {
+                        if is_interrupt_kind(e.kind()) {
+                            stdin.unread(&buf);
+                        }
+                        return Err(map_read_err(e, MonorubyErr::runtimeerr));
+                    }
+                }
+            }
             IoKind::Stdout => return Err(MonorubyErr::argumenterr("can't read from $stdin")),
             IoKind::Stderr => return Err(MonorubyErr::argumenterr("can't read from $stderr")),
             IoKind::File(file) => {
diff --git a/monoruby/src/value/rvalue/io/buf.rs b/monoruby/src/value/rvalue/io/buf.rs
index a76ea44..132ec1a 100644
--- a/monoruby/src/value/rvalue/io/buf.rs
+++ b/monoruby/src/value/rvalue/io/buf.rs
@@ -136,6 +136,16 @@ impl<T> IoReader<T> {
         self.inner
     }
 
+    /// Put `bytes` back in front of what is buffered.
+    pub(crate) fn unread(&mut self, bytes: &[u8]) {
+        let mut buf = bytes.to_vec();
+        buf.extend_from_slice(self.buffer());
+        self.pos = 0;
+        self.cap = buf.len();
+        buf.resize(self.cap.max(IO_BUF_CAPA), 0);
+        self.buf = buf.into_boxed_slice();
+    }
+
     fn discard_buffer(&mut self) {
         self.pos = 0;
         self.cap = 0;
-- 
2.43.0


From a2012f85cc1829d26b2d016bf900ba72a1b6fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:05 +0000
Subject: [PATCH 016/116] fix: keep the preempt timer when it is restarted as
 it exits

A thread count rising again just as the timer thread answered an earlier
stop request found the old thread still unwinding and started no new
one, so no further ticks came. The stop request and its answer now share
one word, and a restart that comes too late starts a new timer.
---
 monoruby/src/preempt.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/monoruby/src/preempt.rs b/monoruby/src/preempt.rs
index c5c98b4..33a6d6f 100644
--- a/monoruby/src/preempt.rs
+++ b/monoruby/src/preempt.rs
@@ -35,7 +35,7 @@
 //!   mode, the scheduling analog of `gc-stress`.
 
 use std::cell::RefCell;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicU8, AtomicU32, Ordering};
 use std::sync::{Arc, Mutex};
 
 use crate::poll_flag::PREEMPT_LANE;
@@ -43,9 +43,17 @@ use crate::poll_flag::PREEMPT_LANE;
 /// Timeslice; the same order of magnitude as CRuby's thread quantum.
 const TICK: std::time::Duration = std::time::Duration::from_millis(10);
 
+/// The timer thread keeps ticking.
+const RUN: u8 = 0;
+/// The timer thread is to exit at its next tick.
+const STOP: u8 = 1;
+/// The timer thread has answered `STOP` and ticks no more.
+const EXITED: u8 = 2;
+
 struct Shared {
-    /// Tells the timer thread to exit at its next tick.
-    stop: AtomicBool,
+    /// `RUN` / `STOP` / `EXITED`. One word, so a restart either takes the
+    /// stop request back or sees that the timer already answered it.
+    state: AtomicU8,
     /// Address of this interpreter's poll word (0 = detached). The mutex
     /// makes timer writes and detachment mutually exclusive, so the
     /// timer can never write into freed JIT memory.
@@ -61,7 +69,7 @@ thread_local! {
     /// Per interpreter OS thread, like `ALLOC` / `CODEGEN` / `SCHEDULER`.
     static STATE: RefCell<State> = RefCell::new(State {
         shared: Arc::new(Shared {
-            stop: AtomicBool::new(false),
+            state: AtomicU8::new(RUN),
             flag_addr: Mutex::new(0),
         }),
         timer: None,
@@ -98,10 +106,16 @@ pub(crate) fn codegen_dropped() {
     let _ = STATE.try_with(|st| {
         let st = st.borrow();
         *st.shared.flag_addr.lock().unwrap() = 0;
-        st.shared.stop.store(true, Ordering::Relaxed);
+        request_stop(&st.shared);
     });
 }
 
+fn request_stop(shared: &Shared) {
+    let _ = shared
+        .state
+        .compare_exchange(RUN, STOP, Ordering::AcqRel, Ordering::Relaxed);
+}
+
 /// The live (non-dead) thread count changed. The timer runs exactly
 /// while a timeslice switch could be useful (>= 2 live threads), so a
 /// single-threaded program pays nothing: no timer, no nudges, no extra
@@ -113,9 +127,9 @@ pub(crate) fn on_thread_count(live: usize) {
     STATE.with(|st| {
         let mut st = st.borrow_mut();
         if live >= 2 {
-            st.shared.stop.store(false, Ordering::Relaxed);
+            let exited = st.shared.state.swap(RUN, Ordering::AcqRel) == EXITED;
             let running = st.timer.as_ref().is_some_and(|t| !t.is_finished());
-            if !running {
+            if exited || !running {
                 if let Some(t) = st.timer.take() {
                     let _ = t.join();
                 }
@@ -123,7 +137,7 @@ pub(crate) fn on_thread_count(live: usize) {
                 st.timer = Some(std::thread::spawn(move || timer_loop(shared)));
             }
         } else {
-            st.shared.stop.store(true, Ordering::Relaxed);
+            request_stop(&st.shared);
         }
     });
 }
@@ -131,7 +145,11 @@ pub(crate) fn on_thread_count(live: usize) {
 fn timer_loop(shared: Arc<Shared>) {
     loop {
         std::thread::sleep(TICK);
-        if shared.stop.load(Ordering::Relaxed) {
+        if shared
+            .state
+            .compare_exchange(STOP, EXITED, Ordering::AcqRel, Ordering::Relaxed)
+            .is_ok()
+        {
             return;
         }
         let addr = shared.flag_addr.lock().unwrap();
-- 
2.43.0


From f45789289cc064287e9a7cc5875ee86bb7fe6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:33 +0000
Subject: [PATCH 017/116] fix: start a preempt timer of its own in a forked
 child

A forked child inherited the handle of its parent's timer thread and
took it for running, so threads created in the child were never
preempted. The lock on the poll word's address could also be inherited
in the locked state.
---
 monoruby/src/preempt.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/preempt.rs b/monoruby/src/preempt.rs
index 33a6d6f..759d131 100644
--- a/monoruby/src/preempt.rs
+++ b/monoruby/src/preempt.rs
@@ -63,6 +63,29 @@ struct Shared {
 struct State {
     shared: Arc<Shared>,
     timer: Option<std::thread::JoinHandle<()>>,
+    /// The address in `shared`, for `after_fork`.
+    addr: usize,
+    /// The process `shared` and `timer` belong to.
+    pid: u32,
+}
+
+impl State {
+    /// A forked child inherits the handle of its parent's timer but not the
+    /// thread, and possibly `flag_addr` locked by it: start afresh.
+    fn after_fork(&mut self) {
+        let pid = std::process::id();
+        if self.pid != pid {
+            self.pid = pid;
+            self.shared = Arc::new(Shared {
+                state: AtomicU8::new(RUN),
+                flag_addr: Mutex::new(self.addr),
+            });
+            if let Some(t) = self.timer.take() {
+                // The parent's thread: nothing here to join.
+                std::mem::forget(t);
+            }
+        }
+    }
 }
 
 thread_local! {
@@ -73,6 +96,8 @@ thread_local! {
             flag_addr: Mutex::new(0),
         }),
         timer: None,
+        addr: 0,
+        pid: std::process::id(),
     });
 }
 
@@ -89,7 +114,10 @@ pub(crate) fn stress() -> bool {
 /// Register the interpreter's poll-word address (from `Codegen` init).
 pub(crate) fn register_flag(addr: *mut u32) {
     STATE.with(|st| {
-        *st.borrow().shared.flag_addr.lock().unwrap() = addr as usize;
+        let mut st = st.borrow_mut();
+        st.after_fork();
+        st.addr = addr as usize;
+        *st.shared.flag_addr.lock().unwrap() = addr as usize;
     });
     if stress() {
         // Arm the very first poll; `stress_renudge` re-arms after each one.
@@ -104,7 +132,9 @@ pub(crate) fn codegen_dropped() {
     // `try_with`: thread-local teardown order is unspecified; if `STATE`
     // is already gone its timer got no flag to write through anyway.
     let _ = STATE.try_with(|st| {
-        let st = st.borrow();
+        let mut st = st.borrow_mut();
+        st.after_fork();
+        st.addr = 0;
         *st.shared.flag_addr.lock().unwrap() = 0;
         request_stop(&st.shared);
     });
@@ -126,6 +156,7 @@ pub(crate) fn on_thread_count(live: usize) {
     }
     STATE.with(|st| {
         let mut st = st.borrow_mut();
+        st.after_fork();
         if live >= 2 {
             let exited = st.shared.state.swap(RUN, Ordering::AcqRel) == EXITED;
             let running = st.timer.as_ref().is_some_and(|t| !t.is_finished());
-- 
2.43.0


From 2ef40276ba37cc941b05d23a01abc7ac80b96da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:14:34 +0000
Subject: [PATCH 018/116] fix: wake the other waiters of the native pool after
 a drain

A woken waiter emptied the completion pipe, including the byte of a
waiter that had parked since the last poll. That waiter then slept until
an unrelated completion came. The pipe is made readable again while
another waiter's result is still to be taken.
---
 monoruby/src/native_pool.rs | 51 +++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/native_pool.rs b/monoruby/src/native_pool.rs
index de60fb3..3987659 100644
--- a/monoruby/src/native_pool.rs
+++ b/monoruby/src/native_pool.rs
@@ -87,6 +87,9 @@ thread_local! {
         }
         (fds[0], fds[1])
     };
+
+    /// Tickets this interpreter's green threads are waiting for.
+    static WAITING: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
 }
 
 /// The fd waiters park on (readable when a completion has arrived).
@@ -105,11 +108,24 @@ pub(crate) fn drain() {
     });
 }
 
+/// A drain by the waiter of `id` may have taken another waiter's byte. If
+/// that waiter parked after the last poll it has not been woken, so make
+/// the pipe readable again while such a result is still to be taken.
+fn rewake(id: u64) {
+    let others = WAITING.with(|w| {
+        let results = results().lock().unwrap();
+        w.borrow().iter().any(|t| *t != id && results.contains_key(t))
+    });
+    if others {
+        wake(PIPE.with(|p| p.1));
+    }
+}
+
 /// Submit `op` to a worker thread; returns the ticket to poll with
 /// [`try_take`].
 pub(crate) fn submit(op: NativeOp) -> u64 {
     let id = NEXT_ID.fetch_add(1, Ordering::Relaxed);
-    let wake = PIPE.with(|p| p.1);
+    let wake_fd = PIPE.with(|p| p.1);
     std::thread::spawn(move || {
         let (ret, errno) = run_op(&op);
         let comp = Completion { ret, errno };
@@ -121,18 +137,23 @@ pub(crate) fn submit(op: NativeOp) -> u64 {
             }
             results().lock().unwrap().insert(id, comp);
         }
-        // SAFETY: `wake` is the submitting interpreter's pipe write end,
-        // which lives for that interpreter thread's lifetime. A failed
-        // or short write only delays the waiter until the next poller
-        // pass triggered by another completion — never corrupts state.
-        unsafe {
-            let byte = 1u8;
-            let _ = libc::write(wake, &byte as *const u8 as _, 1);
-        }
+        wake(wake_fd);
     });
     id
 }
 
+/// Make a completion pipe readable.
+fn wake(fd: i32) {
+    // SAFETY: `fd` is the submitting interpreter's pipe write end,
+    // which lives for that interpreter thread's lifetime. A failed
+    // or short write only delays the waiter until the next poller
+    // pass triggered by another completion — never corrupts state.
+    unsafe {
+        let byte = 1u8;
+        let _ = libc::write(fd, &byte as *const u8 as _, 1);
+    }
+}
+
 /// Take the completion for `id`, if the worker has finished.
 pub(crate) fn try_take(id: u64) -> Option<Completion> {
     results().lock().unwrap().remove(&id)
@@ -189,14 +210,18 @@ pub(crate) fn run_blocking(
     op: NativeOp,
 ) -> crate::executor::Result<Completion> {
     let id = submit(op);
-    loop {
+    WAITING.with(|w| w.borrow_mut().push(id));
+    let res = loop {
         if let Some(comp) = try_take(id) {
-            return Ok(comp);
+            break Ok(comp);
         }
         if let Err(err) = crate::scheduler::wait_fd(vm, globals, wake_fd(), libc::POLLIN, None) {
             discard(id);
-            return Err(err);
+            break Err(err);
         }
         drain();
-    }
+        rewake(id);
+    };
+    WAITING.with(|w| w.borrow_mut().retain(|t| *t != id));
+    res
 }
-- 
2.43.0


From 41dbee418b68ba159cd38be1f71c8f91fa368ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:07 +0000
Subject: [PATCH 019/116] fix: leave no nameless identifiers behind the
 predefined ones

The identifier table was filled up to a hundred entries, so listing all
symbols returned five empty names that were not the empty symbol.
---
 monoruby/src/id_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/id_table.rs b/monoruby/src/id_table.rs
index aacb855..fa773ff 100644
--- a/monoruby/src/id_table.rs
+++ b/monoruby/src/id_table.rs
@@ -460,7 +460,8 @@ impl IdentifierTable {
         let mut table = IdentifierTable {
             rev_table: HashMap::default(),
             rev_table_bytes: HashMap::default(),
-            table: vec![IdentName::Utf8(String::new()); 100],
+            // One slot per predefined id, so no id is left without a name.
+            table: vec![IdentName::Utf8(String::new()); IdentId::GVAR_PROGRAM_NAME.to_usize()],
             enc_map: HashMap::default(),
         };
         table.set_id("initialize", IdentId::INITIALIZE);
-- 
2.43.0


From 65653e81d3322f33dd6b85b9eb52cb79ea3bb77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:40 +0000
Subject: [PATCH 020/116] fix: do not let a star step over a leading period

Without the DOTMATCH flag a pattern such as "*.rb" matched ".rb".
The star matched the empty string and left the period to the rest of the pattern.
A leading period may only be matched by a period at the start of the pattern.
---
 monoruby/src/builtins/fnmatch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index 4379a1a..cc9d09c 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -135,6 +135,11 @@ fn match_segment_chars(pat: &[char], s: &[char], flags: u32, guard_start: bool)
         if pi < pat.len() {
             match pat[pi] {
                 '*' => {
+                    // A star does not match a guarded period, not even by
+                    // leaving it to the pattern after it.
+                    if guarded(si) {
+                        return false;
+                    }
                     // Collapse consecutive stars.
                     while pi + 1 < pat.len() && pat[pi + 1] == '*' {
                         pi += 1;
-- 
2.43.0


From e1a428d1544881a28974988acdc998b65b285052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:57 +0000
Subject: [PATCH 021/116] fix: expand the brace groups after a stray closing
 brace

The search for a group stopped at the first closing brace without an opening one.
"}{a,b}" was therefore matched literally instead of as "}a" or "}b".
---
 monoruby/src/builtins/fnmatch.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index cc9d09c..719b091 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -294,7 +294,6 @@ pub(crate) fn expand_braces(pattern: &str, noescape: bool) -> Vec<String> {
                         }
                         return results;
                     }
-                    break;
                 }
             }
             _ => {}
-- 
2.43.0


From 49412476f9c8b649439a919b6ddbb7614815d094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:36 +0000
Subject: [PATCH 022/116] fix: split patterns at separators only outside
 brackets

In pathname mode a pattern was cut at every slash before it was parsed.
A slash inside a bracket expression cut the expression in two, so "a[b/]c" did not match "abc".
An escaped slash left its backslash behind, so "a\/b" did not match "a/b".
---
 monoruby/src/builtins/fnmatch.rs | 38 +++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/fnmatch.rs b/monoruby/src/builtins/fnmatch.rs
index 719b091..9502550 100644
--- a/monoruby/src/builtins/fnmatch.rs
+++ b/monoruby/src/builtins/fnmatch.rs
@@ -47,7 +47,8 @@ pub(crate) fn fnmatch(pattern: &str, string: &str, flags: u32) -> bool {
 
 fn fnmatch_no_extglob(pattern: &str, string: &str, flags: u32) -> bool {
     if flags & FNM_PATHNAME != 0 {
-        let pats: Vec<&str> = pattern.split('/').collect();
+        let pats = split_pattern(pattern, flags);
+        let pats: Vec<&str> = pats.iter().map(|p| p.as_str()).collect();
         let strs: Vec<&str> = string.split('/').collect();
         match_segments(&pats, &strs, flags)
     } else {
@@ -57,6 +58,41 @@ fn fnmatch_no_extglob(pattern: &str, string: &str, flags: u32) -> bool {
     }
 }
 
+/// Split a pattern into its segments. A `/` inside a bracket expression
+/// does not separate, and an escaped one does.
+fn split_pattern(pattern: &str, flags: u32) -> Vec<String> {
+    let noescape = flags & FNM_NOESCAPE != 0;
+    let chars: Vec<char> = pattern.chars().collect();
+    let mut segments = vec![];
+    let mut cur = String::new();
+    let mut i = 0;
+    while i < chars.len() {
+        let len = match chars[i] {
+            '/' => {
+                segments.push(std::mem::take(&mut cur));
+                i += 1;
+                continue;
+            }
+            '\\' if !noescape && chars.get(i + 1) == Some(&'/') => {
+                // Only an unescaped `/` makes a globstar of `**`.
+                if cur == "**" {
+                    cur.pop();
+                }
+                segments.push(std::mem::take(&mut cur));
+                i += 2;
+                continue;
+            }
+            '\\' if !noescape && i + 1 < chars.len() => 2,
+            '[' => match_bracket(&chars[i..], ' ', noescape, false).map_or(1, |(_, len)| len),
+            _ => 1,
+        };
+        cur.extend(&chars[i..i + len]);
+        i += len;
+    }
+    segments.push(cur);
+    segments
+}
+
 /// Segment-wise matching for `FNM_PATHNAME`.
 fn match_segments(pats: &[&str], strs: &[&str], flags: u32) -> bool {
     let Some((first, rest)) = pats.split_first() else {
-- 
2.43.0


From f1af111efc08cfbe0ceb1a115eccbce028ad5a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:41:14 +0000
Subject: [PATCH 023/116] fix: clone an instance variable table without a
 buffer

Cloning a table of capacity zero asked the allocator for an empty block and panicked.
---
 monoruby/src/value/rvalue/ivar_table.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/value/rvalue/ivar_table.rs b/monoruby/src/value/rvalue/ivar_table.rs
index 4186c98..c8bbdd1 100644
--- a/monoruby/src/value/rvalue/ivar_table.rs
+++ b/monoruby/src/value/rvalue/ivar_table.rs
@@ -130,6 +130,9 @@ struct RawVec<T> {
 
 impl<T> Clone for RawVec<T> {
     fn clone(&self) -> Self {
+        if self.cap == 0 {
+            return Self::with_capacity(0);
+        }
         unsafe {
             let ptr = alloc(self.cap);
             ptr::copy_nonoverlapping(self.ptr.as_ptr(), ptr.as_ptr(), self.cap);
-- 
2.43.0


From 491f592c16cf9f7538eee5c25a529571aca99263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:40 +0000
Subject: [PATCH 024/116] fix: draw from the whole of a range wider than a
 fixnum

---
 monoruby/src/builtins/random.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/random.rs b/monoruby/src/builtins/random.rs
index c4bea53..6119756 100644
--- a/monoruby/src/builtins/random.rs
+++ b/monoruby/src/builtins/random.rs
@@ -337,12 +337,12 @@ fn inst_rand_op(
         if !any_float
             && let (Some(s), Some(e)) = (start.try_fixnum(), end.try_fixnum())
         {
-            let span = e - s + if excl { 0 } else { 1 };
+            let span = e as i128 - s as i128 + if excl { 0 } else { 1 };
             if span <= 0 {
                 return Ok(Value::nil());
             }
             let v = rand_int(mt, c, &num::BigInt::from(span));
-            return Ok(Value::integer(s + v.try_fixnum().unwrap_or(0)));
+            return Ok(Value::bigint(num::BigInt::from(s) + to_bigint(v)));
         }
         // If either end point is a Float, both are treated as Floats.
         let to_f = |v: Value| -> Option<f64> {
-- 
2.43.0


From d69a1bd5e8537b9a1f1f0d5e9f69a65d6b9a3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:09 +0000
Subject: [PATCH 025/116] fix: let the hang watchdog wait for the whole budget

---
 monoruby/src/watchdog.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/watchdog.rs b/monoruby/src/watchdog.rs
index e4222ed..b7ae99e 100644
--- a/monoruby/src/watchdog.rs
+++ b/monoruby/src/watchdog.rs
@@ -14,7 +14,7 @@
 //! - [`poll`] is called from the VM poll point (`execute_gc`); it resets
 //!   the countdown to the full budget — i.e. "progress was made".
 //! - The `SIGALRM` handler decrements the countdown once per second and,
-//!   when it reaches zero, writes a message and `_exit`s. The abort
+//!   when none is left, writes a message and `_exit`s. The abort
 //!   decision lives in the handler — not at the poll point — because a
 //!   genuine hang never reaches the poll point.
 //!
@@ -28,7 +28,7 @@ static BUDGET: AtomicI32 = AtomicI32::new(0);
 
 /// Seconds remaining before the watchdog fires. Reset to [`BUDGET`] at
 /// every poll point; decremented once per second by the `SIGALRM`
-/// handler; aborts when it reaches zero.
+/// handler; aborts when there is nothing left to decrement.
 static COUNTDOWN: AtomicI32 = AtomicI32::new(0);
 
 /// Arm the watchdog from `MONORUBY_HANG_WATCHDOG_SEC`, at most once per
@@ -101,9 +101,10 @@ pub(crate) fn poll() {
 /// `SIGALRM` handler. Async-signal-safe: only atomic ops, `write(2)`
 /// and `_exit(2)`.
 extern "C" fn handler(_signo: libc::c_int) {
-    // `fetch_sub` returns the previous value: still > 1 means there is
-    // budget left after this tick, so keep waiting.
-    if COUNTDOWN.fetch_sub(1, Ordering::Relaxed) > 1 {
+    // `fetch_sub` returns the previous value. The first tick can come right
+    // after a poll point, so a full budget has passed only when it was
+    // already spent before this tick.
+    if COUNTDOWN.fetch_sub(1, Ordering::Relaxed) > 0 {
         return;
     }
     const MSG: &[u8] = b"\nmonoruby: hang watchdog fired - no interpreter progress within MONORUBY_HANG_WATCHDOG_SEC; aborting\n";
-- 
2.43.0


From f3b354e891343c929bf92264975c62b0f38688b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:45 +0000
Subject: [PATCH 026/116] fix: count the old generation as live after a minor
 collection

A minor collection seeds the marks of the old generation but started its
live count from zero. GC.stat's heap_live_slots and the profiler's heap
size then left out every old object.
---
 monoruby/src/alloc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 4deaeb1..8767545 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1700,7 +1700,7 @@ impl<T: GCBox> Allocator<T> {
                 .iter_mut()
                 .for_each(|heap| heap.as_mut().seed_mark_from_old());
         }
-        self.mark_counter = 0;
+        self.mark_counter = self.old_count;
     }
 
     ///
-- 
2.43.0


From b4a7f41fd746bdea43f9f3c786ba20469a10ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:45 +0000
Subject: [PATCH 027/116] fix: count a reused page as put into service

A page that was salvaged counts as freed every time, but taking it into
use again was not counted. The freed total could pass the allocated one.
---
 monoruby/src/alloc.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index 8767545..c836a92 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1169,12 +1169,10 @@ impl<T: GCBox> Allocator<T> {
             // Allocate new page.
             self.used_in_current = 1;
             self.pages.push(self.current_page);
+            self.total_allocated_pages += 1;
             self.current_page = match self.free_pages.pop_front() {
                 Some(page) => page,
-                None => {
-                    self.total_allocated_pages += 1;
-                    self.new_page()
-                }
+                None => self.new_page(),
             };
             // A page entering service must start with a zeroed
             // old-generation bitmap: fresh arena pages are uninitialised,
-- 
2.43.0


From 43b83bcd6cf801728916ac06f3f909739dc746ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:10:45 +0000
Subject: [PATCH 028/116] fix: count the objects reclaimed with their whole
 page

The number of objects ever freed was the growth of the free list, so the
objects on a page that was salvaged as a whole were never counted.
---
 monoruby/src/alloc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/alloc.rs b/monoruby/src/alloc.rs
index c836a92..fc778f4 100644
--- a/monoruby/src/alloc.rs
+++ b/monoruby/src/alloc.rs
@@ -1786,6 +1786,7 @@ impl<T: GCBox> Allocator<T> {
                     page.as_mut().drop_inner_cells();
                     self.free_pages.push_back(page);
                     self.total_freed_pages += 1;
+                    self.total_freed_objects += DATA_LEN;
                     #[cfg(feature = "gc-debug")]
                     eprintln!("salvage: {:?}", page);
                 }
@@ -1895,7 +1896,8 @@ impl<T: GCBox> Allocator<T> {
         // Cells that were already on the free list are swept again (the
         // sweep is idempotent), so they appear in both counts: what this
         // collection actually reclaimed is the growth of the list.
-        self.total_freed_objects += c.saturating_sub(self.free_list_count);
+        // (Salvaged pages were added in full by `salvage_empty_pages`.)
+        self.total_freed_objects = self.total_freed_objects + c - self.free_list_count;
         self.free_list_count = c;
         if let Some(log) = log {
             let gc = self.total_gc_counter as u32;
-- 
2.43.0


From 852f9cedff0f0a5d3cd3d58a32198e03850daf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:13 +0000
Subject: [PATCH 029/116] fix: count a malformed EUC-JP or Shift_JIS lead byte
 as one character

---
 monoruby/src/value/rvalue/string.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index e8242a4..a996b48 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -92,20 +92,14 @@ impl<'a> Iterator for CharByteIter<'a> {
             //   0x8F + 2 bytes -> JIS X 0212            (3)
             //   0xA1..=0xFE    -> JIS X 0208 lead       (2)
             //   otherwise (incl. 7-bit & malformed)     (1)
-            Encoding::EucJp => match self.bytes[self.pos] {
-                0x8e => 2,
-                0x8f => 3,
-                0xa1..=0xfe => 2,
-                _ => 1,
-            },
+            // A lead byte without its trail bytes is malformed.
+            Encoding::EucJp => eucjp_char_width(&self.bytes[self.pos..]).unwrap_or(1),
             // Shift_JIS / CP932 (stateless): a double-byte character
             // is led by 0x81..=0x9F or 0xE0..=0xFC; single-byte
             // otherwise (ASCII, 0xA1..=0xDF half-width kana, and the
-            // 0x80/0xA0/0xFD..=0xFF singletons).
-            Encoding::Sjis(_) => match self.bytes[self.pos] {
-                0x81..=0x9f | 0xe0..=0xfc => 2,
-                _ => 1,
-            },
+            // 0x80/0xA0/0xFD..=0xFF singletons) or when the trail byte
+            // is missing or out of range.
+            Encoding::Sjis(_) => sjis_char_width(&self.bytes[self.pos..]).unwrap_or(1),
             Encoding::Utf16Le | Encoding::Utf16Be => 2,
             Encoding::Utf32Le | Encoding::Utf32Be => 4,
             Encoding::Utf8 => {
-- 
2.43.0


From 8a9a5f6912c0fd73474ac50ff83239193c140977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:57 +0000
Subject: [PATCH 030/116] fix: do not keep a stale code range for sliced,
 spliced, reversed, repeated or appended strings

---
 monoruby/src/value/rvalue/string.rs | 72 +++++++++++++++++++----------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index a996b48..9d06b82 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -1468,11 +1468,11 @@ impl RStringInner {
 
     /// Codepoint-reversed copy of `self`. The declared encoding and
     /// the cached code range are both preserved: reversing UTF-8
-    /// codepoints yields valid UTF-8, ASCII-only buffers stay
-    /// ASCII-only, and a broken UTF-8 input stays broken because
-    /// `iter_char_bytes` walks invalid bytes one-at-a-time (the
-    /// same "each invalid byte is its own char" rule CRuby's
-    /// `rb_str_reverse` applies).
+    /// codepoints yields valid UTF-8 and ASCII-only buffers stay
+    /// ASCII-only. A broken input is re-classified lazily: invalid
+    /// bytes are walked one-at-a-time (the same "each invalid byte is
+    /// its own char" rule CRuby's `rb_str_reverse` applies), so two
+    /// of them may meet and form a character (`"\x80\xC3"`).
     pub fn reverse(&self) -> Self {
         let enc = self.ty;
         let bytes = self.as_bytes();
@@ -1512,6 +1512,10 @@ impl RStringInner {
             }
             debug_assert_eq!(write, 0);
         }
+        let cr = match cr {
+            CodeRange::Broken => CodeRange::Unknown,
+            cr => cr,
+        };
         RStringInner::from(buf, enc, cr)
     }
 
@@ -1833,7 +1837,7 @@ impl RStringInner {
         RStringInner::from(
             SmallVec::from_slice(&parent.as_bytes()[start..end]),
             parent.encoding(),
-            Self::propagated_cr(parent, start, end),
+            Self::substring_cr(parent, start, end),
         )
     }
 
@@ -1915,6 +1919,21 @@ impl RStringInner {
         }
     }
 
+    /// The code range to record for the substring `start..end` of
+    /// `parent`: `propagated_cr`, except that a slice of a Valid string
+    /// which leaves all of its non-ASCII characters outside is SevenBit.
+    fn substring_cr(parent: &RStringInner, start: usize, end: usize) -> CodeRange {
+        match Self::propagated_cr(parent, start, end) {
+            CodeRange::Valid
+                if parent.encoding().is_ascii_compatible()
+                    && parent.as_bytes()[start..end].is_ascii() =>
+            {
+                CodeRange::SevenBit
+            }
+            cr => cr,
+        }
+    }
+
     /// Whether byte index `i` is a UTF-8 character boundary. `0` and
     /// `content.len()` are always boundaries; otherwise the byte at
     /// `i` must not be a continuation byte (top two bits != `10`).
@@ -2166,15 +2185,15 @@ impl RStringInner {
                 slice
             )));
         }
-        // We just verified `slice` validates under self.ty when
-        // utf8-compatible, so its cr is at worst Valid; if every byte is
-        // < 0x80 it's still SevenBit. Combine with self.cr in O(1) so
-        // repeated callers (e.g. String#<< with single-char Integer args
-        // or per-codepoint encode loops) don't degenerate to O(N²) when
-        // self.code_range() is later queried.
-        let slice_cr = if slice.iter().all(|&b| b < 0x80) {
+        // We just verified `slice` validates under self.ty when it is
+        // UTF-8, so its cr is at worst Valid; if every byte is < 0x80
+        // (and that means ASCII) it's still SevenBit. Combine with self.cr
+        // in O(1) so repeated callers (e.g. String#<< with single-char
+        // Integer args or per-codepoint encode loops) don't degenerate to
+        // O(N²) when self.code_range() is later queried.
+        let slice_cr = if self.ty.is_ascii_compatible() && slice.iter().all(|&b| b < 0x80) {
             CodeRange::SevenBit
-        } else if self.ty.is_utf8_compatible() {
+        } else if self.ty == Encoding::Utf8 {
             CodeRange::Valid
         } else {
             CodeRange::Unknown
@@ -2234,14 +2253,16 @@ impl RStringInner {
     }
 
     pub fn repeat(&self, len: usize) -> RStringInner {
-        // Repetition of a classified buffer trivially preserves cr:
-        // SevenBit/Valid stay so under concatenation of identical
-        // valid runs, and Broken stays Broken. The empty case
-        // (`len == 0`) collapses to SevenBit, matching `classify(b"")`.
-        let cr = if len == 0 {
-            CodeRange::SevenBit
-        } else {
-            self.cr.get()
+        // Repetition of a classified buffer preserves cr: SevenBit/Valid
+        // stay so under concatenation of identical valid runs. A Broken
+        // buffer is re-classified lazily, since the incomplete end of one
+        // copy may be completed by the start of the next (`"\xA4"` in
+        // EUC-JP, a single byte in UTF-16). The empty case (`len == 0`)
+        // collapses to SevenBit, matching `classify(b"")`.
+        let cr = match self.cr.get() {
+            _ if len == 0 => CodeRange::SevenBit,
+            CodeRange::Broken => CodeRange::Unknown,
+            cr => cr,
         };
         RStringInner::from(SmallVec::from_vec(self.as_bytes().repeat(len)), self.ty, cr)
     }
@@ -2356,7 +2377,10 @@ impl RStringInner {
         let utf8_boundaries_ok = matches!(prev_ty, Encoding::Utf8)
             && matches!(prev_cr, CodeRange::Valid | CodeRange::SevenBit)
             && is_utf8_char_boundary(self.as_bytes(), start)
-            && is_utf8_char_boundary(self.as_bytes(), end);
+            && is_utf8_char_boundary(self.as_bytes(), end)
+            // An ASCII replacement may remove the last non-ASCII character.
+            && (!matches!(repl_cr, CodeRange::SevenBit)
+                || self.as_bytes()[start..end].is_ascii());
 
         self.splice_bytes(start, end, repl_bytes);
         self.ty = result_enc;
@@ -2434,7 +2458,7 @@ pub(crate) fn string_substring(mut parent: Value, start: usize, end: usize) -> V
     debug_assert!(start <= end && end <= inner.len());
     let len = end - start;
     let ty = inner.encoding();
-    let cr = RStringInner::propagated_cr(inner, start, end);
+    let cr = RStringInner::substring_cr(inner, start, end);
     // Share only when the copy would have to heap-allocate anyway
     // (an inline copy is at most STRING_INLINE_CAP bytes and cheaper
     // than a root allocation + GC edge).
-- 
2.43.0


From 0a0f1119fa5944c006e1ae41fad0b472d4986ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:04 +0000
Subject: [PATCH 031/116] fix: escape an interpolation mark when inspecting
 byte-oriented strings

---
 monoruby/src/value/rvalue/string.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 9d06b82..0fb4f3e 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -959,9 +959,11 @@ impl RStringInner {
             // `\x{A4A2}`).
             Encoding::EucJp | Encoding::Sjis(_) => {
                 let mut res = String::with_capacity(self.len());
+                let mut pos = 0;
                 for cb in self.iter_char_bytes() {
+                    pos += cb.len();
                     if cb.len() == 1 && cb[0] < 0x80 {
-                        ascii_escape(&mut res, cb[0]);
+                        ascii_escape_with_next(&mut res, cb[0], self.as_bytes().get(pos).copied());
                     } else {
                         res.push_str("\\x{");
                         for b in cb {
@@ -986,8 +988,9 @@ impl RStringInner {
             // ASCII rules for < 0x80, `\xHH` otherwise.
             _ => {
                 let mut res = String::with_capacity(self.len());
-                for c in self.as_bytes() {
-                    ascii_escape(&mut res, *c);
+                let bytes = self.as_bytes();
+                for (i, c) in bytes.iter().enumerate() {
+                    ascii_escape_with_next(&mut res, *c, bytes.get(i + 1).copied());
                 }
                 res
             }
@@ -1180,6 +1183,16 @@ fn utf8_inspect_with_lookahead(res: &mut String, bytes: &[u8], is_utf8: bool) {
     }
 }
 
+/// `ascii_escape`, except that a `#` which would start an interpolation
+/// together with the byte after it becomes `\#`.
+fn ascii_escape_with_next(s: &mut String, ch: u8, next: Option<u8>) {
+    if ch == b'#' && matches!(next, Some(b'$' | b'@' | b'{')) {
+        s.push_str("\\#");
+    } else {
+        ascii_escape(s, ch);
+    }
+}
+
 fn ascii_escape(s: &mut String, ch: u8) {
     let str = match ch {
         b'"' => "\\\"",
-- 
2.43.0


From e21ad92cee2c4251d1eb4295035e65a219317115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:32 +0000
Subject: [PATCH 032/116] fix: resolve the encoding name CP949 to CP949

---
 monoruby/src/value/rvalue/string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index 0fb4f3e..fe7b8dc 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -557,9 +557,8 @@ impl Encoding {
             }
             "GB18030" => Ok(Encoding::NamedByte(named_byte_index("GB18030").unwrap())),
             "GB12345" => Ok(Encoding::NamedByte(named_byte_index("GB12345").unwrap())),
-            "EUC_KR" | "EUCKR" | "CP949" => {
-                Ok(Encoding::NamedByte(named_byte_index("EUC_KR").unwrap()))
-            }
+            "EUC_KR" | "EUCKR" => Ok(Encoding::NamedByte(named_byte_index("EUC_KR").unwrap())),
+            "CP949" => Ok(Encoding::NamedByte(named_byte_index("CP949").unwrap())),
             "EUC_TW" | "EUCTW" => Ok(Encoding::NamedByte(named_byte_index("EUC_TW").unwrap())),
             "TIS_620" | "TIS620" => Ok(Encoding::NamedByte(named_byte_index("TIS_620").unwrap())),
             "KOI8_R" => Ok(Encoding::NamedByte(named_byte_index("KOI8_R").unwrap())),
-- 
2.43.0


From d899bdbd1e4f2556db93a6bae923992091b36da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:38:14 +0000
Subject: [PATCH 033/116] fix: take the snapshot of a shared string in the
 string's own encoding

---
 monoruby/src/value/rvalue/string.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string.rs b/monoruby/src/value/rvalue/string.rs
index fe7b8dc..308990d 100644
--- a/monoruby/src/value/rvalue/string.rs
+++ b/monoruby/src/value/rvalue/string.rs
@@ -2512,16 +2512,19 @@ pub(crate) fn string_snapshot(mut receiver: Value) -> Value {
         let (root, base) = ensure_shared_root(&mut receiver);
         let view_len = receiver.as_rstring_inner().len();
         let root_inner = root.as_rstring_inner();
-        if base == root_inner.as_ptr() && view_len == root_inner.len() {
+        if base == root_inner.as_ptr()
+            && view_len == root_inner.len()
+            && receiver.as_rstring_inner().encoding() == root_inner.encoding()
+        {
             root
         } else {
             // The receiver is a sharer viewing a sub-range of the
             // root's buffer (e.g. a CoW substring handed out by a
-            // MatchData accessor). The snapshot must present exactly
-            // that window — returning the bare root would hand callers
-            // the whole original buffer.
-            let start = base as usize - root_inner.as_ptr() as usize;
-            let mut snap = string_substring(root, start, start + view_len);
+            // MatchData accessor), or was given another encoding since
+            // it came to share it. The snapshot must present exactly
+            // that window in that encoding — returning the bare root
+            // would hand callers the whole original buffer.
+            let mut snap = Value::string_from_inner(receiver.as_rstring_inner().clone());
             snap.set_frozen();
             snap
         }
-- 
2.43.0


From 01ee35353b3889d74490a345c29070602ae7aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:39 +0000
Subject: [PATCH 034/116] fix: unpack X*, bare @ and Z* move to the right
 position

X* goes back by as many bytes as remain, a bare @ goes to the start, and
Z* continues just after the terminating NUL.
---
 monoruby/src/value/rvalue/string/pack.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 2310928..937cee8 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -282,12 +282,18 @@ pub(crate) fn unpack(
                         }
                     }
                 } else {
-                    while b.back().is_some() {}
+                    // `*` counts the bytes that remain.
+                    let count = b.remaining().len();
+                    if count > b.i {
+                        return Err(MonorubyErr::argumenterr("X outside of string"));
+                    }
+                    b.i -= count;
                 }
             }
             Template::AtPos => {
-                // '@' — move to absolute position
+                // '@' — move to absolute position (0 without a count)
                 if let Some(pos) = repeat {
+                    let pos = if template.explicit_count { pos } else { 0 };
                     if pos > b.slice.len() {
                         return Err(MonorubyErr::argumenterr("@ outside of string"));
                     }
@@ -335,11 +341,11 @@ pub(crate) fn unpack(
                     let end = bytes.iter().position(|&x| x == 0).unwrap_or(bytes.len());
                     ary.push(Value::bytes(bytes[..end].to_vec()));
                 } else {
-                    // Z* — read to end, strip after first null
+                    // Z* — read up to and including the first null
                     let bytes = b.remaining();
                     let end = bytes.iter().position(|&x| x == 0).unwrap_or(bytes.len());
                     let result = bytes[..end].to_vec();
-                    b.advance(bytes.len());
+                    b.advance(end + 1);
                     ary.push(Value::bytes(result));
                 }
             }
-- 
2.43.0


From 02cb16694f5e50f596ce60fe8e549c6ef9f07ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:39 +0000
Subject: [PATCH 035/116] fix: decode unpadded Base64 and check it strictly for
 m0

The last group of a text without padding was dropped, padding did not end
the text, and m0 accepted malformed input.
---
 monoruby/src/value/rvalue/string/pack.rs | 68 +++++++++++++++++-------
 1 file changed, 48 insertions(+), 20 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 937cee8..279df3d 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -353,7 +353,12 @@ pub(crate) fn unpack(
                 // 'm' — Base64 decode
                 let data = b.remaining().to_vec();
                 b.advance(data.len());
-                let decoded = base64_decode(&data);
+                let decoded = if repeat == Some(0) {
+                    base64_decode_strict(&data)
+                        .ok_or_else(|| MonorubyErr::argumenterr("invalid base64"))?
+                } else {
+                    base64_decode(&data)
+                };
                 ary.push(Value::bytes(decoded));
             }
             Template::QuotedPrintable => {
@@ -1486,42 +1491,65 @@ fn base64_decode(data: &[u8]) -> Vec<u8> {
     let mut result = Vec::new();
     let mut buf = [0u8; 4];
     let mut buf_len = 0;
-    let mut pad_count = 0;
 
     for &byte in data {
-        if byte == b'=' {
-            buf[buf_len] = 0;
-            buf_len += 1;
-            pad_count += 1;
-        } else if let Some(val) = base64_decode_char(byte) {
+        if let Some(val) = base64_decode_char(byte) {
             buf[buf_len] = val;
             buf_len += 1;
-            pad_count = 0;
+        } else if byte == b'=' && buf_len >= 2 {
+            // padding ends the text
+            break;
         } else {
             // skip whitespace and other chars
             continue;
         }
 
         if buf_len == 4 {
-            let triple = (buf[0] as u32) << 18
-                | (buf[1] as u32) << 12
-                | (buf[2] as u32) << 6
-                | buf[3] as u32;
-            result.push((triple >> 16) as u8);
-            if pad_count < 2 {
-                result.push((triple >> 8) as u8);
-            }
-            if pad_count < 1 {
-                result.push(triple as u8);
-            }
+            base64_push_group(&mut result, &buf);
             buf_len = 0;
-            pad_count = 0;
         }
     }
+    base64_push_group(&mut result, &buf[..buf_len]);
 
     result
 }
 
+/// Append the bytes encoded by one group of up to four digits.
+fn base64_push_group(result: &mut Vec<u8>, group: &[u8]) {
+    let digit = |i: usize| group.get(i).copied().unwrap_or(0) as u32;
+    let triple = digit(0) << 18 | digit(1) << 12 | digit(2) << 6 | digit(3);
+    let len = group.len().saturating_sub(1);
+    result.extend_from_slice(&triple.to_be_bytes()[1..1 + len]);
+}
+
+/// Decode RFC 4648 Base64 (`m0`): no characters but the digits, correct
+/// padding, and no bits left over. `None` if the text is malformed.
+fn base64_decode_strict(data: &[u8]) -> Option<Vec<u8>> {
+    if data.len() % 4 != 0 {
+        return None;
+    }
+    let pad_count = if data.ends_with(b"==") {
+        2
+    } else if data.ends_with(b"=") {
+        1
+    } else {
+        0
+    };
+    let mut result = Vec::new();
+    for group in data[..data.len() - pad_count].chunks(4) {
+        let mut buf = [0u8; 4];
+        for (digit, &byte) in buf.iter_mut().zip(group) {
+            *digit = base64_decode_char(byte)?;
+        }
+        match group.len() {
+            2 if buf[1] & 15 != 0 => return None,
+            3 if buf[2] & 3 != 0 => return None,
+            _ => base64_push_group(&mut result, &buf[..group.len()]),
+        }
+    }
+    Some(result)
+}
+
 // --- MIME Quoted-Printable encoding/decoding ---
 
 fn qp_encode(data: &[u8], line_len: usize) -> String {
-- 
2.43.0


From fa44f7c0f2a99cb0226f48b2f27dbbe6adfa4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:39 +0000
Subject: [PATCH 036/116] fix: line lengths of packed Base64, uuencoded and
 quoted-printable text

Base64 lines hold a multiple of three bytes, rounded down, uuencoded lines up
to 63 bytes, and a quoted-printable line that is full is broken even when a
newline follows.
---
 monoruby/src/value/rvalue/string/pack.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 279df3d..7aac96d 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1438,7 +1438,7 @@ fn base64_encode(data: &[u8], line_len: usize) -> String {
     let chars_per_line = if line_len == 0 {
         0
     } else {
-        (line_len / 3) * 4 + if line_len % 3 != 0 { 4 } else { 0 }
+        (line_len / 3) * 4
     };
 
     for chunk in data.chunks(3) {
@@ -1559,7 +1559,7 @@ fn qp_encode(data: &[u8], line_len: usize) -> String {
 
     let mut result = String::new();
     let mut col: usize = 0;
-    // CRuby: soft break when col > line_len (before adding next char).
+    // CRuby: soft break when col > line_len (after adding a char).
     // For line_len <= 1, use default 72.
     let limit = if line_len > 1 { line_len } else { 72 };
 
@@ -1579,13 +1579,6 @@ fn qp_encode(data: &[u8], line_len: usize) -> String {
             continue;
         }
 
-        // Check if we should emit a soft break before adding this character.
-        if col > limit {
-            result.push('=');
-            result.push('\n');
-            col = 0;
-        }
-
         if byte == b'\t' || byte == b' ' || (byte >= 33 && byte <= 126 && byte != b'=') {
             result.push(byte as char);
             col += 1;
@@ -1593,6 +1586,13 @@ fn qp_encode(data: &[u8], line_len: usize) -> String {
             result.push_str(&format!("={:02X}", byte));
             col += 3;
         }
+
+        // Emit a soft break once the line is full.
+        if col > limit {
+            result.push('=');
+            result.push('\n');
+            col = 0;
+        }
     }
 
     // Always end with soft line break if not already ending with newline.
@@ -1661,7 +1661,7 @@ fn uu_encode(data: &[u8], line_len: usize) -> String {
     let bytes_per_line = if line_len == 0 {
         45
     } else {
-        (line_len.min(45) / 3) * 3
+        (line_len.min(63) / 3) * 3
     };
 
     for chunk in data.chunks(bytes_per_line) {
-- 
2.43.0


From 77618ebaca1ed2a15288e527d937ce232b9db592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 037/116] fix: U accepts exactly the well-formed sequences and
 codepoints below 2**31

Malformed continuation bytes and overlong sequences were decoded, five and six
byte sequences refused, and codepoints from 2**31 packed to bytes that decode
to something else.
---
 monoruby/src/value/rvalue/string/pack.rs | 69 ++++++++++--------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 7aac96d..de13d53 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1000,14 +1000,14 @@ pub(crate) fn pack(
             Template::Utf8 => {
                 // 'U' — UTF-8 characters from codepoints (UTF-8 output).
                 // CRuby raises `RangeError` for negative input or for
-                // values that don't fit in an unsigned 32-bit integer
-                // — both as RangeError, not ArgumentError.
+                // values from 2**31 — both as RangeError, not
+                // ArgumentError.
                 let mut emit = |val: Value| -> Result<()> {
                     let i = val.coerce_to_int_i64(vm, globals)?;
                     if i < 0 {
                         return Err(MonorubyErr::rangeerr("pack(U): value out of range"));
                     }
-                    if i > u32::MAX as i64 {
+                    if i > i32::MAX as i64 {
                         return Err(MonorubyErr::rangeerr("pack(U): value out of range"));
                     }
                     utf8_encode_one(&mut packed, i as u32);
@@ -1923,9 +1923,9 @@ fn utf8_encode_one(buf: &mut Vec<u8>, cp: u32) {
     // CRuby's `pack("U")` extends past the strict Unicode range:
     // codepoints up to 0x1FFFFF produce 4-byte sequences (above
     // U+10FFFF, technically invalid Unicode but valid 4-byte UTF-8
-    // bit-patterns), and 5- / 6-byte forms cover up to 2^31 - 1
-    // and 2^32 - 1 respectively. Caller is responsible for the
-    // negative-value / >2^32 RangeError checks.
+    // bit-patterns), and 5- / 6-byte forms cover up to 2^26 - 1
+    // and 2^31 - 1 respectively. Caller is responsible for the
+    // negative-value / >= 2^31 RangeError checks.
     if cp <= 0x7F {
         buf.push(cp as u8);
     } else if cp <= 0x7FF {
@@ -1957,41 +1957,30 @@ fn utf8_encode_one(buf: &mut Vec<u8>, cp: u32) {
 }
 
 fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
-    let first = b
-        .next()
-        .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-    if first & 0x80 == 0 {
-        Ok(first as u32)
-    } else if first & 0xE0 == 0xC0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x1F) << 6) | (b1 as u32 & 0x3F))
-    } else if first & 0xF0 == 0xE0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b2 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x0F) << 12) | ((b1 as u32 & 0x3F) << 6) | (b2 as u32 & 0x3F))
-    } else if first & 0xF8 == 0xF0 {
-        let b1 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b2 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        let b3 = b
-            .next()
-            .ok_or_else(|| MonorubyErr::argumenterr("malformed UTF-8 character"))?;
-        Ok(((first as u32 & 0x07) << 18)
-            | ((b1 as u32 & 0x3F) << 12)
-            | ((b2 as u32 & 0x3F) << 6)
-            | (b3 as u32 & 0x3F))
-    } else {
-        Err(MonorubyErr::argumenterr("malformed UTF-8 character"))
+    let malformed = || MonorubyErr::argumenterr("malformed UTF-8 character");
+    let first = b.next().ok_or_else(malformed)?;
+    // (continuation bytes, payload of the first byte, smallest codepoint)
+    let (len, payload, min) = match first {
+        0x00..=0x7F => return Ok(first as u32),
+        0xC0..=0xDF => (1, first & 0x1F, 0x80),
+        0xE0..=0xEF => (2, first & 0x0F, 0x800),
+        0xF0..=0xF7 => (3, first & 0x07, 0x1_0000),
+        0xF8..=0xFB => (4, first & 0x03, 0x20_0000),
+        0xFC..=0xFD => (5, first & 0x01, 0x400_0000),
+        _ => return Err(malformed()),
+    };
+    let mut cp = payload as u32;
+    for _ in 0..len {
+        let byte = b.next().ok_or_else(malformed)?;
+        if byte & 0xC0 != 0x80 {
+            return Err(malformed());
+        }
+        cp = (cp << 6) | (byte & 0x3F) as u32;
+    }
+    if cp < min {
+        return Err(MonorubyErr::argumenterr("redundant UTF-8 sequence"));
     }
+    Ok(cp)
 }
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
-- 
2.43.0


From 13d8bc882192fab93dd115e2e5ffb86f9d402b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 038/116] fix: unpack BER-compressed integers of any size

Values from 2**63 came back negative or truncated.
---
 monoruby/src/value/rvalue/string/pack.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index de13d53..e3c5dc0 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1985,11 +1985,23 @@ fn utf8_decode_one(b: &mut ByteIter) -> Result<u32> {
 
 fn ber_decode(b: &mut ByteIter) -> Result<Value> {
     let mut val: u64 = 0;
+    // Takes over once the value no longer fits.
+    let mut big: Option<num::BigInt> = None;
     loop {
         if let Some(byte) = b.next() {
-            val = (val << 7) | (byte & 0x7F) as u64;
+            let group = (byte & 0x7F) as u64;
+            if let Some(v) = big.as_mut() {
+                *v = (v.clone() << 7u32) + num::BigInt::from(group);
+            } else if val >> 57 != 0 {
+                big = Some((num::BigInt::from(val) << 7u32) + num::BigInt::from(group));
+            } else {
+                val = (val << 7) | group;
+            }
             if byte & 0x80 == 0 {
-                return Ok(Value::integer(val as i64));
+                return Ok(match big {
+                    Some(v) => Value::bigint(v),
+                    None => Value::integer_from_u64(val),
+                });
             }
         } else {
             return Err(MonorubyErr::argumenterr("malformed BER compressed integer"));
-- 
2.43.0


From 380a22c7fd812e137fa62aaa9461d2258c33e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 039/116] fix: unpack1 returns the first value whichever
 directive produces it

Only the first directive was looked at, so a leading x or @ gave nil.
---
 monoruby/src/value/rvalue/string/pack.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index e3c5dc0..58502af 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -120,10 +120,7 @@ pub(crate) fn unpack(
     once: bool,
     base_offset: usize,
 ) -> Result<Value> {
-    let mut template = parse_template(template, true)?;
-    if once {
-        template.truncate(1);
-    }
+    let template = parse_template(template, true)?;
 
     let mut b = ByteIter::new(packed);
     let mut ary = Vec::new();
@@ -162,6 +159,9 @@ pub(crate) fn unpack(
     }
 
     for template in template {
+        if once && !ary.is_empty() {
+            break;
+        }
         let repeat = template.repeat;
         let endian = matches!(template.endian, Endianness::Big);
         match template.template {
-- 
2.43.0


From e31e36cec27bd3bd7e5338a4f922d8ff3ea7d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 040/116] fix: p* covers all strings and P refuses a string
 shorter than its count

Reading such a pointer back went beyond the end of the string.
---
 monoruby/src/value/rvalue/string/pack.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 58502af..a1e4804 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -454,7 +454,7 @@ pub(crate) fn unpack(
             }
             Template::Pointer => {
                 // 'p' — read a pointer (8 bytes on x86-64), dereference as null-terminated string
-                let count = repeat.unwrap_or(1);
+                let count = repeat.unwrap_or(usize::MAX);
                 for _ in 0..count {
                     if let Some(chunk) = b.next_chunk::<8>() {
                         let ptr = usize::from_ne_bytes(chunk.clone());
@@ -1046,7 +1046,7 @@ pub(crate) fn pack(
             }
             Template::Pointer => {
                 // 'p' — store a pointer to a null-terminated copy of the string
-                let count = repeat.unwrap_or(1);
+                let count = repeat.unwrap_or(iter.len());
                 for _ in 0..count {
                     if let Some(value) = iter.next() {
                         if value.is_nil() {
@@ -1074,6 +1074,14 @@ pub(crate) fn pack(
                         packed.extend_from_slice(&0u64.to_ne_bytes());
                     } else {
                         let s = get_pack_string(vm, globals, *value)?;
+                        let length = repeat.unwrap_or(1);
+                        if s.len() < length {
+                            return Err(MonorubyErr::argumenterr(format!(
+                                "too short buffer for P({} for {})",
+                                s.len(),
+                                length
+                            )));
+                        }
                         // Leak a copy of the bytes so the pointer stays valid.
                         let boxed: Box<[u8]> = s.into_boxed_slice();
                         let ptr = Box::into_raw(boxed) as *const u8 as u64;
-- 
2.43.0


From 827275887d260b4d833def75c21f5cb5350df103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 041/116] fix: pack keeps the encoding of its buffer when @ or
 X move in it

---
 monoruby/src/value/rvalue/string/pack.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index a1e4804..403c9ab 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1147,6 +1147,9 @@ pub(crate) fn pack(
             buf_val
                 .as_rstring_inner_mut()
                 .bytesplice_with(0, orig_len, &repl, &globals.store)?;
+            if buf_val.as_rstring_inner().encoding() != enc {
+                buf_val.as_rstring_inner_mut().set_encoding(enc);
+            }
         } else {
             // No `@`/`X` in the template: everything in `packed` is new
             // output that belongs after the buffer's existing bytes.
-- 
2.43.0


From d1eb940dfbf9370200c0fded58e2baedb51a231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:40 +0000
Subject: [PATCH 042/116] fix: refuse more than one byte order on a pack
 directive

---
 monoruby/src/value/rvalue/string/pack.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/value/rvalue/string/pack.rs b/monoruby/src/value/rvalue/string/pack.rs
index 403c9ab..759af8b 100644
--- a/monoruby/src/value/rvalue/string/pack.rs
+++ b/monoruby/src/value/rvalue/string/pack.rs
@@ -1261,12 +1261,15 @@ fn parse_template(template: &str, is_unpack: bool) -> Result<Vec<TemplateNode>>
                         native_modifier = Some(c);
                     }
                     iter.next();
-                } else if c == '>' {
-                    endian = Endianness::Big;
-                    endian_modifier = Some(c);
-                    iter.next();
-                } else if c == '<' {
-                    endian = Endianness::Little;
+                } else if c == '>' || c == '<' {
+                    if endian_modifier.is_some() {
+                        return Err(MonorubyErr::rangeerr("Can't use both '<' and '>'"));
+                    }
+                    endian = if c == '>' {
+                        Endianness::Big
+                    } else {
+                        Endianness::Little
+                    };
                     endian_modifier = Some(c);
                     iter.next();
                 } else {
-- 
2.43.0


From 8777ea97688b3314821f2c062a46ec1fa7d778e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 043/116] fix: format pads and cuts text by characters

A width counted the bytes of the text, and in encodings other than UTF-8
(or next to a string with invalid bytes) a precision could cut a
character in half. %p and the to_s of other objects also lost their
non-ASCII text there.
---
 monoruby/src/executor/format.rs | 201 +++++++++++++++++---------------
 1 file changed, 108 insertions(+), 93 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 318f72d..94314b1 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1,7 +1,7 @@
 use super::*;
 use crate::value::IntegerBase;
 use crate::value::rvalue::{
-    Encoding, RStringInner, eucjp_char_width, map_bytes_to_utf8, sjis_char_width,
+    Encoding, RStringInner, map_bytes_to_utf8,
 };
 use num::Signed;
 
@@ -41,6 +41,34 @@ impl FormatCtx {
         self.view(s).map(|v| v.into_owned())
     }
 
+    /// `s` cut to `precision` characters and padded to `width`
+    /// characters, both counted in the encoding of `s` itself.
+    fn fit(
+        &self,
+        s: &RStringInner,
+        precision: Option<usize>,
+        width: usize,
+        left_align: bool,
+    ) -> Result<String> {
+        if !self.byte_space {
+            let mut s = self.view_owned(s)?;
+            if let Some(prec) = precision {
+                s = take_chars(&s, prec);
+            }
+            return Ok(apply_width(&s, width, left_align, ' '));
+        }
+        // One `char` of the view is one byte here, not one character.
+        let mut len = s.char_length();
+        let mut bytes = s.as_bytes();
+        if let Some(prec) = precision
+            && prec < len
+        {
+            bytes = &bytes[s.get_range(0, prec)];
+            len = prec;
+        }
+        Ok(pad_to(&map_bytes_to_utf8(bytes), len, width, left_align, ' '))
+    }
+
     /// Turn finished format text back into a String value, undoing the
     /// surrogate view when the run used one.
     pub(crate) fn finish(&self, s: &str) -> Value {
@@ -223,40 +251,87 @@ fn format_char(
     globals: &mut Globals,
     val: Value,
     ctx: FormatCtx,
+    width: usize,
+    left_align: bool,
 ) -> Result<String> {
     if let RV::Fixnum(i) = val.unpack() {
         let bytes = encode_codepoint(i, ctx.enc)?;
-        return Ok(if ctx.byte_space {
+        let s = if ctx.byte_space {
             map_bytes_to_utf8(&bytes)
         } else {
             // Outside byte space `enc` is UTF-8 or US-ASCII, so the
             // bytes `encode_codepoint` produced are valid UTF-8.
             String::from_utf8_lossy(&bytes).into_owned()
-        });
+        };
+        return Ok(pad_to(&s, 1, width, left_align, ' '));
     }
     if let Some(inner) = val.is_rstring_inner() {
         // Take the argument's leading character *in its own encoding*,
         // so a byte-oriented or broken String contributes whole bytes
         // instead of raising on the UTF-8 check.
-        let view = ctx.view(&inner)?;
-        if ctx.byte_space {
-            let width = match inner.encoding() {
-                Encoding::EucJp => eucjp_char_width(inner.as_bytes()),
-                Encoding::Sjis(_) => sjis_char_width(inner.as_bytes()),
-                _ => None,
-            }
-            .unwrap_or(1);
-            return Ok(view.chars().take(width).collect());
-        }
-        return Ok(match view.chars().next() {
-            Some(c) => c.to_string(),
-            None => String::new(),
-        });
+        return ctx.fit(&inner, Some(1), width, left_align);
     }
-    Ok(match val.coerce_to_char(vm, globals)? {
+    let s = match val.coerce_to_char(vm, globals)? {
         Some(c) => c.to_string(),
         None => String::new(),
-    })
+    };
+    ctx.fit(&RStringInner::from_string(s), None, width, left_align)
+}
+
+///
+/// `%s` and `%{name}`: what `to_s` gives for `val`, cut and padded.
+///
+/// `%s` always dispatches to `Object#to_s` — it never tries `to_str`.
+/// If the receiver doesn't respond to `to_s` (e.g. a bare
+/// `BasicObject`), CRuby raises `NoMethodError`. Don't fall back to the
+/// C-level inspect.
+///
+/// String arguments go through the run's view so a byte-oriented or
+/// broken 8-bit string contributes its bytes as U+00XX surrogates
+/// (decoded again by `FormatCtx::finish`) instead of being lossily
+/// re-rendered with U+FFFD.
+///
+fn format_to_s(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    val: Value,
+    ctx: FormatCtx,
+    precision: Option<usize>,
+    width: usize,
+    left_align: bool,
+) -> Result<String> {
+    let text = if val.is_rstring_inner().is_some() {
+        val
+    } else if let Some(func_id) = globals.check_method(val, IdentId::TO_S) {
+        vm.invoke_func_inner(globals, func_id, val, &[], None, None)?
+    } else {
+        return Err(MonorubyErr::method_not_found(
+            &globals.store,
+            IdentId::TO_S,
+            val,
+        ));
+    };
+    format_text(globals, text, ctx, precision, width, left_align)
+}
+
+/// The text of `val`, a String (or anything else, rendered plainly).
+fn format_text(
+    globals: &Globals,
+    val: Value,
+    ctx: FormatCtx,
+    precision: Option<usize>,
+    width: usize,
+    left_align: bool,
+) -> Result<String> {
+    if let Some(inner) = val.is_rstring_inner()
+        && let Ok(s) = ctx.fit(&inner, precision, width, left_align)
+    {
+        return Ok(s);
+    }
+    // Broken UTF-8 outside byte space: keep the old lossy render
+    // instead of raising.
+    let s = RStringInner::from_string(val.to_s(&globals.store));
+    ctx.fit(&s, precision, width, left_align)
 }
 
 /// Apply integer precision: pad digits with leading zeros to at
@@ -285,10 +360,15 @@ fn apply_int_precision(s: &str, precision: Option<usize>) -> String {
 
 /// Apply width padding to a string, with left or right alignment.
 fn apply_width(s: &str, width: usize, left_align: bool, pad: char) -> String {
-    if s.len() >= width {
+    pad_to(s, s.chars().count(), width, left_align, pad)
+}
+
+/// [`apply_width`] for a string that stands for `len` characters.
+fn pad_to(s: &str, len: usize, width: usize, left_align: bool, pad: char) -> String {
+    if len >= width {
         return s.to_string();
     }
-    let padding: String = std::iter::repeat(pad).take(width - s.len()).collect();
+    let padding: String = std::iter::repeat(pad).take(width - len).collect();
     if left_align {
         format!("{}{}", s, padding)
     } else {
@@ -1236,21 +1316,8 @@ impl Executor {
                 // A String value goes through the run's view so its raw
                 // bytes survive (`%{k}` with a binary or broken value),
                 // exactly like `%s` below.
-                let mut s = match val.is_rstring_inner() {
-                    Some(inner) => match ctx.view(&inner) {
-                        Ok(v) => v.into_owned(),
-                        // Broken bytes outside byte space: keep the old
-                        // lossy render rather than raising.
-                        Err(_) => val.coerce_to_s(self, globals)?,
-                    },
-                    None => val.coerce_to_s(self, globals)?,
-                };
-                if let Some(prec) = precision {
-                    if s.chars().count() > prec {
-                        s = s.chars().take(prec).collect();
-                    }
-                }
-                format_str += &apply_width(&s, width, minus_flag, ' ');
+                format_str +=
+                    &format_to_s(self, globals, val, ctx, precision, width, minus_flag)?;
                 i = j + 1;
                 continue;
             }
@@ -1316,72 +1383,20 @@ impl Executor {
             // Specifier
             let format = match ch {
                 'c' => {
-                    let s = format_char(self, globals, val, ctx)?;
-                    apply_width(&s, width, minus_flag, ' ')
+                    format_char(self, globals, val, ctx, width, minus_flag)?
                 }
                 's' => {
-                    // `%s` always dispatches to `Object#to_s` — it
-                    // never tries `to_str`. If the receiver doesn't
-                    // respond to `to_s` (e.g. a bare `BasicObject`),
-                    // CRuby raises `NoMethodError`. Don't fall back
-                    // to the C-level inspect.
-                    //
-                    // String arguments go through the run's view so a
-                    // byte-oriented or broken 8-bit string contributes
-                    // its bytes as U+00XX surrogates (decoded again by
-                    // `FormatCtx::finish`) instead of being lossily
-                    // re-rendered with U+FFFD.
-                    let mut s = if let Some(inner) = val.is_rstring_inner() {
-                        match ctx.view(&inner) {
-                            Ok(v) => v.into_owned(),
-                            // Broken UTF-8: keep the old lossy render
-                            // instead of raising.
-                            Err(_) => val.to_s(&globals.store),
-                        }
-                    } else if let Some(func_id) = globals.check_method(val, IdentId::TO_S) {
-                        let result =
-                            self.invoke_func_inner(globals, func_id, val, &[], None, None)?;
-                        if let Some(inner) = result.is_rstring_inner() {
-                            match ctx.view(&inner) {
-                                Ok(v) => v.into_owned(),
-                                Err(_) => result.to_s(&globals.store),
-                            }
-                        } else {
-                            result.to_s(&globals.store)
-                        }
-                    } else {
-                        return Err(MonorubyErr::method_not_found(
-                            &globals.store,
-                            IdentId::TO_S,
-                            val,
-                        ));
-                    };
-                    if let Some(prec) = precision {
-                        if s.chars().count() > prec {
-                            s = take_chars(&s, prec);
-                        }
-                    }
-                    apply_width(&s, width, minus_flag, ' ')
+                    format_to_s(self, globals, val, ctx, precision, width, minus_flag)?
                 }
                 'p' => {
                     // `%p` dispatches to `Object#inspect` (Ruby-level)
                     // so user-defined `inspect` overrides are honoured.
                     let s = if let Some(func_id) = globals.check_method(val, IdentId::INSPECT) {
-                        let result =
-                            self.invoke_func_inner(globals, func_id, val, &[], None, None)?;
-                        if let Some(string) = result.is_str() {
-                            string.to_string()
-                        } else {
-                            result.to_s(&globals.store)
-                        }
+                        self.invoke_func_inner(globals, func_id, val, &[], None, None)?
                     } else {
-                        val.inspect(&globals.store)
-                    };
-                    let s = match precision {
-                        Some(prec) if s.chars().count() > prec => take_chars(&s, prec),
-                        _ => s,
+                        Value::string(val.inspect(&globals.store))
                     };
-                    apply_width(&s, width, minus_flag, ' ')
+                    format_text(globals, s, ctx, precision, width, minus_flag)?
                 }
                 'd' | 'i' | 'u' => {
                     let ival = val.coerce_to_integer(self, globals)?;
-- 
2.43.0


From deab7048a368a58625fe57da10ae5e3b2df4bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 044/116] fix: format ignores the zero flag where an integer
 has a precision

As in C and CRuby, "%08.3d" pads with spaces.
---
 monoruby/src/executor/format.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 94314b1..6fe1f9f 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1380,6 +1380,12 @@ impl Executor {
                 v
             };
             i += 1; // consume the specifier character
+            // For integers a precision overrides the zero flag.
+            if precision.is_some()
+                && matches!(ch, 'd' | 'i' | 'u' | 'b' | 'B' | 'o' | 'x' | 'X')
+            {
+                zero_flag = false;
+            }
             // Specifier
             let format = match ch {
                 'c' => {
-- 
2.43.0


From ff6c903c95379d118312e8b0d6397bec48b0c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 045/116] fix: format no prefix for a zero with precision, none
 twice for octal

"%#.3x" of zero shows 000, and "%+#.5o" of a negative number already
starts with a zero.
---
 monoruby/src/executor/format.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 6fe1f9f..a03259e 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1454,7 +1454,7 @@ impl Executor {
                         // `apply_int_precision("0", Some(0))` is "" — so an
                         // empty result is also "zero", and the `#` prefix is
                         // suppressed (`"%#.0b" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if ch == 'B' { "0B" } else { "0b" }
                         } else {
@@ -1483,7 +1483,11 @@ impl Executor {
                     if is_neg {
                         if plus_flag || space_flag {
                             let digits = apply_int_precision(&abs_digits, precision);
-                            let prefix = if hash_flag { "0" } else { "" };
+                            let prefix = if hash_flag && !digits.starts_with('0') {
+                                "0"
+                            } else {
+                                ""
+                            };
                             format_int_with_prefix(
                                 true, &digits, prefix, width, zero_flag, minus_flag,
                                 plus_flag, space_flag,
@@ -1562,7 +1566,7 @@ impl Executor {
                         // See the `%b` branch: precision 0 with value 0 gives
                         // "", which is still "zero" and suppresses the prefix
                         // (`"%#.0x" % 0 == ""`).
-                        let is_zero = digits.is_empty() || digits == "0";
+                        let is_zero = digits.bytes().all(|b| b == b'0');
                         let prefix = if hash_flag && !is_zero {
                             if upper { "0X" } else { "0x" }
                         } else {
-- 
2.43.0


From 5c1a503e99a1bd6e1bfccf6c23eabe5f6de88e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 046/116] fix: format %g picks its notation from the rounded
 value

999999.5 rounds to 1e+06, and "%#g" of zero keeps its zeros.
---
 monoruby/src/executor/format.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index a03259e..29832a0 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -597,9 +597,6 @@ fn force_decimal_point(s: &str) -> String {
 }
 
 fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
-    if f == 0.0 {
-        return "0".to_string();
-    }
     if f.is_infinite() {
         return if f > 0.0 {
             "Inf".to_string()
@@ -610,15 +607,12 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     if f.is_nan() {
         return "NaN".to_string();
     }
-    let exp = f.log10().floor() as i32;
-    if exp < -4 || exp >= precision as i32 {
-        // Use scientific notation with (precision - 1) digits after decimal
-        let sci_prec = if precision > 1 { precision - 1 } else { 0 };
-        let s = if uppercase {
-            format!("{:.p$E}", f, p = sci_prec)
-        } else {
-            format!("{:.p$e}", f, p = sci_prec)
-        };
+    // Scientific notation with (precision - 1) digits after the decimal
+    // point; its exponent is that of the rounded value.
+    let s = format!("{:.p$e}", f, p = precision.saturating_sub(1));
+    let exp = s[s.find('e').unwrap() + 1..].parse::<i64>().unwrap();
+    if exp < -4 || exp >= precision as i64 {
+        let s = if uppercase { s.to_uppercase() } else { s };
         // Strip trailing zeros in the mantissa part (before 'e'/'E')
         if strip {
             strip_trailing_zeros_scientific(&s)
@@ -628,11 +622,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     } else {
         // Use fixed notation
         // precision means total significant digits
-        let fixed_prec = if precision as i32 > exp + 1 {
-            (precision as i32 - exp - 1) as usize
-        } else {
-            0
-        };
+        let fixed_prec = (precision as i64 - exp - 1) as usize;
         let s = format!("{:.p$}", f, p = fixed_prec);
         if strip {
             strip_trailing_zeros_fixed(&s)
-- 
2.43.0


From 622e9a45b2e84b875ee8e73dce0ee6ff068718d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 047/116] fix: format %a rounds to nearest and carries

Rounding lost the carry out of the fraction and rounded every tie up.
Infinities and NaN were padded with zeros.
---
 monoruby/src/executor/format.rs | 81 ++++++++-------------------------
 1 file changed, 19 insertions(+), 62 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 29832a0..bd3d014 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -491,18 +491,6 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     };
 
     match precision {
-        Some(0) => {
-            // Round: check if mantissa >= 0x8_0000_0000_0000 (half)
-            let rounded_leading = if mantissa >= 0x8_0000_0000_0000 {
-                '2'
-            } else {
-                leading
-            };
-            format!(
-                "{}{}{}{}{}",
-                prefix, rounded_leading, p_char, exp_sign, exp_abs
-            )
-        }
         Some(prec) => {
             if prec >= 13 {
                 let padded = format!("{:0<w$}", full_hex, w = prec);
@@ -511,9 +499,25 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
                     prefix, leading, padded, p_char, exp_sign, exp_abs
                 )
             } else {
-                let rounded = round_hex_mantissa(&full_hex, prec, uppercase);
+                // To nearest, ties to even; a carry goes to the leading digit.
+                let shift = 4 * (13 - prec as u32);
+                let full = 1u64 << 52 | mantissa;
+                let (rest, half) = (full & ((1 << shift) - 1), 1u64 << (shift - 1));
+                let kept = full >> shift;
+                let kept = if rest > half || (rest == half && kept & 1 == 1) {
+                    kept + 1
+                } else {
+                    kept
+                };
+                let leading = kept >> (4 * prec);
+                let rounded = kept & ((1 << (4 * prec)) - 1);
+                let rounded = match (prec, uppercase) {
+                    (0, _) => String::new(),
+                    (_, true) => format!(".{:0w$X}", rounded, w = prec),
+                    (_, false) => format!(".{:0w$x}", rounded, w = prec),
+                };
                 format!(
-                    "{}{}.{}{}{}{}",
+                    "{}{}{}{}{}{}",
                     prefix, leading, rounded, p_char, exp_sign, exp_abs
                 )
             }
@@ -532,53 +536,6 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     }
 }
 
-/// Round a hex mantissa string to the given number of hex digits.
-fn round_hex_mantissa(hex: &str, prec: usize, uppercase: bool) -> String {
-    let hex_bytes: Vec<u8> = hex.bytes().collect();
-    if prec >= hex_bytes.len() {
-        return hex.to_string();
-    }
-    let round_digit = hex_digit_val(hex_bytes[prec]);
-    let mut digits: Vec<u8> = hex_bytes[..prec]
-        .iter()
-        .map(|&b| hex_digit_val(b))
-        .collect();
-    if round_digit >= 8 {
-        let mut carry = true;
-        for d in digits.iter_mut().rev() {
-            if carry {
-                *d += 1;
-                if *d >= 16 {
-                    *d = 0;
-                } else {
-                    carry = false;
-                }
-            }
-        }
-    }
-    digits
-        .iter()
-        .map(|&d| {
-            if d < 10 {
-                (b'0' + d) as char
-            } else if uppercase {
-                (b'A' + d - 10) as char
-            } else {
-                (b'a' + d - 10) as char
-            }
-        })
-        .collect()
-}
-
-fn hex_digit_val(b: u8) -> u8 {
-    match b {
-        b'0'..=b'9' => b - b'0',
-        b'a'..=b'f' => b - b'a' + 10,
-        b'A'..=b'F' => b - b'A' + 10,
-        _ => 0,
-    }
-}
-
 /// Format a float using %g/%G rules:
 /// Use scientific notation if exponent < -4 or >= precision, otherwise fixed.
 /// Strip trailing zeros after decimal point (and the point itself if no digits remain).
@@ -1651,7 +1608,7 @@ impl Executor {
                     } else {
                         ("", s.as_str())
                     };
-                    if zero_flag && !minus_flag && width > sign.len() + s.len() {
+                    if zero_flag && !minus_flag && f.is_finite() && width > sign.len() + s.len() {
                         let pad = width - sign.len() - pfx.len();
                         format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
                     } else {
-- 
2.43.0


From 1ceb5e1ee481fe929ed162858fd71906b5235bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 048/116] fix: format %f shows every digit of a large Integer

Integers went through a Float and lost all but 53 bits.
---
 monoruby/src/executor/format.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index bd3d014..2b494b6 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -1525,6 +1525,19 @@ impl Executor {
                         )
                     }
                 }
+                'f' if val.is_integer() => {
+                    let s = match val.coerce_to_integer(self, globals)? {
+                        IntegerBase::Fixnum(v) => format!("{}", v),
+                        IntegerBase::BigInt(v) => format!("{}", v),
+                    };
+                    let s = match precision.unwrap_or(6) {
+                        0 => s,
+                        prec => format!("{}.{}", s, "0".repeat(prec)),
+                    };
+                    format_integer_with_flags(
+                        &s, width, zero_flag, minus_flag, plus_flag, space_flag,
+                    )
+                }
                 'f' => {
                     let f = val.coerce_to_float(self, globals)?;
                     let prec = precision.unwrap_or(6);
-- 
2.43.0


From 4ad0c59e93ced078e3537d2a60a2670a70654e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 049/116] fix: format rejects widths, precisions and numbers it
 cannot hold

A width beyond an int is an ArgumentError as in CRuby instead of an
overflow or an attempt to allocate that much, and widths and precisions
over 65535 no longer panic.
---
 monoruby/src/executor/format.rs | 60 ++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 2b494b6..481e5dc 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -376,6 +376,30 @@ fn pad_to(s: &str, len: usize, width: usize, left_align: bool, pad: char) -> Str
     }
 }
 
+/// Pad `s` with zeros on the left to `width`.
+fn zero_fill(s: &str, width: usize) -> String {
+    apply_width(s, width, false, '0')
+}
+
+/// No `f64` has more digits than this after its decimal point; the
+/// standard formatter takes no precision over `u16::MAX`.
+const MAX_FLOAT_DIGITS: usize = 1100;
+
+/// `f` in fixed notation with `prec` digits after the decimal point.
+fn float_fixed(f: f64, prec: usize) -> String {
+    let p = prec.min(MAX_FLOAT_DIGITS);
+    format!("{:.p$}{}", f, "0".repeat(prec - p))
+}
+
+/// `f` in Rust's scientific notation with `prec` digits after the
+/// decimal point.
+fn float_scientific(f: f64, prec: usize) -> String {
+    let p = prec.min(MAX_FLOAT_DIGITS);
+    let s = format!("{:.p$e}", f);
+    let (mantissa, exp) = s.split_at(s.find('e').unwrap());
+    format!("{}{}{}", mantissa, "0".repeat(prec - p), exp)
+}
+
 /// Format an integer string with sign/space/zero/width flags.
 fn format_integer_with_flags(
     s: &str,
@@ -402,7 +426,7 @@ fn format_integer_with_flags(
     let body = format!("{}{}", sign, digits);
     if zero_flag && width > body.len() {
         let pad = width - sign.len();
-        format!("{}{:0>w$}", sign, digits, w = pad)
+        format!("{}{}", sign, zero_fill(digits, pad))
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -433,7 +457,7 @@ fn format_float_with_flags(
     // the `0` flag — CRuby pads them with spaces.
     if zero_flag && f.is_finite() && width > body.len() {
         let pad = width - sign.len();
-        format!("{}{:0>w$}", sign, s, w = pad)
+        format!("{}{}", sign, zero_fill(s, pad))
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -455,7 +479,7 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     if f == 0.0 {
         return match precision {
             Some(0) => format!("{}0{}+0", prefix, p_char),
-            Some(prec) => format!("{}0.{:0>w$}{}+0", prefix, "", p_char, w = prec),
+            Some(prec) => format!("{}0.{}{}+0", prefix, "0".repeat(prec), p_char),
             None => format!("{}0{}+0", prefix, p_char),
         };
     }
@@ -493,7 +517,7 @@ fn format_hex_float(f: f64, precision: Option<usize>, uppercase: bool) -> String
     match precision {
         Some(prec) => {
             if prec >= 13 {
-                let padded = format!("{:0<w$}", full_hex, w = prec);
+                let padded = format!("{}{}", full_hex, "0".repeat(prec - 13));
                 format!(
                     "{}{}.{}{}{}{}",
                     prefix, leading, padded, p_char, exp_sign, exp_abs
@@ -566,7 +590,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
     }
     // Scientific notation with (precision - 1) digits after the decimal
     // point; its exponent is that of the rounded value.
-    let s = format!("{:.p$e}", f, p = precision.saturating_sub(1));
+    let s = float_scientific(f, precision.saturating_sub(1));
     let exp = s[s.find('e').unwrap() + 1..].parse::<i64>().unwrap();
     if exp < -4 || exp >= precision as i64 {
         let s = if uppercase { s.to_uppercase() } else { s };
@@ -580,7 +604,7 @@ fn format_g(f: f64, precision: usize, uppercase: bool, strip: bool) -> String {
         // Use fixed notation
         // precision means total significant digits
         let fixed_prec = (precision as i64 - exp - 1) as usize;
-        let s = format!("{:.p$}", f, p = fixed_prec);
+        let s = float_fixed(f, fixed_prec);
         if strip {
             strip_trailing_zeros_fixed(&s)
         } else {
@@ -738,7 +762,7 @@ fn format_int_with_prefix(
     let body = format!("{}{}{}", sign, prefix, digits);
     if zero_flag && width > body.len() {
         let pad = width - sign.len() - prefix.len();
-        format!("{}{}{:0>w$}", sign, prefix, digits, w = pad)
+        format!("{}{}{}", sign, prefix, zero_fill(digits, pad))
     } else {
         apply_width(&body, width, minus_flag, ' ')
     }
@@ -948,7 +972,9 @@ impl Executor {
                 if j < flen && fchars[j] == '$' {
                     let mut num = 0usize;
                     for &c in &fchars[start..j] {
-                        num = num * 10 + (c as usize) - ('0' as usize);
+                        num = num
+                            .saturating_mul(10)
+                            .saturating_add((c as usize) - ('0' as usize));
                     }
                     *pos = j + 1;
                     Some(num)
@@ -1073,7 +1099,7 @@ impl Executor {
                 };
                 let w = width_val.coerce_to_integer(self, globals)?;
                 match w {
-                    IntegerBase::Fixnum(v) => {
+                    IntegerBase::Fixnum(v) if v.unsigned_abs() <= i32::MAX as u64 => {
                         if v < 0 {
                             minus_flag = true;
                             zero_flag = false;
@@ -1082,7 +1108,7 @@ impl Executor {
                             width = v as usize;
                         }
                     }
-                    IntegerBase::BigInt(_) => {
+                    _ => {
                         return Err(MonorubyErr::argumenterr("width too big"));
                     }
                 }
@@ -1097,6 +1123,7 @@ impl Executor {
                     width = width
                         .checked_mul(10)
                         .and_then(|w| w.checked_add(ch as usize - '0' as usize))
+                        .filter(|w| *w <= i32::MAX as usize)
                         .ok_or_else(|| MonorubyErr::argumenterr("width too big"))?;
                     i += 1;
                     if i >= flen {
@@ -1159,13 +1186,13 @@ impl Executor {
                         v
                     };
                     match prec_val.coerce_to_integer(self, globals)? {
-                        IntegerBase::Fixnum(v) => {
+                        IntegerBase::Fixnum(v) if v.unsigned_abs() <= i32::MAX as u64 => {
                             if v >= 0 {
                                 precision = Some(v as usize);
                             }
                             // negative precision: ignored (stays None)
                         }
-                        IntegerBase::BigInt(_) => {
+                        _ => {
                             return Err(MonorubyErr::argumenterr("precision too big"));
                         }
                     }
@@ -1181,6 +1208,7 @@ impl Executor {
                         prec = prec
                             .checked_mul(10)
                             .and_then(|p| p.checked_add(ch as usize - '0' as usize))
+                            .filter(|p| *p <= i32::MAX as usize)
                             .ok_or_else(|| MonorubyErr::argumenterr("precision too big"))?;
                         i += 1;
                         if i >= flen {
@@ -1546,7 +1574,7 @@ impl Executor {
                     } else if f.is_nan() {
                         "NaN".to_string()
                     } else {
-                        format!("{:.p$}", f.abs(), p = prec)
+                        float_fixed(f.abs(), prec)
                     };
                     // CRuby quirk: `%#f` does NOT force a point for an
                     // Integer argument (unlike `%#e`/`%#g`/`%#a`).
@@ -1567,9 +1595,9 @@ impl Executor {
                     } else if f.is_nan() {
                         "NaN".to_string()
                     } else if ch == 'E' {
-                        normalize_sci_exponent(&format!("{:.p$E}", f.abs(), p = prec))
+                        normalize_sci_exponent(&float_scientific(f.abs(), prec).to_uppercase())
                     } else {
-                        normalize_sci_exponent(&format!("{:.p$e}", f.abs(), p = prec))
+                        normalize_sci_exponent(&float_scientific(f.abs(), prec))
                     };
                     let s = if hash_flag && f.is_finite() {
                         force_decimal_point(&s)
@@ -1623,7 +1651,7 @@ impl Executor {
                     };
                     if zero_flag && !minus_flag && f.is_finite() && width > sign.len() + s.len() {
                         let pad = width - sign.len() - pfx.len();
-                        format!("{}{}{:0>w$}", sign, pfx, rest, w = pad)
+                        format!("{}{}{}", sign, pfx, zero_fill(rest, pad))
                     } else {
                         apply_width(
                             &format!("{}{}", sign, s),
-- 
2.43.0


From 41b8c4f84d3251da5d8eb98e985f0669c624eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:06 +0000
Subject: [PATCH 050/116] fix: format raises on a directive with two names

As in CRuby "%<a><b>d" is an ArgumentError.
---
 monoruby/src/executor/format.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index 481e5dc..b84a90d 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -780,10 +780,14 @@ fn try_consume_angle_named(
     fchars: &[char],
     i: &mut usize,
     flen: usize,
+    given: bool,
 ) -> Result<Option<Value>> {
     if *i >= flen || fchars[*i] != '<' {
         return Ok(None);
     }
+    if given {
+        return Err(MonorubyErr::argumenterr("named<name> after <name>"));
+    }
     let mut j = *i + 1;
     let mut key = String::new();
     while j < flen && fchars[j] != '>' {
@@ -948,6 +952,7 @@ impl Executor {
                 &fchars,
                 &mut i,
                 flen,
+                false,
             )?;
 
             // Detect (and consume) a `N$` positional argument reference at
@@ -1038,6 +1043,7 @@ impl Executor {
                         &fchars,
                         &mut i,
                         flen,
+                        named_val.is_some(),
                     )? {
                         named_val = Some(v);
                         if i >= flen {
@@ -1144,6 +1150,7 @@ impl Executor {
                     &fchars,
                     &mut i,
                     flen,
+                    named_val.is_some(),
                 )? {
                     named_val = Some(v);
                     if i >= flen {
@@ -1248,6 +1255,7 @@ impl Executor {
                     &fchars,
                     &mut i,
                     flen,
+                    named_val.is_some(),
                 )? {
                     named_val = Some(v);
                     if i >= flen {
-- 
2.43.0


From 7ba9df6119572d626862713b607b7714a95ebd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:09 +0000
Subject: [PATCH 051/116] fix: format refuses arguments whose encodings cannot
 be joined

---
 monoruby/src/executor/format.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/executor/format.rs b/monoruby/src/executor/format.rs
index b84a90d..5f53ff5 100644
--- a/monoruby/src/executor/format.rs
+++ b/monoruby/src/executor/format.rs
@@ -113,6 +113,10 @@ pub(crate) fn negotiate_format(
         }
         match result_inner.compatible_encoding(&inner) {
             Some(combined) => {
+                if !inner.is_ascii_only() && result_inner.is_ascii_only() {
+                    // From here on the result is bound to this text.
+                    result_inner = inner.clone();
+                }
                 if combined != result_inner.encoding() {
                     result_inner.set_encoding(combined);
                 }
-- 
2.43.0


From 66ec95446daad35de7cfd478aa6f0c3d95d45c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:03 +0000
Subject: [PATCH 052/116] fix: JSON refuses text after the value

---
 monoruby/src/builtins/json.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index aeb80df..32f1692 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -11,7 +11,7 @@ fn json_parse(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let src = lfp.arg(0).expect_string(globals)?;
     let mut parser = Parser::new(src.as_bytes());
     parser
-        .parse_value(vm, globals)
+        .parse_document(vm, globals)
         .ok_or_else(|| MonorubyErr::runtimeerr(parser.error_message()))
 }
 
@@ -90,6 +90,17 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// One value with nothing but white space around it.
+    fn parse_document(&mut self, vm: &mut Executor, globals: &mut Globals) -> Option<Value> {
+        let val = self.parse_value(vm, globals)?;
+        self.skip_ws();
+        if self.pos < self.src.len() {
+            self.set_error(format!("unexpected token at position {}", self.pos));
+            return None;
+        }
+        Some(val)
+    }
+
     fn parse_value(&mut self, vm: &mut Executor, globals: &mut Globals) -> Option<Value> {
         self.skip_ws();
         match self.peek()? {
-- 
2.43.0


From 4293b08cef8c2e94565f3d92414f9d3eeaaa187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:03 +0000
Subject: [PATCH 053/116] fix: JSON reads and writes integers of any size

---
 monoruby/src/builtins/json.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 32f1692..d53def2 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -273,8 +273,8 @@ impl<'a> Parser<'a> {
                 Ok(i) => Some(Value::integer(i)),
                 Err(_) => {
                     // BigInt fallback
-                    let f: f64 = num_str.parse().ok()?;
-                    Some(Value::float(f))
+                    let i: num::BigInt = num_str.parse().ok()?;
+                    Some(Value::bigint(i))
                 }
             }
         }
@@ -369,6 +369,8 @@ fn generate(buf: &mut String, val: Value, store: &Store) {
         buf.push_str("false");
     } else if let Some(i) = val.try_fixnum() {
         buf.push_str(&i.to_string());
+    } else if let RV::BigInt(i) = val.unpack() {
+        buf.push_str(&i.to_string());
     } else if let Some(f) = val.try_float() {
         if f.is_nan() {
             buf.push_str("NaN");
-- 
2.43.0


From 1a7ae65a483ce8c05e2f147a3e419a39b65a51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:03 +0000
Subject: [PATCH 054/116] fix: JSON takes only hexadecimal digits after \u

---
 monoruby/src/builtins/json.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index d53def2..bb9a02a 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -213,6 +213,10 @@ impl<'a> Parser<'a> {
         }
         let hex = &self.src[self.pos..self.pos + 4];
         self.pos += 4;
+        // `from_str_radix` would also take a sign.
+        if !hex.iter().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
         let s = std::str::from_utf8(hex).ok()?;
         u32::from_str_radix(s, 16).ok()
     }
-- 
2.43.0


From e021acefe9c9c7a49afa25411403327ce9046ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:03 +0000
Subject: [PATCH 055/116] fix: JSON refuses control characters inside strings

---
 monoruby/src/builtins/json.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index bb9a02a..80fef60 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -202,6 +202,13 @@ impl<'a> Parser<'a> {
                         }
                     }
                 }
+                0..0x20 => {
+                    self.set_error(format!(
+                        "invalid control character in string at position {}",
+                        self.pos - 1
+                    ));
+                    return None;
+                }
                 _ => s.push(ch as char),
             }
         }
-- 
2.43.0


From 332d94caf53afd1cc5e796fa97612eca0091ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:03 +0000
Subject: [PATCH 056/116] fix: JSON reads non-ASCII text in linear time

---
 monoruby/src/builtins/json.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/json.rs b/monoruby/src/builtins/json.rs
index 80fef60..2310305 100644
--- a/monoruby/src/builtins/json.rs
+++ b/monoruby/src/builtins/json.rs
@@ -179,7 +179,10 @@ impl<'a> Parser<'a> {
                 // Multi-byte UTF-8: decode the full sequence
                 b if b >= 0x80 => {
                     self.pos -= 1; // back up to re-read the lead byte
-                    let remaining = &self.src[self.pos..];
+                    // One character at most: looking at all the rest
+                    // each time would take quadratic time.
+                    let end = self.src.len().min(self.pos + 4);
+                    let remaining = &self.src[self.pos..end];
                     match std::str::from_utf8(remaining) {
                         Ok(rest) => {
                             let c = rest.chars().next()?;
-- 
2.43.0


From bb80f62856e5513a576b7a5777ea1eba94cb2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:24 +0000
Subject: [PATCH 057/116] fix: negative fractions beyond a half round away from
 zero

Rational#round kept the truncated quotient when a negative fraction was
nearer to the next integer: Rational(-7, 4).round gave -1.
---
 monoruby/src/value/rvalue/rational.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index 0d8698c..f1d4447 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -273,7 +273,7 @@ impl RationalInner {
             let abs_doubled = doubled.abs();
             let abs_den = self.den.abs();
             let result = if abs_doubled > abs_den {
-                if self.num >= BigInt::ZERO { q + 1 } else { q }
+                if self.num >= BigInt::ZERO { q + 1 } else { q - 1 }
             } else if abs_doubled < abs_den {
                 if self.num >= BigInt::ZERO { q } else { q }
             } else {
-- 
2.43.0


From 5f4c5aca593ad99aaaace1fe77b58e2ffe9b44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:24 +0000
Subject: [PATCH 058/116] fix: rounding a Rational to tens keeps its fraction
 in view

floor, ceil and round with negative digits truncated the value to an
integer first, so Rational(-241, 2).floor(-1) and Rational(1, 2).ceil(-1)
were off by a whole unit.
---
 monoruby/src/value/rvalue/rational.rs | 51 ++++++---------------------
 1 file changed, 11 insertions(+), 40 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index f1d4447..ce0ab8b 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -206,8 +206,8 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(floored, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            RationalFloorResult::Integer(num::integer::Integer::div_floor(&i, &d) * &d)
+            let unit = &self.den * &d;
+            RationalFloorResult::Integer(num::integer::Integer::div_floor(&self.num, &unit) * &d)
         }
     }
 
@@ -230,10 +230,10 @@ impl RationalInner {
             RationalFloorResult::Rational(Self::new(ceiled, d))
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // ceil = -floor(-i, d)
-            let neg_i = -&i;
-            let floored = num::integer::Integer::div_floor(&neg_i, &d);
+            let unit = &self.den * &d;
+            // ceil = -floor(-self)
+            let neg_num = -&self.num;
+            let floored = num::integer::Integer::div_floor(&neg_num, &unit);
             RationalFloorResult::Integer(-floored * &d)
         }
     }
@@ -313,41 +313,12 @@ impl RationalInner {
             }
         } else {
             let d = BigInt::from(10u32).pow((-ndigits) as u32);
-            let i = &self.num / &self.den;
-            // Round the integer at the given digit position
-            let (q, r) = num::integer::Integer::div_rem(&i, &d);
-            let doubled = &r * BigInt::from(2);
-            let abs_doubled = doubled.abs();
-            let result = if abs_doubled > d.abs() {
-                if i >= BigInt::ZERO {
-                    (q + 1) * &d
-                } else {
-                    (q - 1) * &d
-                }
-            } else if abs_doubled < d.abs() {
-                q * &d
+            let scaled = Self::new(self.num.clone(), &self.den * &d);
+            if let RationalFloorResult::Integer(rounded) = scaled.rational_round(0, half) {
+                RationalFloorResult::Integer(rounded * &d)
             } else {
-                match half {
-                    Some(crate::value::RoundHalf::Down) => q * &d,
-                    Some(crate::value::RoundHalf::Even) => {
-                        if (&q % 2u32).is_zero() {
-                            q * &d
-                        } else if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                    _ => {
-                        if i >= BigInt::ZERO {
-                            (q + 1) * &d
-                        } else {
-                            (q - 1) * &d
-                        }
-                    }
-                }
-            };
-            RationalFloorResult::Integer(result)
+                unreachable!()
+            }
         }
     }
 
-- 
2.43.0


From c10305b661070b41e35730e553be58ad51fc4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:25 +0000
Subject: [PATCH 059/116] fix: Rational#to_f of wide parts no longer collapses
 to 0 or Infinity

The power of two put back at the end could itself be out of range even
when the result was not; it is now applied in two halves.
---
 monoruby/src/value/rvalue/rational.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index ce0ab8b..f54bde8 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -92,7 +92,9 @@ impl RationalInner {
         let n = num_reduced.to_f64().unwrap_or(0.0).abs();
         let d = den_reduced.to_f64().unwrap_or(1.0);
         let exp_diff = num_shift - den_shift;
-        sign * (n / d) * 2.0f64.powi(exp_diff)
+        // 2^exp_diff may itself be out of range: apply it in two halves.
+        let half = exp_diff / 2;
+        sign * (n / d) * 2.0f64.powi(half) * 2.0f64.powi(exp_diff - half)
     }
 
     pub fn to_i(&self) -> BigInt {
-- 
2.43.0


From 706399e61c559ad36f6d4b8d90fa0240d5f51874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:25 +0000
Subject: [PATCH 060/116] fix: the simplest fraction of a range around zero is
 zero

The search started above zero, so 0.3.rationalize(0.5) gave 1/2 and a
range holding only zero was never left.
---
 monoruby/src/value/rvalue/rational.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/value/rvalue/rational.rs b/monoruby/src/value/rvalue/rational.rs
index f54bde8..b8742b6 100644
--- a/monoruby/src/value/rvalue/rational.rs
+++ b/monoruby/src/value/rvalue/rational.rs
@@ -365,15 +365,10 @@ impl RationalInner {
         let lo = value.sub(&eps_abs);
         let hi = value.add(&eps_abs);
         let zero = Self::new(0, 1);
-        // If range includes zero or is entirely negative, return 0
-        if hi.cmp(&zero) == std::cmp::Ordering::Less {
+        // If range includes zero, return 0
+        if lo.cmp(&zero) != std::cmp::Ordering::Greater {
             return zero;
         }
-        let lo = if lo.cmp(&zero) == std::cmp::Ordering::Less {
-            zero
-        } else {
-            lo
-        };
         let mut p0 = BigInt::from(0);
         let mut q0 = BigInt::from(1);
         let mut p1 = BigInt::from(1);
-- 
2.43.0


From 7dc5b59329ef5e12da174adb7edde6a34c2ab0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 061/116] fix: compute Float divmod from the remainder

The quotient was floor(a / b), which rounds on its own and was then
squeezed into 64 bits for Integer operands.  It could disagree with the
modulo returned next to it, and large quotients saturated.
---
 monoruby/src/value/numeric.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/monoruby/src/value/numeric.rs b/monoruby/src/value/numeric.rs
index 67d9af4..8b4a0c4 100644
--- a/monoruby/src/value/numeric.rs
+++ b/monoruby/src/value/numeric.rs
@@ -312,8 +312,8 @@ impl RubyDivMod for RealKind {
                 (RealKind::BigInt(d), RealKind::BigInt(m))
             }
             (RealKind::Integer(a), RealKind::Float(b)) => {
-                let (d, m) = (((*a as f64) / b).floor() as i64, (*a as f64).ruby_mod(b));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = (*a as f64).ruby_div_mod(b);
+                (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::BigInt(a), RealKind::Integer(b)) => {
                 let (d, m) = a.ruby_div_mod(&BigInt::from(*b));
@@ -324,26 +324,20 @@ impl RubyDivMod for RealKind {
                 (RealKind::BigInt(d), RealKind::BigInt(m))
             }
             (RealKind::BigInt(a), RealKind::Float(b)) => {
-                let (d, m) = (
-                    (a.to_f64().unwrap() / b).floor(),
-                    a.to_f64().unwrap().ruby_mod(b),
-                );
+                let (d, m) = a.to_f64().unwrap().ruby_div_mod(b);
                 (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::Integer(b)) => {
-                let (d, m) = ((a / (*b as f64)).floor() as i64, a.ruby_mod(&(*b as f64)));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = a.ruby_div_mod(&(*b as f64));
+                (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::BigInt(b)) => {
-                let (d, m) = (
-                    (a / b.to_f64().unwrap()).floor(),
-                    a.ruby_mod(&b.to_f64().unwrap()),
-                );
+                let (d, m) = a.ruby_div_mod(&b.to_f64().unwrap());
                 (RealKind::Float(d), RealKind::Float(m))
             }
             (RealKind::Float(a), RealKind::Float(b)) => {
-                let (d, m) = ((a / b).floor() as i64, a.ruby_mod(b));
-                (RealKind::Integer(d), RealKind::Float(m))
+                let (d, m) = a.ruby_div_mod(b);
+                (RealKind::Float(d), RealKind::Float(m))
             }
         }
     }
@@ -575,13 +569,14 @@ impl RubyDivMod for f64 {
     type Output = (f64, f64);
     #[inline]
     fn ruby_div_mod(&self, rhs: &f64) -> Self::Output {
-        let div = (self / rhs).floor();
-        let modulo = if *self > 0.0 && *rhs < 0.0 || *self < 0.0 && *rhs > 0.0 {
-            *self % *rhs + *rhs
+        let rem = *self % *rhs;
+        let div = ((*self - rem) / *rhs).round();
+        let div = if rem != 0.0 && (rem < 0.0) != (*rhs < 0.0) {
+            div - 1.0
         } else {
-            *self % *rhs
+            div
         };
-        (div, modulo)
+        (div, self.ruby_mod(rhs))
     }
 }
 
-- 
2.43.0


From 6d271707d12c83557d511c848deb17867f90c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 062/116] fix: keep powers of 0, 1 and -1 exact and negative
 exponents whole

A big exponent of 0, 1 or -1 was refused as too large, and a negative
exponent was truncated before the size check.
---
 monoruby/src/executor/op/binary_ops.rs | 34 +++++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/executor/op/binary_ops.rs b/monoruby/src/executor/op/binary_ops.rs
index fbfed47..cdc6e8b 100644
--- a/monoruby/src/executor/op/binary_ops.rs
+++ b/monoruby/src/executor/op/binary_ops.rs
@@ -432,20 +432,26 @@ fn check_pow_limit(base_bits: u64, exp: u64) -> bool {
 }
 
 pub(crate) extern "C" fn pow_ii(lhs: i64, rhs: i64, vm: &mut Executor) -> Option<Value> {
+    // 0, 1 and -1 have a power of any size.
+    match lhs {
+        0 if rhs < 0 => {
+            vm.set_error(MonorubyErr::divide_by_zero());
+            return None;
+        }
+        0 => return Some(Value::integer((rhs == 0) as i64)),
+        1 => return Some(Value::integer(1)),
+        -1 => return Some(Value::integer(if rhs & 1 == 1 { -1 } else { 1 })),
+        _ => {}
+    }
     if let Ok(rhs) = i32::try_from(rhs) {
         if rhs < 0 {
-            if lhs == 0 {
-                vm.set_error(MonorubyErr::divide_by_zero());
+            // a ** -n = Rational(1, a**n) for |a| > 1
+            let neg_rhs = rhs.unsigned_abs();
+            let base_bits = 64 - lhs.unsigned_abs().leading_zeros() as u64;
+            if !check_pow_limit(base_bits, neg_rhs as u64) {
+                vm.set_error(MonorubyErr::exponent_is_too_large());
                 return None;
             }
-            if lhs == 1 {
-                return Some(Value::integer(1));
-            }
-            if lhs == -1 {
-                return Some(Value::integer(if (-rhs) & 1 == 1 { -1 } else { 1 }));
-            }
-            // a ** -n = Rational(1, a**n) for |a| > 1
-            let neg_rhs = (-rhs) as u32;
             let denom = BigInt::from(lhs).pow(neg_rhs);
             return Some(Value::rational(1, denom));
         }
@@ -530,8 +536,12 @@ pub(crate) extern "C" fn pow_values_raw(
                 } else if *lhs == BigInt::from(-1) {
                     Value::integer(if (-rhs) & 1 == 1 { -1 } else { 1 })
                 } else {
-                    let neg_rhs = (-rhs) as u32;
-                    let denom = lhs.pow(neg_rhs);
+                    let neg_rhs = rhs.unsigned_abs();
+                    if !check_pow_limit(lhs.bits(), neg_rhs) {
+                        vm.set_error(MonorubyErr::exponent_is_too_large());
+                        return None;
+                    }
+                    let denom = lhs.pow(neg_rhs as u32);
                     Value::rational(1, denom)
                 }
             } else {
-- 
2.43.0


From 6edc4fb58da351b5bd882473910945efb52e7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 063/116] fix: do not call a redefined shift from inside the
 built-in one

After converting its argument with to_int, the built-in shift dispatched
on the operator again and ran a user's redefinition.
---
 monoruby/src/executor/op/binary_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/executor/op/binary_ops.rs b/monoruby/src/executor/op/binary_ops.rs
index cdc6e8b..f08a5ee 100644
--- a/monoruby/src/executor/op/binary_ops.rs
+++ b/monoruby/src/executor/op/binary_ops.rs
@@ -706,7 +706,7 @@ pub(crate) extern "C" fn shr_values_raw(
         (RV::Fixnum(_) | RV::BigInt(_), _) => {
             // >> requires to_int conversion (not coerce), supports BigInt shift amounts
             match rhs.coerce_to_int(vm, globals) {
-                Ok(rhs_int) => return shr_values(vm, globals, lhs, rhs_int, is_func_call).into(),
+                Ok(rhs_int) => return shr_values_raw(vm, globals, lhs, rhs_int, is_func_call),
                 Err(_) => {
                     vm.set_error(MonorubyErr::typeerr(format!(
                         "{} can't be coerced into Integer",
@@ -784,7 +784,7 @@ pub(crate) extern "C" fn shl_values_raw(
         (RV::Fixnum(_) | RV::BigInt(_), _) => {
             // << requires to_int conversion (not coerce), supports BigInt shift amounts
             match rhs.coerce_to_int(vm, globals) {
-                Ok(rhs_int) => return shl_values(vm, globals, lhs, rhs_int, is_func_call).into(),
+                Ok(rhs_int) => return shl_values_raw(vm, globals, lhs, rhs_int, is_func_call),
                 Err(_) => {
                     vm.set_error(MonorubyErr::typeerr(format!(
                         "{} can't be coerced into Integer",
-- 
2.43.0


From 5bbea58c8ea24694518984707c4ccc4b280aa2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 064/116] fix: read bit ranges that reach beyond a machine word

Masks of 63 bits and more and offsets past the word overflowed.
---
 monoruby/src/executor/op.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 7d6233f..5fb5223 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -1050,7 +1050,7 @@ pub(crate) fn integer_index1(
                 RV::Fixnum(b) => {
                     if end <= 0 {
                         0i64
-                    } else if end >= 64 {
+                    } else if end >= 63 {
                         b
                     } else {
                         b & ((1i64 << end) - 1)
@@ -1136,18 +1136,12 @@ pub(crate) fn integer_index1(
                 _ => unreachable!(),
             };
         }
-        // Use BigInt path when width >= 64 since mask won't fit in i64
+        // Use BigInt path when the mask or the shift won't fit in i64
         let base_bigint = match base.unpack() {
             RV::Fixnum(base) => {
-                if width < 64 {
+                if width < 63 && (0..64).contains(&start) {
                     let mask = (1i64 << width) - 1;
-                    return Ok(Value::integer(
-                        (if start >= 0 {
-                            base >> start
-                        } else {
-                            base << -start
-                        }) & mask,
-                    ));
+                    return Ok(Value::integer((base >> start) & mask));
                 }
                 BigInt::from(base)
             }
-- 
2.43.0


From dedfa0f8041846b7509bbca8f9f82c9df6e0e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 065/116] fix: bits far above a negative Integer are ones

Reading a bit at a bignum index answered 0 for negative receivers.
---
 monoruby/src/executor/op.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 5fb5223..652a7d6 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -4,7 +4,7 @@ pub(crate) mod binary_ops;
 mod sort;
 
 pub(crate) use binary_ops::*;
-use num::{BigInt, FromPrimitive};
+use num::{BigInt, FromPrimitive, Signed};
 use paste::paste;
 pub(crate) use sort::*;
 
@@ -1169,7 +1169,10 @@ pub(crate) fn integer_index1(
             };
             Ok(Value::integer(val))
         }
-        (RV::Fixnum(_), RV::BigInt(_)) => Ok(Value::integer(0)),
+        (RV::Fixnum(base), RV::BigInt(index)) => {
+            let val = base.is_negative() && index.is_positive();
+            Ok(Value::integer(val.into()))
+        }
         (RV::Fixnum(_), _) => Err(MonorubyErr::no_implicit_conversion(
             globals,
             index,
@@ -1183,7 +1186,10 @@ pub(crate) fn integer_index1(
                 Ok(Value::bigint(i))
             }
         }
-        (RV::BigInt(_), RV::BigInt(_)) => Ok(Value::integer(0)),
+        (RV::BigInt(base), RV::BigInt(index)) => {
+            let val = base.is_negative() && index.is_positive();
+            Ok(Value::integer(val.into()))
+        }
         (RV::BigInt(_), _) => Err(MonorubyErr::no_implicit_conversion(
             globals,
             index,
-- 
2.43.0


From 549a584d5ea77c5e4424007d020ec23af9d9e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 066/116] fix: accept any Integer or Float answer from <=> when
 ordering

Only -1, 0 and 1 were understood; other signs were taken as a failed
comparison.
---
 monoruby/src/executor/op.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 652a7d6..79a33bf 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -816,18 +816,12 @@ impl Executor {
             (RV::Float(lhs), RV::Float(rhs)) => lhs.partial_cmp(&rhs),
             (RV::Float(_), _) => None,
             _ => {
-                if let Some(i) = self
-                    .invoke_method_inner(globals, IdentId::_CMP, lhs, &[rhs], None, None)?
-                    .try_fixnum()
-                {
-                    match i {
-                        -1 => Some(std::cmp::Ordering::Less),
-                        0 => Some(std::cmp::Ordering::Equal),
-                        1 => Some(std::cmp::Ordering::Greater),
-                        _ => None,
-                    }
-                } else {
+                let res =
+                    self.invoke_method_inner(globals, IdentId::_CMP, lhs, &[rhs], None, None)?;
+                if res.is_nil() {
                     None
+                } else {
+                    Some(self.cmpint(globals, res, lhs, rhs)?)
                 }
             }
         };
-- 
2.43.0


From 203a3ba3d99d50c4fd572543218bf36e6273b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:19:01 +0000
Subject: [PATCH 067/116] fix: order numbers against objects that know how to
 compare

Sorting an Integer or Float with, say, a Rational failed instead of
asking the number's own <=>.
---
 monoruby/src/executor/op.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/monoruby/src/executor/op.rs b/monoruby/src/executor/op.rs
index 79a33bf..219cd62 100644
--- a/monoruby/src/executor/op.rs
+++ b/monoruby/src/executor/op.rs
@@ -804,17 +804,14 @@ impl Executor {
             (RV::Fixnum(lhs), RV::Fixnum(rhs)) => Some(lhs.cmp(&rhs)),
             (RV::Fixnum(lhs), RV::BigInt(rhs)) => Some(BigInt::from(lhs).cmp(rhs)),
             (RV::Fixnum(lhs), RV::Float(rhs)) => (lhs as f64).partial_cmp(&rhs),
-            (RV::Fixnum(_), _) => None,
             (RV::BigInt(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&BigInt::from(rhs)),
             (RV::BigInt(lhs), RV::BigInt(rhs)) => Some(lhs.cmp(rhs)),
             (RV::BigInt(lhs), RV::Float(rhs)) => bigint_cmp_float(lhs, rhs),
-            (RV::BigInt(_), _) => None,
             (RV::Float(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&(rhs as f64)),
             (RV::Float(lhs), RV::BigInt(rhs)) => {
                 bigint_cmp_float(rhs, lhs).map(|ord| ord.reverse())
             }
             (RV::Float(lhs), RV::Float(rhs)) => lhs.partial_cmp(&rhs),
-            (RV::Float(_), _) => None,
             _ => {
                 let res =
                     self.invoke_method_inner(globals, IdentId::_CMP, lhs, &[rhs], None, None)?;
-- 
2.43.0


From 8e85763db790cd48065ee8b9309f76566488b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:06 +0000
Subject: [PATCH 068/116] fix: refuse byte buffer access once a view no longer
 fits its source

Writing through a view whose string or parent buffer had shrunk reached
past the end or wrote only part of the span. Converting an argument can
shrink the buffer as well, so the span is checked again afterwards.
---
 monoruby/src/builtins/io_buffer.rs     | 11 ++++++++---
 monoruby/src/value/rvalue/io_buffer.rs | 27 ++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index 72a568b..f5482a5 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -698,9 +698,14 @@ fn get_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let buf = self_.as_io_buffer_inner();
     ensure_view_valid(globals, buf)?;
     let (offset, length) = offset_length(vm, globals, lfp, buf.size, 0, 1)?;
-    let bytes = {
-        let all = buf.read_bytes()?;
-        all[offset..offset + length].to_vec()
+    // Converting the arguments may have resized the buffer.
+    let bytes = match buf.read_bytes()?.get(offset..offset + length) {
+        Some(bytes) => bytes.to_vec(),
+        None => {
+            return Err(MonorubyErr::argumenterr(
+                "Specified offset+length is bigger than the buffer size!",
+            ));
+        }
     };
     let mut s = Value::bytes(bytes);
     let enc = match lfp.try_arg(2) {
diff --git a/monoruby/src/value/rvalue/io_buffer.rs b/monoruby/src/value/rvalue/io_buffer.rs
index 1e06776..2c3c9dd 100644
--- a/monoruby/src/value/rvalue/io_buffer.rs
+++ b/monoruby/src/value/rvalue/io_buffer.rs
@@ -174,11 +174,30 @@ impl IoBufferInner {
         }
     }
 
-    /// Write `data` into the buffer at `offset` (already bounds-checked
-    /// by the caller against `self.size`). String-backed buffers mutate
-    /// the String's bytes in place, so the change is visible through the
-    /// original String; slices write through to their parent.
+    /// Whether the storage still covers the span this buffer stands for.
+    fn is_covered(&self) -> bool {
+        match &self.storage {
+            BufStorage::Null | BufStorage::Owned(_) | BufStorage::FileMap { .. } => true,
+            BufStorage::Str { s, offset } => *offset + self.size <= s.as_rstring_inner().len(),
+            BufStorage::Slice { parent, offset } => {
+                let parent = parent.as_io_buffer_inner();
+                *offset + self.size <= parent.size && parent.is_covered()
+            }
+        }
+    }
+
+    /// Write `data` into the buffer at `offset`. Fails when the span is
+    /// outside the buffer, or a view no longer fits what it looks at (a
+    /// conversion of an argument may have resized either). String-backed
+    /// buffers mutate the String's bytes in place, so the change is
+    /// visible through the original String; slices write through to
+    /// their parent.
     pub fn write_at(&mut self, offset: usize, data: &[u8]) -> Result<()> {
+        if offset + data.len() > self.size || !self.is_covered() {
+            return Err(MonorubyErr::argumenterr(
+                "Specified offset+length is bigger than the buffer size!",
+            ));
+        }
         match &mut self.storage {
             BufStorage::Null => Ok(()),
             BufStorage::Owned(v) => {
-- 
2.43.0


From a2bb40cfa95e2d69e4d7b4b665e5eb7571aace29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:07 +0000
Subject: [PATCH 069/116] fix: copy the source before IO::Buffer#set_string
 writes

A string copied into a buffer that views the same string was read while
it was being overwritten, and a conversion could change it in between.
---
 monoruby/src/builtins/io_buffer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index f5482a5..a918609 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -731,7 +731,6 @@ fn set_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
         ensure_view_valid(globals, buf)?;
     }
     let src = lfp.arg(0).coerce_to_rstring(vm, globals)?;
-    let src_bytes = src.as_bytes();
     let offset = match lfp.try_arg(1) {
         Some(v) if !v.is_nil() => {
             let o = v.coerce_to_int_i64(vm, globals)?;
@@ -748,8 +747,11 @@ fn set_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     };
     let src_len = match lfp.try_arg(3) {
         Some(v) if !v.is_nil() => (v.coerce_to_int_i64(vm, globals)?).max(0) as usize,
-        _ => src_bytes.len().saturating_sub(src_offset),
+        _ => src.as_bytes().len().saturating_sub(src_offset),
     };
+    // A copy: the conversions above may have changed the string, and the
+    // buffer may be a view of that very string.
+    let src_bytes = src.as_bytes().to_vec();
     let data = &src_bytes[src_offset.min(src_bytes.len())..(src_offset + src_len).min(src_bytes.len())];
     let buf_size = self_.as_io_buffer_inner().size;
     if offset > buf_size {
-- 
2.43.0


From 615379e56d9a909ac1fff9d790cafc42736f0a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:07 +0000
Subject: [PATCH 070/116] fix: refuse negative offsets and counts in IO::Buffer

They were taken as zero instead of raising ArgumentError.
---
 monoruby/src/builtins/io_buffer.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index a918609..b475674 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -223,7 +223,7 @@ fn encode_value(
 fn get_value(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_ = lfp.self_val();
     let (width, kind, big) = value_type_arg(lfp.arg(0))?;
-    let offset = lfp.arg(1).coerce_to_int_i64(vm, globals)?.max(0) as usize;
+    let offset = non_negative(vm, globals, lfp.arg(1), "Offset")?;
     let buf = self_.as_io_buffer_inner();
     if offset + width > buf.size {
         return Err(MonorubyErr::argumenterr(format!(
@@ -245,7 +245,7 @@ fn set_value(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let mut self_ = lfp.self_val();
     check_writable(globals, self_.as_io_buffer_inner())?;
     let (width, kind, big) = value_type_arg(lfp.arg(0))?;
-    let offset = lfp.arg(1).coerce_to_int_i64(vm, globals)?.max(0) as usize;
+    let offset = non_negative(vm, globals, lfp.arg(1), "Offset")?;
     if offset + width > self_.as_io_buffer_inner().size {
         return Err(MonorubyErr::argumenterr(format!(
             "Type extends beyond end of buffer! (offset={} > size={})",
@@ -261,6 +261,13 @@ fn set_value(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     Ok(Value::integer((offset + width) as i64))
 }
 
+/// An argument that counts or positions bytes.
+fn non_negative(vm: &mut Executor, globals: &mut Globals, v: Value, name: &str) -> Result<usize> {
+    let i = v.coerce_to_int_i64(vm, globals)?;
+    usize::try_from(i)
+        .map_err(|_| MonorubyErr::argumenterr(format!("{name} can't be negative!")))
+}
+
 /// Iterate `(absolute_offset, decoded_value)` pairs of `type` starting at
 /// `offset` for `count` items (or to the end of the buffer).
 fn each_values(
@@ -272,11 +279,11 @@ fn each_values(
     let (width, kind, big) = value_type_arg(lfp.arg(0))?;
     let buf = self_.as_io_buffer_inner();
     let mut offset = match lfp.try_arg(1) {
-        Some(v) if !v.is_nil() => v.coerce_to_int_i64(vm, globals)?.max(0) as usize,
+        Some(v) if !v.is_nil() => non_negative(vm, globals, v, "Offset")?,
         _ => 0,
     };
     let count = match lfp.try_arg(2) {
-        Some(v) if !v.is_nil() => Some(v.coerce_to_int_i64(vm, globals)?.max(0) as usize),
+        Some(v) if !v.is_nil() => Some(non_negative(vm, globals, v, "Count")?),
         _ => None,
     };
     let bytes = buf.read_bytes()?;
@@ -352,11 +359,11 @@ fn each_byte(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
         return vm.generate_enumerator(IdentId::get_id("each_byte"), self_, args, pc);
     };
     let offset = match lfp.try_arg(0) {
-        Some(v) if !v.is_nil() => v.coerce_to_int_i64(vm, globals)?.max(0) as usize,
+        Some(v) if !v.is_nil() => non_negative(vm, globals, v, "Offset")?,
         _ => 0,
     };
     let count = match lfp.try_arg(1) {
-        Some(v) if !v.is_nil() => Some(v.coerce_to_int_i64(vm, globals)?.max(0) as usize),
+        Some(v) if !v.is_nil() => Some(non_negative(vm, globals, v, "Count")?),
         _ => None,
     };
     let bytes = self_.as_io_buffer_inner().read_bytes()?;
@@ -742,11 +749,11 @@ fn set_string(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
         _ => 0,
     };
     let src_offset = match lfp.try_arg(2) {
-        Some(v) if !v.is_nil() => (v.coerce_to_int_i64(vm, globals)?).max(0) as usize,
+        Some(v) if !v.is_nil() => non_negative(vm, globals, v, "Offset")?,
         _ => 0,
     };
     let src_len = match lfp.try_arg(3) {
-        Some(v) if !v.is_nil() => (v.coerce_to_int_i64(vm, globals)?).max(0) as usize,
+        Some(v) if !v.is_nil() => non_negative(vm, globals, v, "Length")?,
         _ => src.as_bytes().len().saturating_sub(src_offset),
     };
     // A copy: the conversions above may have changed the string, and the
-- 
2.43.0


From 6086ee62a32cbf2ae45c6973ff0ce4829a6e3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:07 +0000
Subject: [PATCH 071/116] fix: IO::Buffer#<=> compares sizes before bytes

---
 monoruby/src/builtins/io_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index b475674..30f1b9a 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -1035,7 +1035,7 @@ fn cmp(_: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
     }
     let a = self_.as_io_buffer_inner().read_bytes()?;
     let b = other.as_io_buffer_inner().read_bytes()?;
-    let ord = a.cmp(&b);
+    let ord = a.len().cmp(&b.len()).then_with(|| a.cmp(&b));
     Ok(Value::integer(match ord {
         std::cmp::Ordering::Less => -1,
         std::cmp::Ordering::Equal => 0,
-- 
2.43.0


From 7ecf0c38fac9fb8353f1d361547e1cb871e3a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:07 +0000
Subject: [PATCH 072/116] fix: IO::Buffer#set_value accepts the whole range of
 its type

Unsigned 64-bit values above the signed range were refused, and a value
for a float type had to be a Float already.
---
 monoruby/src/builtins/io_buffer.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index 30f1b9a..0eb4b01 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -192,18 +192,31 @@ fn encode_value(
 ) -> Result<[u8; 8]> {
     let raw: u64 = match kind {
         ValKind::Float => {
-            let f = if let Some(f) = v.try_float() {
-                f
-            } else {
-                v.coerce_to_int_i64(vm, globals)? as f64
-            };
+            if v.is_nil() {
+                return Err(MonorubyErr::no_implicit_conversion(
+                    globals,
+                    v,
+                    FLOAT_CLASS,
+                ));
+            }
+            let f = v.coerce_to_f64(vm, globals)?;
             if width == 4 {
                 (f as f32).to_bits() as u64
             } else {
                 f.to_bits()
             }
         }
-        _ => (v.coerce_to_int_i64(vm, globals)? as u64) & mask(width),
+        _ => {
+            let wide = match (kind, v.unpack()) {
+                // The upper half of the unsigned 64-bit range.
+                (ValKind::Unsigned, RV::BigInt(b)) if width == 8 => b.to_u64(),
+                _ => None,
+            };
+            match wide {
+                Some(u) => u,
+                None => (v.coerce_to_int_i64(vm, globals)? as u64) & mask(width),
+            }
+        }
     };
     let mut out = [0u8; 8];
     if big {
-- 
2.43.0


From c756af409f402f7dbe319c9b5f2692378bde26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:07 +0000
Subject: [PATCH 073/116] fix: raise AllocationError for byte buffers that
 cannot be allocated

An impossible size aborted the process.
---
 monoruby/src/builtins/io_buffer.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index 0eb4b01..599da56 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -420,6 +420,23 @@ fn access_err(globals: &mut Globals, msg: &str) -> MonorubyErr {
     buffer_err(globals, "AccessError", msg)
 }
 
+/// `bytes` grown or shrunk to `size`, new bytes being zero; an error
+/// rather than an abort when there is no room for them.
+fn resize_bytes(globals: &mut Globals, mut bytes: Vec<u8>, size: usize) -> Result<Vec<u8>> {
+    if bytes
+        .try_reserve_exact(size.saturating_sub(bytes.len()))
+        .is_err()
+    {
+        return Err(buffer_err(
+            globals,
+            "AllocationError",
+            "Could not allocate buffer!",
+        ));
+    }
+    bytes.resize(size, 0);
+    Ok(bytes)
+}
+
 /// A slice whose source no longer covers its span (freed, transferred,
 /// or shrunk) raises InvalidatedError on data access.
 fn ensure_view_valid(globals: &mut Globals, buf: &IoBufferInner) -> Result<()> {
@@ -496,7 +513,7 @@ fn initialize(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
                 f
             }
         };
-        IoBufferInner::owned(vec![0u8; size], flags)
+        IoBufferInner::owned(resize_bytes(globals, Vec::new(), size)?, flags)
     };
     *lfp.self_val().as_io_buffer_inner_mut() = inner;
     Ok(lfp.self_val())
@@ -570,7 +587,7 @@ fn buffer_string(
     let bh = lfp
         .block()
         .ok_or_else(|| MonorubyErr::localjumperr("no block given"))?;
-    let mut string = Value::bytes(vec![0u8; len as usize]);
+    let mut string = Value::bytes(resize_bytes(globals, Vec::new(), len as usize)?);
     let inner = IoBufferInner::string_backed(string, len as usize, BUF_EXTERNAL);
     let buf_val = Value::new_io_buffer(inner);
     vm.with_temp_scope(|vm| {
@@ -853,8 +870,7 @@ fn resize(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         }
         _ => {}
     }
-    let mut bytes = buf.read_bytes()?;
-    bytes.resize(new_size, 0);
+    let bytes = resize_bytes(globals, buf.read_bytes()?, new_size)?;
     let flags = if buf.is_null() {
         if new_size < page_size() { BUF_INTERNAL } else { BUF_MAPPED }
     } else {
-- 
2.43.0


From af41febdf58ac51951d7770edf1241d356f9b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:07 +0000
Subject: [PATCH 074/116] fix: do not overflow when checking the span of
 IO::Buffer.map

---
 monoruby/src/builtins/io_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/io_buffer.rs b/monoruby/src/builtins/io_buffer.rs
index 599da56..be3e8e1 100644
--- a/monoruby/src/builtins/io_buffer.rs
+++ b/monoruby/src/builtins/io_buffer.rs
@@ -1144,7 +1144,7 @@ fn buffer_map(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
                     "Size can't be larger than file size!",
                 ));
             }
-            if s + offset > file_size {
+            if offset > file_size - s {
                 return Err(MonorubyErr::argumenterr("Offset too large!"));
             }
             s as usize
-- 
2.43.0


From c0b0904115f535055b74e9c83db082c57b333c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:27 +0000
Subject: [PATCH 075/116] fix: raise for array sizes that cannot exist instead
 of panicking

---
 monoruby/src/builtins/array.rs     | 24 +++++++++++++-----------
 monoruby/src/value/rvalue/array.rs | 11 ++++++++++-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 81804db..fb4df8c 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -752,9 +752,7 @@ fn mul(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         if v < 0 {
             return Err(MonorubyErr::negative_argument());
         }
-        let rhs = v as usize;
-        let vec = lhs.repeat(rhs);
-        Ok(Value::array_from_vec(vec))
+        array_repeat(lhs, v as usize)
     } else if let Some(inner) = arg.is_rstring_inner() {
         let sep_bytes = inner.as_bytes().to_vec();
         let sep_enc = inner.encoding();
@@ -809,12 +807,17 @@ fn mul(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         if v < 0 {
             return Err(MonorubyErr::negative_argument());
         }
-        let rhs = v as usize;
-        let vec = lhs.repeat(rhs);
-        Ok(Value::array_from_vec(vec))
+        array_repeat(lhs, v as usize)
     }
 }
 
+fn array_repeat(lhs: Array, rhs: usize) -> Result<Value> {
+    if !matches!(lhs.len().checked_mul(rhs), Some(len) if len <= rvalue::ARRAY_MAX_LEN) {
+        return Err(MonorubyErr::argumenterr("argument too big"));
+    }
+    Ok(Value::array_from_vec(lhs.repeat(rhs)))
+}
+
 ///
 /// ### Array#&
 ///
@@ -4016,11 +4019,7 @@ fn slice_inner(mut aref: Array, start: usize, len: usize) -> Value {
     if ary_len <= start || len == 0 {
         return Value::array_empty();
     }
-    let end = if ary_len < start + len {
-        ary_len
-    } else {
-        start + len
-    };
+    let end = std::cmp::min(ary_len, start.saturating_add(len));
     let iter = aref.drain(start..end);
     Value::array_from_iter(iter)
 }
@@ -4773,6 +4772,9 @@ fn insert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     } else {
         nth as usize
     };
+    if nth >= rvalue::ARRAY_MAX_LEN {
+        return Err(MonorubyErr::indexerr(format!("index {nth} too big")));
+    }
     if nth >= ary.len() {
         ary.resize(nth, Value::nil());
     }
diff --git a/monoruby/src/value/rvalue/array.rs b/monoruby/src/value/rvalue/array.rs
index c5f8dea..4e7004e 100644
--- a/monoruby/src/value/rvalue/array.rs
+++ b/monoruby/src/value/rvalue/array.rs
@@ -5,6 +5,9 @@ use smallvec::smallvec;
 
 pub const ARRAY_INLINE_CAPA: usize = 5;
 
+/// The largest number of elements an Array can hold.
+pub(crate) const ARRAY_MAX_LEN: usize = isize::MAX as usize / std::mem::size_of::<Value>();
+
 #[monoruby_object(write_barrier)]
 pub struct Array(Value);
 
@@ -325,6 +328,9 @@ impl ArrayInner {
                 Some(v) => *v = src,
                 None => {
                     let idx = idx as usize;
+                    if idx >= ARRAY_MAX_LEN {
+                        return Err(MonorubyErr::indexerr(format!("index {idx} too big")));
+                    }
                     self.resize(idx, Value::nil());
                     self.push(src);
                 }
@@ -340,6 +346,9 @@ impl ArrayInner {
 
     pub(crate) fn set_index2(&mut self, index: usize, length: usize, val: Value) -> Result<Value> {
         let len = self.len();
+        if index >= ARRAY_MAX_LEN {
+            return Err(MonorubyErr::indexerr(format!("index {index} too big")));
+        }
         match val.try_array_ty() {
             Some(ary) => {
                 let is_self = std::ptr::eq((*ary).as_ptr(), self.as_ptr());
@@ -423,7 +432,7 @@ impl ArrayInner {
         } else {
             let len = len as usize;
             let start = index;
-            let end = std::cmp::min(self_len, start + len);
+            let end = std::cmp::min(self_len, start.saturating_add(len));
             Value::array_from_iter(self[start..end].iter().cloned())
         };
         Ok(val)
-- 
2.43.0


From 6ccd5413e3c2cdc66632c85ecc1181e2f0a5351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:45 +0000
Subject: [PATCH 076/116] fix: slice! answers nil for a range starting beyond
 the end

---
 monoruby/src/builtins/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index fb4df8c..58841ea 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3977,8 +3977,8 @@ fn slice_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             0
         } else {
             match ary.get_array_index(range.start().coerce_to_int_i64(vm, globals)?) {
-                Some(i) => i,
-                None => return Ok(Value::nil()),
+                Some(i) if i <= ary.len() => i,
+                _ => return Ok(Value::nil()),
             }
         };
         // nil end means array length (endless range)
-- 
2.43.0


From 461c8f929b4da68e3c39e63ae37536b0800f6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:45 +0000
Subject: [PATCH 077/116] fix: Array#delete passes the item to its block

---
 monoruby/src/builtins/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 58841ea..6f746e7 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -4657,7 +4657,7 @@ fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     }
     if !has_match {
         return if let Some(bh) = lfp.block() {
-            vm.invoke_block_once(globals, bh, &[])
+            vm.invoke_block_once(globals, bh, &[arg0])
         } else {
             Ok(Value::nil())
         };
-- 
2.43.0


From 1b685bdf719a4f12e981c75530541a947d2201db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:45 +0000
Subject: [PATCH 078/116] fix: assigning to part of an array converts with
 to_ary in every form

---
 monoruby/src/builtins/array.rs | 53 +++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 6f746e7..9b04dce 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1354,12 +1354,11 @@ fn index_assign(
                 let e = if range.exclude_end() { e } else { e + 1 };
                 usize::try_from(e - start as i64).ok()
             };
-            if let Some(len) = len {
-                ary.set_index2(start, len, val)
-            } else {
-                // end < start: treat as zero-length replacement at start
-                ary.set_index2(start, 0, val)
-            }
+            // end < start: treat as zero-length replacement at start
+            let len = len.unwrap_or(0);
+            let src = slice_assign_source(vm, globals, val)?;
+            ary.set_index2(start, len, src)?;
+            Ok(val)
         } else {
             let idx = i.coerce_to_int_i64(vm, globals)?;
             ary.set_index(idx, val)
@@ -1380,15 +1379,28 @@ fn index_assign(
             }
         }
         let val = lfp.arg(2);
-        // Try #to_ary conversion for multi-element assignment.
-        let val = if val.try_array_ty().is_some() {
-            val
-        } else if let Some(fid) = globals.check_method(val, IdentId::TO_ARY) {
-            vm.invoke_func_inner(globals, fid, val, &[], None, None)?
-        } else {
-            val
-        };
-        ary.set_index2(i as usize, l as usize, val)
+        let src = slice_assign_source(vm, globals, val)?;
+        ary.set_index2(i as usize, l as usize, src)?;
+        Ok(val)
+    }
+}
+
+/// Try #to_ary conversion for multi-element assignment. An object without
+/// #to_ary, or whose #to_ary returns nil, is assigned as a single element.
+fn slice_assign_source(vm: &mut Executor, globals: &mut Globals, val: Value) -> Result<Value> {
+    if val.is_array_ty() {
+        return Ok(val);
+    }
+    let Some(fid) = globals.check_method(val, IdentId::TO_ARY) else {
+        return Ok(val);
+    };
+    let result = vm.invoke_func_inner(globals, fid, val, &[], None, None)?;
+    if result.is_array_ty() {
+        Ok(result)
+    } else if result.is_nil() {
+        Ok(val)
+    } else {
+        Err(MonorubyErr::cant_convert_error_ary(globals, val, result))
     }
 }
 
@@ -1522,14 +1534,9 @@ extern "C" fn set_array_slice(
                 return Err(MonorubyErr::index_too_small(start - ary.len() as i64, 0));
             }
         }
-        let val = if val.try_array_ty().is_some() {
-            val
-        } else if let Some(fid) = globals.check_method(val, IdentId::TO_ARY) {
-            vm.invoke_func_inner(globals, fid, val, &[], None, None)?
-        } else {
-            val
-        };
-        ary.set_index2(start as usize, len, val)
+        let src = slice_assign_source(vm, globals, val)?;
+        ary.set_index2(start as usize, len, src)?;
+        Ok(val)
     }
     inner(base, start, len, val, vm, globals)
         .map_err(|err| vm.set_error(err))
-- 
2.43.0


From 8ffecbf0e314d5375c5b418a76018a08d887fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:55 +0000
Subject: [PATCH 079/116] fix: Array#take always answers a plain Array

---
 monoruby/src/builtins/array.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 9b04dce..ecbde71 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -2344,12 +2344,7 @@ fn take(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     if n < 0 {
         return Err(MonorubyErr::argumenterr("must be positive."));
     }
-    let n = n as usize;
-    if n > ary.len() {
-        Ok(ary.as_val().dup())
-    } else {
-        Ok(Value::array_from_iter(ary[0..n].iter().cloned()))
-    }
+    Ok(Value::array_from_iter(ary.iter().take(n as usize).cloned()))
 }
 
 ///
-- 
2.43.0


From 13de95de9fdfa9a96d05baca9123edf963c09ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:55 +0000
Subject: [PATCH 080/116] fix: do not overflow on ranges ending at the largest
 integer

---
 monoruby/src/builtins/array.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index ecbde71..1884a52 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1351,7 +1351,11 @@ fn index_assign(
             } else {
                 let e = range.end().coerce_to_int_i64(vm, globals)?;
                 let e = if e < 0 { e + ary.len() as i64 } else { e };
-                let e = if range.exclude_end() { e } else { e + 1 };
+                let e = if range.exclude_end() {
+                    e
+                } else {
+                    e.saturating_add(1)
+                };
                 usize::try_from(e - start as i64).ok()
             };
             // end < start: treat as zero-length replacement at start
@@ -1760,7 +1764,7 @@ fn fill_range_indices(
         if range.exclude_end() {
             end_val
         } else {
-            end_val + 1
+            end_val.saturating_add(1)
         }
     };
     if end_idx < start {
-- 
2.43.0


From 7351c91a490d58c91cb621b0022c76853d2f1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:55 +0000
Subject: [PATCH 081/116] fix: Array#fill takes nil for the start and does not
 grow for an empty range

---
 monoruby/src/builtins/array.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 1884a52..3a64d0e 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1607,7 +1607,12 @@ fn fill(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
                 fill_range_indices(vm, globals, &ary, range)?
             } else {
                 // fill(start, length = nil) {|index| ... } -> self
-                let start = arg0.coerce_to_int_i64(vm, globals)?;
+                // A `nil` start means 0, as in the non-block form.
+                let start = if arg0.is_nil() {
+                    0i64
+                } else {
+                    arg0.coerce_to_int_i64(vm, globals)?
+                };
                 let start = if start < 0 {
                     let s = ary.len() as i64 + start;
                     if s < 0 { 0i64 } else { s }
@@ -1636,7 +1641,7 @@ fn fill(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         } else {
             (0, ary.len())
         };
-        if end_idx > ary.len() {
+        if end_idx > start && end_idx > ary.len() {
             fill_resize(&mut ary, end_idx)?;
         }
         for i in start..end_idx {
@@ -1657,7 +1662,7 @@ fn fill(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             if let Some(range) = arg1.is_range().filter(|_| lfp.try_arg(2).is_none()) {
                 // fill(val, range) -> self
                 let (start, end_idx) = fill_range_indices(vm, globals, &ary, range)?;
-                if end_idx > ary.len() {
+                if end_idx > start && end_idx > ary.len() {
                     fill_resize(&mut ary, end_idx)?;
                 }
                 for i in start..end_idx {
-- 
2.43.0


From ab5e7803143dea4d9b27cc4104dcf9829bded482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:55 +0000
Subject: [PATCH 082/116] fix: Array#uniq! leaves the array alone until it
 knows what to keep

---
 monoruby/src/builtins/array.rs | 55 ++++++++--------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 3a64d0e..456c77f 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3871,6 +3871,11 @@ fn intersect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
 /// [https://docs.ruby-lang.org/ja/latest/method/Array/i/uniq.html]
 #[monoruby_builtin]
 fn uniq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+    uniq_copy(vm, globals, lfp)
+}
+
+/// A new Array of the elements of `self` that `uniq` keeps.
+fn uniq_copy(vm: &mut Executor, globals: &mut Globals, lfp: Lfp) -> Result<Value> {
     match lfp.block() {
         None => {
             let mut ary = Array::new_from_vec(lfp.self_val().as_array().to_vec());
@@ -3914,50 +3919,14 @@ fn uniq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 #[monoruby_builtin]
 fn uniq_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    let deleted = match lfp.block() {
-        None => {
-            let mut ary = lfp.self_val().as_array();
-            ary.uniq(vm, globals)?
-        }
-        Some(bh) => vm.with_temp_scope(|vm| -> Result<bool> {
-            let data = vm.get_block_data(globals, bh)?;
-            let mut h = RubySet::default();
-            let mut i = 0;
-            let mut del = 0;
-            loop {
-                let ary = lfp.self_val().as_array();
-                if i >= ary.len() {
-                    break;
-                }
-                let elem = ary[i];
-                let key = vm.invoke_block(globals, &data, &[elem])?;
-                // Keep `key` alive across the rest of the loop so the unmarked
-                // RubySet's stored pointers remain valid when h.insert() of a
-                // future iteration dereferences them via .eql?.
-                vm.temp_push(key);
-                if h.insert(key, vm, globals)? {
-                    if del > 0 {
-                        let mut ary = lfp.self_val().as_array();
-                        ary[i - del] = elem;
-                    }
-                } else {
-                    del += 1;
-                }
-                i += 1;
-            }
-            if del > 0 {
-                let mut ary = lfp.self_val().as_array();
-                let new_len = ary.len() - del;
-                ary.truncate(new_len);
-            }
-            Ok(del > 0)
-        })?,
-    };
-    if deleted {
-        Ok(lfp.self_val())
-    } else {
-        Ok(Value::nil())
+    // The callbacks may raise or change the receiver, so collect first.
+    let kept = uniq_copy(vm, globals, lfp)?.as_array();
+    let mut ary = lfp.self_val().as_array_mut(&globals.store)?;
+    if kept.len() == ary.len() {
+        return Ok(Value::nil());
     }
+    ary.replace(kept.to_vec());
+    Ok(ary.into())
 }
 
 ///
-- 
2.43.0


From a367881f1ac39bc0e2c1c2d47fbee572571bf5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:44:50 +0000
Subject: [PATCH 083/116] fix: Array#transpose compares the lengths of rows
 even when the first is empty

---
 monoruby/src/builtins/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 456c77f..e0615c7 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -3560,13 +3560,13 @@ fn transpose(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         .map(|v| coerce_to_array_for_transpose(vm, globals, *v))
         .collect::<Result<_>>()?;
     let len = rows[0].len();
+    if rows.iter().any(|row| row.len() != len) {
+        return Err(MonorubyErr::indexerr("Element size differs."));
+    }
     let mut trans = Array::new_empty();
     for i in 0..len {
         let mut temp = Array::new_empty();
         for row in &rows {
-            if row.len() != len {
-                return Err(MonorubyErr::indexerr("Element size differs."));
-            }
             temp.push(row[i]);
         }
         trans.push(temp.into());
-- 
2.43.0


From 21c598b3bd238fc236c7397a01b8835251d97e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:05 +0000
Subject: [PATCH 084/116] fix: Array#* passes on an error raised by to_str

---
 monoruby/src/builtins/array.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index e0615c7..15e25ba 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -776,8 +776,9 @@ fn mul(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         Ok(Value::string_from_inner(RStringInner::from_encoding_scanned(
             &out, enc,
         )))
-    } else if let Ok(s) = arg.coerce_to_str(vm, globals) {
+    } else if globals.check_method(arg, IdentId::TO_STR).is_some() {
         // Try to_str coercion for join
+        let s = arg.coerce_to_str(vm, globals)?;
         let sep_inner = RStringInner::from_str_scanned(s.as_str());
         let sep_bytes = sep_inner.as_bytes().to_vec();
         let sep_enc = sep_inner.encoding();
-- 
2.43.0


From 828a5d024243e06d5101b5c4f86b9ff1147218b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:45:26 +0000
Subject: [PATCH 085/116] fix: do not overflow when assigning to a range that
 ends far before it starts

---
 monoruby/src/builtins/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 15e25ba..2f38284 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1357,7 +1357,7 @@ fn index_assign(
                 } else {
                     e.saturating_add(1)
                 };
-                usize::try_from(e - start as i64).ok()
+                usize::try_from(e.saturating_sub(start as i64)).ok()
             };
             // end < start: treat as zero-length replacement at start
             let len = len.unwrap_or(0);
-- 
2.43.0


From 80808ca04079821f589e88bd2ed5046cd5a2b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:04:42 +0000
Subject: [PATCH 086/116] fix: do not walk over array slices while Ruby code
 may change the array

---
 monoruby/src/builtins/array.rs | 163 ++++++++++++++++++---------------
 1 file changed, 88 insertions(+), 75 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 2f38284..0f639e6 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -541,12 +541,12 @@ fn inspect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
                 )));
             }
             let mut s = String::from("[");
-            for (i, elem) in ary.iter().enumerate() {
+            for (i, elem) in each_elem(ary).enumerate() {
                 if i > 0 {
                     s.push_str(", ");
                 }
                 let inspected =
-                    vm.invoke_method_inner(globals, IdentId::INSPECT, *elem, &[], None, None)?;
+                    vm.invoke_method_inner(globals, IdentId::INSPECT, elem, &[], None, None)?;
                 // If #inspect returned a String, use it directly.
                 // Otherwise, call Ruby #to_s on the result.
                 if let Some(str_inner) = inspected.is_rstring_inner() {
@@ -724,13 +724,13 @@ fn sub(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         vm.temp_push(rhs.into());
         // O(n + m): hash rhs once, then membership-check each lhs element.
         let mut rhs_set = RubySet::default();
-        for v in rhs.iter() {
-            rhs_set.insert(*v, vm, globals)?;
+        for v in each_elem(rhs) {
+            rhs_set.insert(v, vm, globals)?;
         }
         let mut v = vec![];
-        for lhs in lhs_v.as_array().iter() {
-            if !rhs_set.contains(lhs, vm, globals)? {
-                v.push(*lhs);
+        for lhs in each_elem(lhs_v.as_array()) {
+            if !rhs_set.contains(&lhs, vm, globals)? {
+                v.push(lhs);
             }
         }
         Ok(Value::array_from_vec(v))
@@ -812,6 +812,12 @@ fn mul(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     }
 }
 
+/// The elements of `ary` by position, looking at the array anew each time:
+/// Ruby code that runs in between may change it.
+fn each_elem(ary: Array) -> impl Iterator<Item = Value> {
+    (0..).map_while(move |i| ary.get(i).copied())
+}
+
 fn array_repeat(lhs: Array, rhs: usize) -> Result<Value> {
     if !matches!(lhs.len().checked_mul(rhs), Some(len) if len <= rvalue::ARRAY_MAX_LEN) {
         return Err(MonorubyErr::argumenterr("argument too big"));
@@ -835,8 +841,8 @@ fn and(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         lhs.uniq(vm, globals)?;
         // O(n + m): hash rhs once, then membership-check each lhs element.
         let mut rhs_set = RubySet::default();
-        for v in rhs.iter() {
-            rhs_set.insert(*v, vm, globals)?;
+        for v in each_elem(rhs) {
+            rhs_set.insert(v, vm, globals)?;
         }
         lhs.retain(|v| rhs_set.contains(v, vm, globals))?;
         Ok(lhs.as_val())
@@ -1112,8 +1118,11 @@ fn eql(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         self_val.id(),
         arg.id(),
         || {
-            for i in 0..lhs.len() {
-                if !lhs[i].eql(&rhs[i], vm, globals)? {
+            for (i, lhs) in each_elem(lhs).enumerate() {
+                let Some(rhs) = rhs.get(i).copied() else {
+                    return Ok(Value::bool(false));
+                };
+                if !lhs.eql(&rhs, vm, globals)? {
                     return Ok(Value::bool(false));
                 }
             }
@@ -1161,13 +1170,16 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
         self_val.id(),
         arg.id(),
         || {
-            for i in 0..lhs.len() {
+            for (i, lhs) in each_elem(lhs).enumerate() {
+                let Some(rhs) = rhs.get(i).copied() else {
+                    return Ok(Value::bool(false));
+                };
                 // CRuby first checks #equal? (identity), which makes
                 // [NaN] == [NaN] true since NaN.equal?(NaN) is true.
-                if lhs[i].id() == rhs[i].id() {
+                if lhs.id() == rhs.id() {
                     continue;
                 }
-                if vm.ne_values_bool(globals, lhs[i], rhs[i])? {
+                if vm.ne_values_bool(globals, lhs, rhs)? {
                     return Ok(Value::bool(false));
                 }
             }
@@ -1204,15 +1216,15 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         self_val.id(),
         arg.id(),
         || {
-            for (i, lhs) in lhs.iter().enumerate() {
-                if let Some(rhs) = rhs.get(i) {
+            for (i, lhs) in each_elem(lhs).enumerate() {
+                if let Some(rhs) = rhs.get(i).copied() {
                     // Compare each pair with the element's own `<=>` and
                     // return the *raw* result of the first pair that isn't
                     // exactly the Fixnum `0` — CRuby returns whatever the
                     // element comparison produced (`nil`, `±1`, or even a
                     // non-Integer like a String), not a normalized value.
                     let res =
-                        vm.invoke_method_inner(globals, IdentId::_CMP, *lhs, &[*rhs], None, None)?;
+                        vm.invoke_method_inner(globals, IdentId::_CMP, lhs, &[rhs], None, None)?;
                     if res.try_fixnum() != Some(0) {
                         return Ok(res);
                     }
@@ -1857,9 +1869,9 @@ fn zip(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         // not need its own temp protection.
         if let Some(bh) = lfp.block() {
             let data = vm.get_block_data(globals, bh)?;
-            for (i, val) in self_ary.iter().enumerate() {
+            for (i, val) in each_elem(self_ary).enumerate() {
                 let mut row = Array::new_empty();
-                row.push(*val);
+                row.push(val);
                 for j in 0..n_args {
                     let arg = vm.temp_at(base + j).as_array();
                     row.push(if i < arg.len() { arg[i] } else { Value::nil() });
@@ -1973,8 +1985,8 @@ fn inject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         res = Value::integer(acc);
         start = i;
     }
-    for v in self_[start..].iter() {
-        res = vm.invoke_method_inner(globals, sym, res, &[*v], None, None)?;
+    for v in each_elem(self_).skip(start) {
+        res = vm.invoke_method_inner(globals, sym, res, &[v], None, None)?;
     }
     Ok(res)
 }
@@ -2164,7 +2176,7 @@ fn array_join(
     out: &mut Vec<u8>,
     state: &mut Option<(Encoding, CodeRange)>,
 ) -> Result<()> {
-    for (i, v) in ary.iter().enumerate() {
+    for (i, v) in each_elem(ary).enumerate() {
         if i > 0 {
             // Inline-append the separator: no temporary string,
             // just merge `(sep_enc, sep_cr)` into the running
@@ -2193,8 +2205,8 @@ fn array_join(
             continue;
         }
         // Conversion order: to_str -> to_ary -> to_s
-        if let Some(fid) = globals.check_method(*v, IdentId::TO_STR) {
-            let ret = vm.invoke_func_inner(globals, fid, *v, &[], None, None)?;
+        if let Some(fid) = globals.check_method(v, IdentId::TO_STR) {
+            let ret = vm.invoke_func_inner(globals, fid, v, &[], None, None)?;
             if let Some(inner) = ret.is_rstring_inner() {
                 append_string(out, state, inner, &globals.store)?;
                 continue;
@@ -2205,8 +2217,8 @@ fn array_join(
                 continue;
             }
         }
-        if let Some(fid) = globals.check_method(*v, IdentId::TO_ARY) {
-            let ret = vm.invoke_func_inner(globals, fid, *v, &[], None, None)?;
+        if let Some(fid) = globals.check_method(v, IdentId::TO_ARY) {
+            let ret = vm.invoke_func_inner(globals, fid, v, &[], None, None)?;
             if let Some(inner_ary) = ret.try_array_ty() {
                 if !visited.insert(inner_ary.id()) {
                     return Err(MonorubyErr::argumenterr("recursive array join"));
@@ -2223,8 +2235,8 @@ fn array_join(
                 continue;
             }
         }
-        if let Some(fid) = globals.check_method(*v, IdentId::TO_S) {
-            let ret = vm.invoke_func_inner(globals, fid, *v, &[], None, None)?;
+        if let Some(fid) = globals.check_method(v, IdentId::TO_S) {
+            let ret = vm.invoke_func_inner(globals, fid, v, &[], None, None)?;
             if let Some(inner) = ret.is_rstring_inner() {
                 append_string(out, state, inner, &globals.store)?;
                 continue;
@@ -2245,7 +2257,7 @@ fn array_join(
         return Err(MonorubyErr::method_not_found(
             &globals.store,
             IdentId::TO_S,
-            *v,
+            v,
         ));
     }
     Ok(())
@@ -2473,18 +2485,18 @@ pub(crate) fn min(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
         let mut min = ary[0];
-        for v in &ary[1..] {
-            let block_res = vm.invoke_block(globals, &data, &[*v, min])?;
-            if vm.cmpint(globals, block_res, *v, min)? == std::cmp::Ordering::Less {
-                min = *v;
+        for v in each_elem(ary).skip(1) {
+            let block_res = vm.invoke_block(globals, &data, &[v, min])?;
+            if vm.cmpint(globals, block_res, v, min)? == std::cmp::Ordering::Less {
+                min = v;
             }
         }
         Ok(min)
     } else {
         let mut min = ary[0];
-        for v in &ary[1..] {
-            if vm.compare_values(globals, min, *v)? == std::cmp::Ordering::Greater {
-                min = *v;
+        for v in each_elem(ary).skip(1) {
+            if vm.compare_values(globals, min, v)? == std::cmp::Ordering::Greater {
+                min = v;
             }
         }
         Ok(min)
@@ -2509,18 +2521,18 @@ pub(crate) fn max(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: Bytecod
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
         let mut max = ary[0];
-        for v in &ary[1..] {
-            let block_res = vm.invoke_block(globals, &data, &[*v, max])?;
-            if vm.cmpint(globals, block_res, *v, max)? == std::cmp::Ordering::Greater {
-                max = *v;
+        for v in each_elem(ary).skip(1) {
+            let block_res = vm.invoke_block(globals, &data, &[v, max])?;
+            if vm.cmpint(globals, block_res, v, max)? == std::cmp::Ordering::Greater {
+                max = v;
             }
         }
         Ok(max)
     } else {
         let mut max = ary[0];
-        for v in &ary[1..] {
-            if vm.compare_values(globals, max, *v)? == std::cmp::Ordering::Less {
-                max = *v;
+        for v in each_elem(ary).skip(1) {
+            if vm.compare_values(globals, max, v)? == std::cmp::Ordering::Less {
+                max = v;
             }
         }
         Ok(max)
@@ -2544,14 +2556,14 @@ fn minmax(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let mut max = ary[0];
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
-        for v in &ary[1..] {
-            let r_min = vm.invoke_block(globals, &data, &[*v, min])?;
-            if vm.cmpint(globals, r_min, *v, min)? == std::cmp::Ordering::Less {
-                min = *v;
+        for v in each_elem(ary).skip(1) {
+            let r_min = vm.invoke_block(globals, &data, &[v, min])?;
+            if vm.cmpint(globals, r_min, v, min)? == std::cmp::Ordering::Less {
+                min = v;
             }
-            let r_max = vm.invoke_block(globals, &data, &[*v, max])?;
-            if vm.cmpint(globals, r_max, *v, max)? == std::cmp::Ordering::Greater {
-                max = *v;
+            let r_max = vm.invoke_block(globals, &data, &[v, max])?;
+            if vm.cmpint(globals, r_max, v, max)? == std::cmp::Ordering::Greater {
+                max = v;
             }
         }
     } else if let Some(first_i) = ary[0].try_fixnum()
@@ -2571,12 +2583,12 @@ fn minmax(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         }
         return Ok(Value::array2(Value::integer(min_i), Value::integer(max_i)));
     } else {
-        for v in &ary[1..] {
-            if vm.compare_values(globals, min, *v)? == std::cmp::Ordering::Greater {
-                min = *v;
+        for v in each_elem(ary).skip(1) {
+            if vm.compare_values(globals, min, v)? == std::cmp::Ordering::Greater {
+                min = v;
             }
-            if vm.compare_values(globals, max, *v)? == std::cmp::Ordering::Less {
-                max = *v;
+            if vm.compare_values(globals, max, v)? == std::cmp::Ordering::Less {
+                max = v;
             }
         }
     }
@@ -3556,9 +3568,8 @@ fn transpose(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     // Coerce every row once, up front. CRuby calls #to_ary exactly once
     // per element; doing it inside the inner loop would invoke the mock
     // (or user-defined `to_ary`) `len * n` times.
-    let rows: Vec<Array> = ary
-        .iter()
-        .map(|v| coerce_to_array_for_transpose(vm, globals, *v))
+    let rows: Vec<Array> = each_elem(ary)
+        .map(|v| coerce_to_array_for_transpose(vm, globals, v))
         .collect::<Result<_>>()?;
     let len = rows[0].len();
     if rows.iter().any(|row| row.len() != len) {
@@ -3727,7 +3738,7 @@ fn product_inner(lhs: Array, rhs: Vec<Array>) -> impl Iterator<Item = Value> {
         let mut v = vec![Value::nil(); n];
         for i in (0..n).rev() {
             let d = dims[i];
-            v[i] = arrays[i][k % d];
+            v[i] = arrays[i].get(k % d).copied().unwrap_or_default();
             k /= d;
         }
         Array::new_from_vec(v).into()
@@ -3779,15 +3790,15 @@ fn difference(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
             })
             .collect::<Result<Vec<_>>>()?;
         let mut v = vec![];
-        'outer: for lhs in lhs_v.as_array().iter() {
+        'outer: for lhs in each_elem(lhs_v.as_array()) {
             for other in &others {
-                for rhs in other.iter() {
-                    if lhs.eql(rhs, vm, globals)? {
+                for rhs in each_elem(*other) {
+                    if lhs.eql(&rhs, vm, globals)? {
                         continue 'outer;
                     }
                 }
             }
-            v.push(*lhs);
+            v.push(lhs);
         }
         Ok(Value::array_from_vec(v))
     })
@@ -3819,8 +3830,8 @@ fn intersection(
             let other = arg.coerce_to_array(vm, globals)?;
             vm.temp_push(other.into());
             let mut set = RubySet::default();
-            for elem in other.iter() {
-                set.insert(*elem, vm, globals)?;
+            for elem in each_elem(other) {
+                set.insert(elem, vm, globals)?;
             }
             other_sets.push(set);
         }
@@ -3850,8 +3861,8 @@ fn intersect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     // root it across the `eql?` dispatches below.
     vm.with_temp_scope(|vm| {
         vm.temp_push(rhs_ary.into());
-        for rhs in rhs_ary.iter().cloned() {
-            for lhs in lhs.iter().cloned() {
+        for rhs in each_elem(rhs_ary) {
+            for lhs in each_elem(lhs) {
                 if lhs.eql(&rhs, vm, globals)? {
                     return Ok(Value::bool(true));
                 }
@@ -4159,13 +4170,13 @@ fn flatten_inner(
         return Err(MonorubyErr::argumenterr("tried to flatten recursive array"));
     }
     seen.push(id);
-    for v in ary.iter() {
+    for v in each_elem(*ary) {
         // At level 0, no flattening occurs — do not call to_ary.
         if let Some(0) = lv {
-            res.push(*v);
+            res.push(v);
             continue;
         }
-        if let Some(inner) = try_convert_to_array(v, vm, globals)? {
+        if let Some(inner) = try_convert_to_array(&v, vm, globals)? {
             *changed = true;
             if let Some(lv) = lv {
                 flatten_inner(vm, globals, &inner, res, Some(lv - 1), changed, seen)?;
@@ -4173,7 +4184,7 @@ fn flatten_inner(
                 flatten_inner(vm, globals, &inner, res, None, changed, seen)?;
             }
         } else {
-            res.push(*v);
+            res.push(v);
         }
     }
     seen.pop();
@@ -4507,17 +4518,19 @@ fn sample_inner(
         return Ok(Value::array_empty());
     }
     n = n.min(len);
+    // A draw lifted over others may lie beyond the end as well then.
+    let elem = |i: usize| ary.get(i).copied().unwrap_or_default();
 
     match n {
         0 => return Ok(Value::array_empty()),
-        1 => return Ok(Value::array1(ary[rnds[0]])),
+        1 => return Ok(Value::array1(elem(rnds[0]))),
         2 => {
             let i = rnds[0];
             let mut j = rnds[1];
             if j >= i {
                 j += 1;
             }
-            return Ok(Value::array2(ary[i], ary[j]));
+            return Ok(Value::array2(elem(i), elem(j)));
         }
         3 => {
             let i = rnds[0];
@@ -4538,7 +4551,7 @@ fn sample_inner(
                     k += 1;
                 }
             }
-            return Ok(Array::new_from_vec(vec![ary[i], ary[j], ary[k]]).into());
+            return Ok(Array::new_from_vec(vec![elem(i), elem(j), elem(k)]).into());
         }
         _ => {}
     }
@@ -4575,7 +4588,7 @@ fn sample_inner(
             sorted[j] = k;
             idx[i] = k;
         }
-        Ok(Value::array_from_iter(idx[..n].iter().map(|&i| ary[i])))
+        Ok(Value::array_from_iter(idx[..n].iter().map(|&i| elem(i))))
     } else if n <= memo_threshold / 2 {
         // Still a small slice of a big receiver: run the same partial
         // Fisher-Yates, but over a sparse map of the swaps instead of a
-- 
2.43.0


From 3a765c75e75216500230e394e3e2ab12fb04369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:04:42 +0000
Subject: [PATCH 087/116] fix: filters that work in place tolerate a block that
 shrinks the array

---
 monoruby/src/builtins/array.rs | 53 +++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 0f639e6..073904f 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1659,6 +1659,9 @@ fn fill(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         }
         for i in start..end_idx {
             let val = vm.invoke_block(globals, &data, &[Value::integer(i as i64)])?;
+            if i >= ary.len() {
+                break;
+            }
             ary[i] = val;
         }
     } else {
@@ -2677,13 +2680,19 @@ fn sort_with_buf(
 #[monoruby_builtin]
 fn sort_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    // NOTE: the receiver being rooted through `lfp` is NOT enough to keep
-    // the merge buffer's contents alive — `merge` overwrites the
-    // receiver's slots before the corresponding buffer entries are
-    // consumed, so during that window the buffer is their only reference.
-    // `sort_inner` therefore roots the buffer itself.
-    let ary = lfp.self_val().as_array();
-    sort_inner(vm, globals, lfp, ary)
+    // The comparison may change the receiver, so a rooted copy is sorted.
+    // NOTE: that is NOT enough to keep the merge buffer's contents alive —
+    // `merge` overwrites the copy's slots before the corresponding buffer
+    // entries are consumed, so during that window the buffer is their only
+    // reference. `sort_inner` therefore roots the buffer itself.
+    let mut ary = lfp.self_val().as_array();
+    let copy = Array::new_from_vec(ary.to_vec());
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(copy.into());
+        sort_inner(vm, globals, lfp, copy)
+    })?;
+    ary.replace(copy.to_vec());
+    Ok(ary.into())
 }
 
 ///
@@ -2919,8 +2928,10 @@ fn retain_with_block(
                     if del > 0 {
                         // Re-read ary in case the block mutated it.
                         let mut ary = self_val.as_array();
-                        let val = ary[i];
-                        ary[i - del] = val;
+                        if i < ary.len() {
+                            let val = ary[i];
+                            ary[i - del] = val;
+                        }
                     }
                 } else {
                     del += 1;
@@ -2937,7 +2948,7 @@ fn retain_with_block(
                         let v = ary[j];
                         ary[j - del] = v;
                     }
-                    ary.truncate(len - del);
+                    ary.truncate(len.max(i) - del);
                 }
                 return Err(e);
             }
@@ -2945,7 +2956,7 @@ fn retain_with_block(
     }
     if del > 0 {
         let mut ary = self_val.as_array();
-        let new_len = ary.len() - del;
+        let new_len = ary.len().max(i) - del;
         ary.truncate(new_len);
         Ok(true)
     } else {
@@ -4657,8 +4668,24 @@ fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         };
     }
     recv.ensure_not_frozen(&globals.store)?;
-    let f = |v: &Value| Ok(!vm.eq_values_bool(globals, *v, arg0)?);
-    Ok(ary.retain(f)?.unwrap_or(Value::nil()))
+    let mut removed = Value::nil();
+    let mut kept = 0;
+    let mut i = 0;
+    while i < ary.len() {
+        let val = ary[i];
+        if vm.eq_values_bool(globals, val, arg0)? {
+            removed = val;
+        } else {
+            // `==` may have changed the array.
+            if kept < i && i < ary.len() {
+                ary.swap(kept, i);
+            }
+            kept += 1;
+        }
+        i += 1;
+    }
+    ary.truncate(kept);
+    Ok(removed)
 }
 
 ///
-- 
2.43.0


From cbe0771ba1a6725bbbc1db5e583df79a069e4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:04:42 +0000
Subject: [PATCH 088/116] fix: keep temporary objects of array methods alive
 while Ruby code runs

---
 monoruby/src/builtins/array.rs | 66 +++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 073904f..72e60b3 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -628,6 +628,7 @@ fn to_h(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             Some(bh) => Some(vm.get_block_data(globals, bh)?),
             None => None,
         };
+        let mut hash = vm.temp_at(vm.temp_len() - 1).as_hash();
         let mut i = 0;
         while i < self_val.as_array().len() {
             let orig_elem = self_val.as_array()[i];
@@ -660,7 +661,12 @@ fn to_h(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
                     elem.len()
                 )));
             }
-            vm.temp_hash_insert(globals, elem[0], elem[1])?;
+            // The pair may be a new object, and `hash` and `eql?` of the key
+            // may run Ruby code.
+            vm.with_temp_scope(|vm| {
+                vm.temp_push(elem.into());
+                hash.insert(elem[0], elem[1], vm, globals)
+            })?;
             i += 1;
         }
         Ok(())
@@ -1212,7 +1218,9 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     } else {
         return Ok(Value::nil());
     };
-    crate::value::exec_recursive_paired(
+    let temp = vm.temp_len();
+    vm.temp_push(rhs.into());
+    let res = crate::value::exec_recursive_paired(
         self_val.id(),
         arg.id(),
         || {
@@ -1238,7 +1246,9 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
             Ok(Value::integer(Ordering::Equal as i64))
         },
         Value::integer(Ordering::Equal as i64),
-    )
+    );
+    vm.temp_clear(temp);
+    res
 }
 
 ///
@@ -2226,9 +2236,12 @@ fn array_join(
                 if !visited.insert(inner_ary.id()) {
                     return Err(MonorubyErr::argumenterr("recursive array join"));
                 }
-                array_join(
-                    vm, globals, inner_ary, sep, sep_enc, sep_cr, visited, out, state,
-                )?;
+                vm.with_temp_scope(|vm| {
+                    vm.temp_push(ret);
+                    array_join(
+                        vm, globals, inner_ary, sep, sep_enc, sep_cr, visited, out, state,
+                    )
+                })?;
                 visited.remove(&inner_ary.id());
                 continue;
             }
@@ -2381,7 +2394,7 @@ fn take(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 /// [https://docs.ruby-lang.org/ja/latest/method/Array/i/sum.html]
 #[monoruby_builtin]
 fn sum(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let mut sum = if lfp.try_arg(0).is_none() {
+    let sum = if lfp.try_arg(0).is_none() {
         Value::i32(0)
     } else {
         lfp.arg(0)
@@ -2410,6 +2423,22 @@ fn sum(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         }
         // Fall through to the generic loop with the original `sum`.
     }
+    // The running sum may be a new object that nothing else refers to.
+    vm.with_temp_scope(|vm| {
+        let holder = Array::new_from_vec(vec![sum]);
+        vm.temp_push(holder.into());
+        sum_inner(vm, globals, lfp, sum, holder)
+    })
+}
+
+/// Keeps the running sum in `holder`, which must be rooted.
+fn sum_inner(
+    vm: &mut Executor,
+    globals: &mut Globals,
+    lfp: Lfp,
+    mut sum: Value,
+    mut holder: Array,
+) -> Result<Value> {
     // Kahan–Neumaier compensated summation while both the running sum and
     // the element are Floats, matching CRuby's precise float `sum`.
     // `comp` accumulates the lost low-order bits and is folded back in
@@ -2461,6 +2490,7 @@ fn sum(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
             comp = 0.0;
             sum = executor::op::add_values(vm, globals, sum, v, false).ok_or_else(|| vm.take_error())?;
         }
+        holder[0] = sum;
     }
     if comp != 0.0
         && let Some(f) = sum.try_float()
@@ -3579,9 +3609,15 @@ fn transpose(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     // Coerce every row once, up front. CRuby calls #to_ary exactly once
     // per element; doing it inside the inner loop would invoke the mock
     // (or user-defined `to_ary`) `len * n` times.
-    let rows: Vec<Array> = each_elem(ary)
-        .map(|v| coerce_to_array_for_transpose(vm, globals, v))
-        .collect::<Result<_>>()?;
+    let rows: Vec<Array> = vm.with_temp_scope(|vm| {
+        each_elem(ary)
+            .map(|v| {
+                let row = coerce_to_array_for_transpose(vm, globals, v)?;
+                vm.temp_push(row.into());
+                Ok(row)
+            })
+            .collect::<Result<_>>()
+    })?;
     let len = rows[0].len();
     if rows.iter().any(|row| row.len() != len) {
         return Err(MonorubyErr::indexerr("Element size differs."));
@@ -4189,6 +4225,8 @@ fn flatten_inner(
         }
         if let Some(inner) = try_convert_to_array(&v, vm, globals)? {
             *changed = true;
+            // The caller drops it again when it is done with `res`.
+            vm.temp_push(inner.into());
             if let Some(lv) = lv {
                 flatten_inner(vm, globals, &inner, res, Some(lv - 1), changed, seen)?;
             } else {
@@ -4226,7 +4264,9 @@ fn flatten(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     let mut res = vec![];
     let mut changed = false;
     let mut seen = vec![];
-    flatten_inner(vm, globals, &ary, &mut res, lv, &mut changed, &mut seen)?;
+    vm.with_temp_scope(|vm| {
+        flatten_inner(vm, globals, &ary, &mut res, lv, &mut changed, &mut seen)
+    })?;
     Ok(Value::array_from_vec(res))
 }
 
@@ -4254,7 +4294,9 @@ fn flatten_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let mut res = vec![];
     let mut changed = false;
     let mut seen = vec![];
-    flatten_inner(vm, globals, &ary, &mut res, lv, &mut changed, &mut seen)?;
+    vm.with_temp_scope(|vm| {
+        flatten_inner(vm, globals, &ary, &mut res, lv, &mut changed, &mut seen)
+    })?;
     ary.replace(res);
     Ok(if changed { ary.into() } else { Value::nil() })
 }
-- 
2.43.0


From 36a4ef14e0cb4740baad72254576e24056a25f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:43 +0000
Subject: [PATCH 089/116] fix: element access by range looks at the array after
 converting the ends

---
 monoruby/src/value/rvalue/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/array.rs b/monoruby/src/value/rvalue/array.rs
index 4e7004e..390bbe3 100644
--- a/monoruby/src/value/rvalue/array.rs
+++ b/monoruby/src/value/rvalue/array.rs
@@ -411,6 +411,11 @@ impl ArrayInner {
         }
     }
 
+}
+
+// The conversions may run Ruby code that changes the array, so these work
+// on the handle.
+impl Array {
     pub(crate) fn get_elem2(
         &self,
         vm: &mut Executor,
@@ -432,8 +437,8 @@ impl ArrayInner {
         } else {
             let len = len as usize;
             let start = index;
-            let end = std::cmp::min(self_len, start.saturating_add(len));
-            Value::array_from_iter(self[start..end].iter().cloned())
+            let end = std::cmp::min(self.len(), start.saturating_add(len));
+            Value::array_from_iter(self.get(start..end).unwrap_or_default().iter().cloned())
         };
         Ok(val)
     }
@@ -480,6 +485,7 @@ impl ArrayInner {
                     e as usize
                 }
             };
+            let end = end.min(self.len());
             if start >= end {
                 return Ok(Value::array_empty());
             }
-- 
2.43.0


From c80c57962649e17e81073d06dd2c0d80017c708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:05:43 +0000
Subject: [PATCH 090/116] fix: Array#delete tolerates a comparison that shrinks
 the array

---
 monoruby/src/builtins/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index 72e60b3..cfc168d 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -4696,8 +4696,8 @@ fn delete(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let mut ary = recv.as_array();
     let arg0 = lfp.arg(0);
     let mut has_match = false;
-    for i in 0..ary.len() {
-        if vm.eq_values_bool(globals, ary[i], arg0)? {
+    for val in each_elem(ary) {
+        if vm.eq_values_bool(globals, val, arg0)? {
             has_match = true;
             break;
         }
-- 
2.43.0


From 38a3185f99bedaed23c825b2ab86985ef0e62567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:07:38 +0000
Subject: [PATCH 091/116] fix: do not hold a boxed index while converting the
 length

---
 monoruby/src/builtins/array.rs     | 14 +++-----------
 monoruby/src/value/rvalue/array.rs |  8 ++------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/monoruby/src/builtins/array.rs b/monoruby/src/builtins/array.rs
index cfc168d..6bd107c 100644
--- a/monoruby/src/builtins/array.rs
+++ b/monoruby/src/builtins/array.rs
@@ -1265,17 +1265,9 @@ fn index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     if let Some(arg1) = lfp.try_arg(1) {
         let arg0 = lfp.arg(0);
         // Coerce indices via to_int if needed
-        let arg0 = if arg0.try_fixnum().is_none() {
-            Value::integer(arg0.coerce_to_int_i64(vm, globals)?)
-        } else {
-            arg0
-        };
-        let arg1 = if arg1.try_fixnum().is_none() {
-            Value::integer(arg1.coerce_to_int_i64(vm, globals)?)
-        } else {
-            arg1
-        };
-        ary.get_elem2(vm, globals, arg0, arg1)
+        let index = arg0.coerce_to_int_i64(vm, globals)?;
+        let len = arg1.coerce_to_int_i64(vm, globals)?;
+        ary.get_elem2(index, len)
     } else {
         let idx = lfp.arg(0);
         // Non-fixnum, non-range index: delegate. The
diff --git a/monoruby/src/value/rvalue/array.rs b/monoruby/src/value/rvalue/array.rs
index 390bbe3..4f97c26 100644
--- a/monoruby/src/value/rvalue/array.rs
+++ b/monoruby/src/value/rvalue/array.rs
@@ -418,18 +418,14 @@ impl ArrayInner {
 impl Array {
     pub(crate) fn get_elem2(
         &self,
-        vm: &mut Executor,
-        globals: &mut Globals,
-        arg0: Value,
-        arg1: Value,
+        index: i64,
+        len: i64,
     ) -> Result<Value> {
-        let index = arg0.coerce_to_int_i64(vm, globals)?;
         let self_len = self.len();
         let index = match self.get_array_index(index) {
             Some(i) => i,
             None => return Ok(Value::nil()), // negative index beyond array size
         };
-        let len = arg1.coerce_to_int_i64(vm, globals)?;
         let val = if len < 0 || index > self_len {
             Value::nil()
         } else if index == self_len {
-- 
2.43.0


From 9fe0714df3ceebbced22f8d5e1299202ca29de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:36 +0000
Subject: [PATCH 092/116] fix: copy and freeze String keys in Hash.[], invert
 and to_h

String keys that are not frozen were stored as they are, so changing the
String later left the hash with a key that no lookup finds.
---
 monoruby/src/builtins/hash.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index dba023e..c523b14 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -388,7 +388,7 @@ fn hash_bracket(
             }
             let mut map = RubyMap::default();
             for i in (0..len).step_by(2) {
-                map.insert(args[i], args[i + 1], vm, globals)?;
+                map.insert(args[i].frozen_hash_key(), args[i + 1], vm, globals)?;
             }
             Value::hash(map)
         }
@@ -431,10 +431,10 @@ fn hash_from_array_pairs(
         };
         match pair.len() {
             1 => {
-                map.insert(pair[0], Value::nil(), vm, globals)?;
+                map.insert(pair[0].frozen_hash_key(), Value::nil(), vm, globals)?;
             }
             2 => {
-                map.insert(pair[0], pair[1], vm, globals)?;
+                map.insert(pair[0].frozen_hash_key(), pair[1], vm, globals)?;
             }
             n => {
                 return Err(MonorubyErr::argumenterr(format!(
@@ -2220,7 +2220,7 @@ fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let hash = lfp.self_val().as_hash();
     let mut map = RubyMap::default();
     for (k, v) in hash.iter() {
-        map.insert(v, k, vm, globals)?;
+        map.insert(v.frozen_hash_key(), k, vm, globals)?;
     }
     Ok(Value::hash(map))
 }
@@ -2398,7 +2398,9 @@ fn to_h(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
                         "wrong element type (expected array with 2 elements)",
                     ));
                 }
-                vm.temp_at(map_idx).as_hash().insert(arr[0], arr[1], vm, globals)?;
+                vm.temp_at(map_idx)
+                    .as_hash()
+                    .insert(arr[0].frozen_hash_key(), arr[1], vm, globals)?;
             }
             Ok(vm.temp_at(map_idx))
         })
-- 
2.43.0


From cab5fcf7abe9bf54fe51cfead9c32c4eeed3d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:51 +0000
Subject: [PATCH 093/116] fix: digest of a Hash key does not depend on the
 order of its pairs

Hashes with the same pairs in another order are eql?, but they had
different digests and so did not find each other as keys.
---
 monoruby/src/value/rvalue/hash.rs | 40 ++++++++++---------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index a3fd368..7ee3d80 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1118,35 +1118,21 @@ impl RubyHash<Executor, Globals, MonorubyErr> for HashRef<'_> {
         e: &mut Executor,
         g: &mut Globals,
     ) -> Result<()> {
-        match self.content() {
-            ContentRef::Inline(pairs) => {
-                if self.is_ident_inline() {
-                    // digest keys by id, matching `IdentKey::ruby_hash`
-                    // so inline and boxed identity hashes digest alike
-                    for (key, val) in pairs {
-                        key.id().hash(state);
-                        val.ruby_hash(state, e, g)?;
-                    }
-                } else {
-                    for (key, val) in pairs {
-                        key.ruby_hash(state, e, g)?;
-                        val.ruby_hash(state, e, g)?;
-                    }
-                }
-            }
-            ContentRef::Map(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
-            }
-            ContentRef::Ident(h) => {
-                for (key, val) in h.iter() {
-                    key.ruby_hash(state, e, g)?;
-                    val.ruby_hash(state, e, g)?;
-                }
+        // `eql?` does not look at the order of the pairs, so neither may
+        // the digest: sum up the digests of the pairs.
+        let ident = self.is_compare_by_identity();
+        let mut digest = 0u64;
+        for (key, val) in self.iter() {
+            let mut pair = std::hash::DefaultHasher::new();
+            if ident {
+                key.id().hash(&mut pair);
+            } else {
+                key.ruby_hash(&mut pair, e, g)?;
             }
+            val.ruby_hash(&mut pair, e, g)?;
+            digest = digest.wrapping_add(std::hash::Hasher::finish(&pair));
         }
+        digest.hash(state);
         Ok(())
     }
 }
-- 
2.43.0


From 9bcf8fa8b65a7169ff114dacf669d8d4d7cde5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:51 +0000
Subject: [PATCH 094/116] fix: empty Hash keys are eql? whether or not they
 compare by identity

Hash#eql? already says so; as keys of another hash they were told apart.
---
 monoruby/src/value/rvalue/hash.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/value/rvalue/hash.rs b/monoruby/src/value/rvalue/hash.rs
index 7ee3d80..268dc20 100644
--- a/monoruby/src/value/rvalue/hash.rs
+++ b/monoruby/src/value/rvalue/hash.rs
@@ -1086,9 +1086,10 @@ impl std::fmt::Debug for HashRef<'_> {
 impl RubyEql<Executor, Globals, MonorubyErr> for HashRef<'_> {
     // This type of equality is used for comparison for keys of Hash.
     fn eql(&self, other: &Self, vm: &mut Executor, globals: &mut Globals) -> Result<bool> {
-        // A hash and an identity-compared hash never compare equal.
+        // A hash and an identity-compared hash compare equal only when
+        // both are empty.
         if self.is_compare_by_identity() != other.is_compare_by_identity() {
-            return Ok(false);
+            return Ok(self.is_empty() && other.is_empty());
         }
         // Same mode: representation (inline vs boxed) must not matter,
         // so compare pairwise through `get` — the same probe protocol
-- 
2.43.0


From 6067732b560bbe9b757db9290c200fd08c18708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:51 +0000
Subject: [PATCH 095/116] fix: Hash#replace raises while the hash is being
 iterated

It exchanged the entries under the running iteration, and with them the
count of iterations under way.
---
 monoruby/src/builtins/hash.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index c523b14..d0a6586 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -1684,6 +1684,10 @@ fn clear(_vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 #[monoruby_builtin]
 fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut self_ = lfp.self_val().as_hash_mut(&globals.store)?;
+    if lfp.arg(0).id() == lfp.self_val().id() {
+        return Ok(lfp.self_val());
+    }
+    self_.check_iter()?;
     let arg = lfp.arg(0).coerce_to_hash(vm, globals)?;
     self_.replace_inner(arg.inner().clone_inner());
 
-- 
2.43.0


From e4cafeaaee1a98539007ae097e69fad73a7b46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:47:12 +0000
Subject: [PATCH 096/116] fix: Hash#dig uses the default of the hash

It looks keys up the way Hash#[] does; a missing key was nil even when
the hash has a default value or a default proc.
---
 monoruby/src/builtins/hash.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index d0a6586..8abb84b 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -2366,11 +2366,7 @@ fn dig(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     }
     let hash = lfp.self_val().as_hash();
     let first_key = args[0];
-    let mut val = if let Some(v) = hash.get(first_key, vm, globals)? {
-        v
-    } else {
-        return Ok(Value::nil());
-    };
+    let mut val = hash.index(vm, globals, first_key)?;
     for i in 1..args.len() {
         if val.is_nil() {
             return Ok(Value::nil());
-- 
2.43.0


From 366d41539c724d6b5e6288b0be6767825136269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:50:13 +0000
Subject: [PATCH 097/116] fix: Hash#merge and merge! work on a copy of the
 pairs to be merged

A hash merged into itself after deletions was compacted while it was being
visited: pairs were skipped or seen twice.  The block may change or drop
the other hash as well.
---
 monoruby/src/builtins/hash.rs | 54 +++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 8abb84b..24116f2 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -2249,7 +2249,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         let data = vm.get_block_data(globals, block)?;
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            for (k, other_v) in other_val.iter() {
+            for (k, other_v) in rooted_pairs(vm, other_val) {
                 if let Some(self_v) = h.get(k, vm, globals)? {
                     let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
                     h.insert(k, v, vm, globals)?;
@@ -2261,7 +2261,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     } else {
         for arg in lfp.arg(0).as_array().iter() {
             let other_val = arg.coerce_to_hash(vm, globals)?;
-            for (k, v) in other_val.iter() {
+            for (k, v) in rooted_pairs(vm, other_val) {
                 h.insert(k, v, vm, globals)?;
             }
         }
@@ -2283,30 +2283,42 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 #[monoruby_builtin]
 fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let mut h = lfp.self_val().as_hash_mut(&globals.store)?;
-    if let Some(block) = lfp.block() {
-        let data = vm.get_block_data(globals, block)?;
-        for arg in lfp.arg(0).as_array().iter() {
-            let other_val = arg.coerce_to_hash(vm, globals)?;
-            let other = other_val;
-            for (k, other_v) in other.iter() {
-                if let Some(self_v) = h.get(k, vm, globals)? {
-                    let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
-                    h.insert(k, v, vm, globals)?;
-                } else {
-                    h.insert(k, other_v, vm, globals)?;
+    vm.with_temp_scope(|vm| {
+        if let Some(block) = lfp.block() {
+            let data = vm.get_block_data(globals, block)?;
+            for arg in lfp.arg(0).as_array().iter() {
+                let other = arg.coerce_to_hash(vm, globals)?;
+                for (k, other_v) in rooted_pairs(vm, other) {
+                    if let Some(self_v) = h.get(k, vm, globals)? {
+                        let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
+                        h.insert(k, v, vm, globals)?;
+                    } else {
+                        h.insert(k, other_v, vm, globals)?;
+                    }
                 }
             }
-        }
-    } else {
-        for arg in lfp.arg(0).as_array().iter() {
-            let other_val = arg.coerce_to_hash(vm, globals)?;
-            let other = other_val;
-            for (k, v) in other.iter() {
-                h.insert(k, v, vm, globals)?;
+        } else {
+            for arg in lfp.arg(0).as_array().iter() {
+                let other = arg.coerce_to_hash(vm, globals)?;
+                for (k, v) in rooted_pairs(vm, other) {
+                    h.insert(k, v, vm, globals)?;
+                }
             }
         }
+        Ok(lfp.self_val())
+    })
+}
+
+/// The pairs of `hash` as they are now, rooted in the current temp scope:
+/// code run while they are visited may change `hash`, or drop the last
+/// other reference to it.
+fn rooted_pairs(vm: &mut Executor, hash: Hashmap) -> Vec<(Value, Value)> {
+    let pairs: Vec<(Value, Value)> = hash.iter().collect();
+    vm.temp_array_new(pairs.len() * 2);
+    for (k, v) in &pairs {
+        vm.temp_array_extend_from_slice(&[*k, *v]);
     }
-    Ok(lfp.self_val())
+    pairs
 }
 
 ///
-- 
2.43.0


From 7a01a1cde81a95bd25974497df2a0c4129342d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:08:40 +0000
Subject: [PATCH 098/116] fix: visit the pairs a Hash had when its callbacks
 change it

The block of select, reject, select!, reject!, keep_if, delete_if and each,
and the == or inspect of an element called from ==, <=, key, assoc, rassoc
and inspect, may delete pairs or change how the hash stores them.  Walking
the live storage then read pairs that no longer existed.  Walk positions
under the iteration guard, or a rooted copy of the pairs as merge does, and
root the result being built.
---
 monoruby/src/builtins/hash.rs | 309 ++++++++++++++++++++--------------
 1 file changed, 182 insertions(+), 127 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 24116f2..e209056 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -688,8 +688,8 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
     if lhs.len() != 0 && lhs.is_compare_by_identity() != rhs.is_compare_by_identity() {
         return Ok(Value::bool(false));
     }
-    crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || {
-        for (k, lhs_value) in lhs.iter() {
+    crate::value::exec_recursive_paired(self_val.id(), rhs_v.id(), || vm.with_temp_scope(|vm| {
+        for (k, lhs_value) in rooted_pairs(vm, lhs) {
             if let Some(rhs_value) = rhs.get(k, vm, globals)?
                 && vm.eq_values_bool(globals, lhs_value, rhs_value)?
             {
@@ -699,7 +699,7 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
             }
         }
         Ok(Value::bool(true))
-    }, Value::bool(true))
+    }), Value::bool(true))
 }
 
 ///
@@ -810,16 +810,18 @@ fn hash_subset(
     vm: &mut Executor,
     globals: &mut Globals,
 ) -> Result<bool> {
-    for (k, sub_value) in sub.iter() {
-        if let Some(sup_value) = sup.get(k, vm, globals)?
-            && vm.eq_values_bool(globals, sub_value, sup_value)?
-        {
-            continue;
-        } else {
-            return Ok(false);
+    vm.with_temp_scope(|vm| {
+        for (k, sub_value) in rooted_pairs(vm, sub) {
+            if let Some(sup_value) = sup.get(k, vm, globals)?
+                && vm.eq_values_bool(globals, sub_value, sup_value)?
+            {
+                continue;
+            } else {
+                return Ok(false);
+            }
         }
-    }
-    Ok(true)
+        Ok(true)
+    })
 }
 
 ///
@@ -1788,11 +1790,12 @@ fn each(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) ->
     // differ from its stored slot (e.g. `Hash#rehash`, mutable keys), and a
     // re-lookup would then miss it. Adding a *new* key still raises via the
     // iteration guard on `insert`.
-    let pairs: Vec<(Value, Value)> = hash.iter().collect();
-    for (k, v) in pairs {
-        vm.invoke_block(globals, &data, &[Value::array2(k, v)])?;
-    }
-    Ok(lfp.self_val())
+    vm.with_temp_scope(|vm| {
+        for (k, v) in rooted_pairs(vm, hash) {
+            vm.invoke_block(globals, &data, &[Value::array2(k, v)])?;
+        }
+        Ok(lfp.self_val())
+    })
 }
 
 ///
@@ -1819,12 +1822,16 @@ fn select(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
     if src.is_compare_by_identity() {
         inner.compare_by_identity(vm, globals)?;
     }
-    for (k, v) in src.iter() {
-        if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-            inner.insert(k, v, vm, globals)?;
+    let result = Value::hash_from_inner(inner);
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        for (k, v) in rooted_pairs(vm, src) {
+            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
+                result.as_hash().insert(k, v, vm, globals)?;
+            }
         }
-    }
-    Ok(Value::hash_from_inner(inner))
+        Ok(result)
+    })
 }
 
 ///
@@ -1847,26 +1854,35 @@ fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if !vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
+    vm.with_temp_scope(|vm| {
+        let mut remove = vec![];
+        let self_val = lfp.self_val();
+        let hash = self_val.as_hash();
+        {
+            let _iter_guard = hash.iter_guard();
+            // The block may delete pairs or change how they are stored; while
+            // the guard is held their positions stay.
+            let mut i = 0;
+            while i < hash.entry_count() {
+                if let Some((k, v)) = hash.entry_at(i)
+                    && !vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+                {
+                    vm.temp_push(k);
+                    remove.push(k);
+                }
+                i += 1;
             }
         }
-    }
-    let changed = !remove.is_empty();
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
-    Ok(if changed {
-        lfp.self_val()
-    } else {
-        Value::nil()
+        let changed = !remove.is_empty();
+        let mut h = lfp.self_val().as_hash();
+        for k in remove {
+            h.remove(k, vm, globals)?;
+        }
+        Ok(if changed {
+            lfp.self_val()
+        } else {
+            Value::nil()
+        })
     })
 }
 
@@ -1930,28 +1946,30 @@ fn inspect(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
             if hash.len() == 0 {
                 return Ok(mk("{}".to_string()));
             }
-            let mut s = String::from("{");
-            let mut first = true;
-            for (k, v) in hash.iter() {
-                if !first {
-                    s.push_str(", ");
-                }
-                first = false;
-                let v_str = inspect_value_for_hash(vm, globals, v)?;
-                if let Some(sym) = k.try_symbol() {
-                    // Hash short form: bare `name:` only for plain-
-                    // identifier symbols; operators / `=`-setters /
-                    // `@`/`$` / quoted names use `"name":` (stricter
-                    // than `Symbol#inspect`).
-                    let key_str = crate::value::symbol_hash_label(sym, escape);
-                    s.push_str(&format!("{key_str}: {v_str}"));
-                } else {
-                    let k_str = inspect_value_for_hash(vm, globals, k)?;
-                    s.push_str(&format!("{k_str} => {v_str}"));
+            vm.with_temp_scope(|vm| {
+                let mut s = String::from("{");
+                let mut first = true;
+                for (k, v) in rooted_pairs(vm, hash) {
+                    if !first {
+                        s.push_str(", ");
+                    }
+                    first = false;
+                    let v_str = inspect_value_for_hash(vm, globals, v)?;
+                    if let Some(sym) = k.try_symbol() {
+                        // Hash short form: bare `name:` only for plain-
+                        // identifier symbols; operators / `=`-setters /
+                        // `@`/`$` / quoted names use `"name":` (stricter
+                        // than `Symbol#inspect`).
+                        let key_str = crate::value::symbol_hash_label(sym, escape);
+                        s.push_str(&format!("{key_str}: {v_str}"));
+                    } else {
+                        let k_str = inspect_value_for_hash(vm, globals, k)?;
+                        s.push_str(&format!("{k_str} => {v_str}"));
+                    }
                 }
-            }
-            s.push('}');
-            Ok(mk(s))
+                s.push('}');
+                Ok(mk(s))
+            })
         },
         Value::string("{...}".to_string()),
     )
@@ -2014,12 +2032,16 @@ fn reject(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         inner.compare_by_identity(vm, globals)?;
     }
     let p = vm.get_block_data(globals, bh)?;
-    for (k, v) in lfp.self_val().as_hash().iter() {
-        if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
-            inner.insert(k, v, vm, globals)?;
+    let result = Value::hash_from_inner(inner);
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        for (k, v) in rooted_pairs(vm, lfp.self_val().as_hash()) {
+            if !vm.invoke_block(globals, &p, &[k, v])?.as_bool() {
+                result.as_hash().insert(k, v, vm, globals)?;
+            }
         }
-    }
-    Ok(Value::hash_from_inner(inner))
+        Ok(result)
+    })
 }
 
 ///
@@ -2040,22 +2062,31 @@ fn delete_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
+    vm.with_temp_scope(|vm| {
+        let mut remove = vec![];
+        let self_val = lfp.self_val();
+        let hash = self_val.as_hash();
+        {
+            let _iter_guard = hash.iter_guard();
+            // The block may delete pairs or change how they are stored; while
+            // the guard is held their positions stay.
+            let mut i = 0;
+            while i < hash.entry_count() {
+                if let Some((k, v)) = hash.entry_at(i)
+                    && vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+                {
+                    vm.temp_push(k);
+                    remove.push(k);
+                }
+                i += 1;
             }
         }
-    }
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
-    Ok(lfp.self_val())
+        let mut h = lfp.self_val().as_hash();
+        for k in remove {
+            h.remove(k, vm, globals)?;
+        }
+        Ok(lfp.self_val())
+    })
 }
 
 ///
@@ -2076,26 +2107,35 @@ fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
+    vm.with_temp_scope(|vm| {
+        let mut remove = vec![];
+        let self_val = lfp.self_val();
+        let hash = self_val.as_hash();
+        {
+            let _iter_guard = hash.iter_guard();
+            // The block may delete pairs or change how they are stored; while
+            // the guard is held their positions stay.
+            let mut i = 0;
+            while i < hash.entry_count() {
+                if let Some((k, v)) = hash.entry_at(i)
+                    && vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+                {
+                    vm.temp_push(k);
+                    remove.push(k);
+                }
+                i += 1;
             }
         }
-    }
-    let changed = !remove.is_empty();
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
-    Ok(if changed {
-        lfp.self_val()
-    } else {
-        Value::nil()
+        let changed = !remove.is_empty();
+        let mut h = lfp.self_val().as_hash();
+        for k in remove {
+            h.remove(k, vm, globals)?;
+        }
+        Ok(if changed {
+            lfp.self_val()
+        } else {
+            Value::nil()
+        })
     })
 }
 
@@ -2186,12 +2226,14 @@ fn sort(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
 fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let key = lfp.arg(0);
     let hash = lfp.self_val().as_hash();
-    for (k, v) in hash.iter() {
-        if vm.eq_values_bool(globals, key, k)? {
-            return Ok(Value::array_from_vec(vec![k, v]));
+    vm.with_temp_scope(|vm| {
+        for (k, v) in rooted_pairs(vm, hash) {
+            if vm.eq_values_bool(globals, key, k)? {
+                return Ok(Value::array_from_vec(vec![k, v]));
+            }
         }
-    }
-    Ok(Value::nil())
+        Ok(Value::nil())
+    })
 }
 
 ///
@@ -2204,12 +2246,14 @@ fn assoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn rassoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let value = lfp.arg(0);
     let hash = lfp.self_val().as_hash();
-    for (k, v) in hash.iter() {
-        if vm.eq_values_bool(globals, value, v)? {
-            return Ok(Value::array_from_vec(vec![k, v]));
+    vm.with_temp_scope(|vm| {
+        for (k, v) in rooted_pairs(vm, hash) {
+            if vm.eq_values_bool(globals, value, v)? {
+                return Ok(Value::array_from_vec(vec![k, v]));
+            }
         }
-    }
-    Ok(Value::nil())
+        Ok(Value::nil())
+    })
 }
 
 ///
@@ -3220,12 +3264,14 @@ fn shift(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn key(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let hash = lfp.self_val().as_hash();
     let target = lfp.arg(0);
-    for (k, v) in hash.iter() {
-        if vm.eq_values_bool(globals, v, target)? {
-            return Ok(k);
+    vm.with_temp_scope(|vm| {
+        for (k, v) in rooted_pairs(vm, hash) {
+            if vm.eq_values_bool(globals, v, target)? {
+                return Ok(k);
+            }
         }
-    }
-    Ok(Value::nil())
+        Ok(Value::nil())
+    })
 }
 
 ///
@@ -3246,22 +3292,31 @@ fn keep_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
     let data = vm.get_block_data(globals, bh)?;
-    let mut remove = vec![];
-    let self_val = lfp.self_val();
-    let hash = self_val.as_hash();
-    {
-        let _iter_guard = hash.iter_guard();
-        for (k, v) in hash.iter() {
-            if !vm.invoke_block(globals, &data, &[k, v])?.as_bool() {
-                remove.push(k);
+    vm.with_temp_scope(|vm| {
+        let mut remove = vec![];
+        let self_val = lfp.self_val();
+        let hash = self_val.as_hash();
+        {
+            let _iter_guard = hash.iter_guard();
+            // The block may delete pairs or change how they are stored; while
+            // the guard is held their positions stay.
+            let mut i = 0;
+            while i < hash.entry_count() {
+                if let Some((k, v)) = hash.entry_at(i)
+                    && !vm.invoke_block(globals, &data, &[k, v])?.as_bool()
+                {
+                    vm.temp_push(k);
+                    remove.push(k);
+                }
+                i += 1;
             }
         }
-    }
-    let mut h = lfp.self_val().as_hash();
-    for k in remove {
-        h.remove(k, vm, globals)?;
-    }
-    Ok(lfp.self_val())
+        let mut h = lfp.self_val().as_hash();
+        for k in remove {
+            h.remove(k, vm, globals)?;
+        }
+        Ok(lfp.self_val())
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2edaad82f2b2b19979be09beb241740fccdca7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:08:40 +0000
Subject: [PATCH 099/116] fix: keep what Hash methods are about to store alive

merge, merge!, to_h, invert and values_at held new objects only in Rust
locals while hash, eql? or a default procedure ran.  sort without a block
also fetched the values after sorting, and so panicked when a comparison had
deleted a key.
---
 monoruby/src/builtins/hash.rs | 78 ++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index e209056..6f57996 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -2186,12 +2186,13 @@ fn sort(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
             Ok(Value::array_from_vec(pairs))
         })
     } else {
-        let mut keys = hash.keys();
-        // Root the merge buffer (see `Array::sort_inner`): the hash keeps
-        // the keys alive, but a user-defined `<=>` may mutate the hash
-        // mid-sort, and the buffer would then be their only reference.
-        let scratch_len = executor::op::merge_scratch_len(keys.len());
+        // A user-defined `<=>` may change the hash mid-sort: the values are
+        // those of the pairs as they were, which stay rooted throughout.
         vm.with_temp_scope(|vm| {
+            let pairs = rooted_pairs(vm, hash);
+            let mut keys: Vec<Value> = pairs.iter().map(|(k, _)| *k).collect();
+            // Root the merge buffer (see `Array::sort_inner`).
+            let scratch_len = executor::op::merge_scratch_len(keys.len());
             let buf = if scratch_len == 0 {
                 std::ptr::null_mut()
             } else {
@@ -2199,19 +2200,12 @@ fn sort(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
                 vm.temp_push(scratch.into());
                 scratch.as_mut_ptr()
             };
-            vm.sort(globals, &mut keys, buf)
-        })?;
-        // Each fresh pair must survive the Ruby `hash`/`eql?` dispatch
-        // inside `hash.get` for the following keys — accumulate into a
-        // rooted Array instead of a bare Rust Vec.
-        vm.with_temp_scope(|vm| {
-            vm.temp_array_new(keys.len());
-            let idx = vm.temp_len() - 1;
-            for &k in keys.iter() {
-                let v = hash.get(k, vm, globals)?.unwrap();
-                vm.temp_array_push(Value::array2(k, v));
-            }
-            Ok(vm.temp_at(idx))
+            vm.sort(globals, &mut keys, buf)?;
+            let values: std::collections::HashMap<u64, Value> =
+                pairs.into_iter().map(|(k, v)| (k.id(), v)).collect();
+            Ok(Value::array_from_iter(
+                keys.into_iter().map(|k| Value::array2(k, values[&k.id()])),
+            ))
         })
     }
 }
@@ -2266,11 +2260,17 @@ fn rassoc(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn invert(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     lfp.expect_no_block()?;
     let hash = lfp.self_val().as_hash();
-    let mut map = RubyMap::default();
-    for (k, v) in hash.iter() {
-        map.insert(v.frozen_hash_key(), k, vm, globals)?;
-    }
-    Ok(Value::hash(map))
+    let result = Value::hash(RubyMap::default());
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        for (k, v) in rooted_pairs(vm, hash) {
+            let key = v.frozen_hash_key();
+            vm.temp_push(key);
+            result.as_hash().insert(key, k, vm, globals)?;
+            vm.temp_pop();
+        }
+        Ok(result)
+    })
 }
 
 ///
@@ -2296,7 +2296,9 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
             for (k, other_v) in rooted_pairs(vm, other_val) {
                 if let Some(self_v) = h.get(k, vm, globals)? {
                     let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
+                    vm.temp_push(v);
                     h.insert(k, v, vm, globals)?;
+                    vm.temp_pop();
                 } else {
                     h.insert(k, other_v, vm, globals)?;
                 }
@@ -2335,7 +2337,9 @@ fn merge_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 for (k, other_v) in rooted_pairs(vm, other) {
                     if let Some(self_v) = h.get(k, vm, globals)? {
                         let v = vm.invoke_block(globals, &data, &[k, self_v, other_v])?;
+                        vm.temp_push(v);
                         h.insert(k, v, vm, globals)?;
+                        vm.temp_pop();
                     } else {
                         h.insert(k, other_v, vm, globals)?;
                     }
@@ -2403,12 +2407,16 @@ fn compare_by_identity_(
 fn values_at(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let hash = lfp.self_val().as_hash();
     let keys = lfp.arg(0).as_array();
-    let mut res = vec![];
-    for k in keys.iter() {
-        let v = hash.index(vm, globals, *k)?;
-        res.push(v);
-    }
-    Ok(Value::array_from_vec(res))
+    // Values made by the default procedure are held by the result only.
+    vm.with_temp_scope(|vm| {
+        vm.temp_array_new(keys.len());
+        let idx = vm.temp_len() - 1;
+        for k in keys.iter() {
+            let v = hash.index(vm, globals, *k)?;
+            vm.temp_array_push(v);
+        }
+        Ok(vm.temp_at(idx))
+    })
 }
 
 /// ### Hash#dig
@@ -2439,14 +2447,13 @@ fn to_h(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     if let Some(bh) = lfp.block() {
         let data = vm.get_block_data(globals, bh)?;
         let hash = lfp.self_val().as_hash();
-        let pairs: Vec<(Value, Value)> = hash.iter().collect();
         // Accumulate into a rooted Ruby Hash (not a bare Rust RubyMap):
         // the entries come from the block's fresh return Arrays and must
         // survive the following block calls.
         vm.with_temp_scope(|vm| {
             vm.temp_push(Value::hash(RubyMap::default()));
             let map_idx = vm.temp_len() - 1;
-            for (k, v) in pairs {
+            for (k, v) in rooted_pairs(vm, hash) {
                 let result = vm.invoke_block(globals, &data, &[k, v])?;
                 let arr = result.expect_array_ty(globals)?;
                 if arr.len() != 2 {
@@ -2454,9 +2461,12 @@ fn to_h(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
                         "wrong element type (expected array with 2 elements)",
                     ));
                 }
-                vm.temp_at(map_idx)
-                    .as_hash()
-                    .insert(arr[0].frozen_hash_key(), arr[1], vm, globals)?;
+                let (key, value) = (arr[0].frozen_hash_key(), arr[1]);
+                vm.temp_push(key);
+                vm.temp_push(value);
+                vm.temp_at(map_idx).as_hash().insert(key, value, vm, globals)?;
+                vm.temp_pop();
+                vm.temp_pop();
             }
             Ok(vm.temp_at(map_idx))
         })
-- 
2.43.0


From 3be4144fb6b8c3698c28bb7c2e4dc3c64f051347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:08:40 +0000
Subject: [PATCH 100/116] fix: keep the operands and the result of Hash.[] and
 <= alive

Hash.[] built its result in a bare table and walked the argument's live
storage while hash and eql? ran; the answer of to_hash in <=, <, >= and >
was held by nothing.
---
 monoruby/src/builtins/hash.rs | 123 ++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 51 deletions(-)

diff --git a/monoruby/src/builtins/hash.rs b/monoruby/src/builtins/hash.rs
index 6f57996..288fe7d 100644
--- a/monoruby/src/builtins/hash.rs
+++ b/monoruby/src/builtins/hash.rs
@@ -348,14 +348,10 @@ fn hash_bracket(
             if arg.try_hash_ty().is_some() {
                 // Single hash argument: return a fresh hash with copied entries
                 // (do NOT carry over default value/proc or compare_by_identity).
-                let mut map = RubyMap::default();
-                for (k, v) in arg.as_hash().iter() {
-                    map.insert(k, v, vm, globals)?;
-                }
-                Value::hash(map)
+                hash_from_pairs(arg.as_hash(), vm, globals)?
             } else if let Some(ary) = arg.try_array_ty() {
                 // Single array argument: try to convert [[k,v], ...] to hash
-                hash_from_array_pairs(ary.iter().copied(), vm, globals)?
+                hash_from_array_pairs(ary, vm, globals)?
             } else {
                 // Try to_hash first
                 let to_hash_id = IdentId::get_id("to_hash");
@@ -363,16 +359,12 @@ fn hash_bracket(
                     vm.invoke_method_if_exists(globals, to_hash_id, arg, &[], None, None)?
                     && coerced.try_hash_ty().is_some()
                 {
-                    let mut map = RubyMap::default();
-                    for (k, v) in coerced.as_hash().iter() {
-                        map.insert(k, v, vm, globals)?;
-                    }
-                    Value::hash(map)
+                    hash_from_pairs(coerced.as_hash(), vm, globals)?
                 } else if let Some(coerced) =
                     vm.invoke_method_if_exists(globals, IdentId::TO_ARY, arg, &[], None, None)?
                     && let Some(ary) = coerced.try_array_ty()
                 {
-                    hash_from_array_pairs(ary.iter().copied(), vm, globals)?
+                    hash_from_array_pairs(ary, vm, globals)?
                 } else {
                     return Err(MonorubyErr::argumenterr(
                         "odd number of arguments for Hash".to_string(),
@@ -386,11 +378,17 @@ fn hash_bracket(
                     "odd number of arguments for Hash".to_string(),
                 ));
             }
-            let mut map = RubyMap::default();
-            for i in (0..len).step_by(2) {
-                map.insert(args[i].frozen_hash_key(), args[i + 1], vm, globals)?;
-            }
-            Value::hash(map)
+            let result = Value::hash(RubyMap::default());
+            vm.with_temp_scope(|vm| {
+                vm.temp_push(result);
+                for i in (0..len).step_by(2) {
+                    let key = args[i].frozen_hash_key();
+                    vm.temp_push(key);
+                    result.as_hash().insert(key, args[i + 1], vm, globals)?;
+                    vm.temp_pop();
+                }
+                Ok(result)
+            })?
         }
     };
     // Tag the result with the calling class so `MyHash[...]` returns a
@@ -401,50 +399,71 @@ fn hash_bracket(
     Ok(result)
 }
 
-/// Helper to convert an iterator of values (expected to be [k,v] pairs) into a Hash.
+/// A new Hash with the pairs of `src`.
+fn hash_from_pairs(src: Hashmap, vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
+    let result = Value::hash(RubyMap::default());
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        for (k, v) in rooted_pairs(vm, src) {
+            result.as_hash().insert(k, v, vm, globals)?;
+        }
+        Ok(result)
+    })
+}
+
+/// Helper to convert an array of values (expected to be [k,v] pairs) into a Hash.
 ///
 /// `[k, v]` pairs become entries; `[k]` becomes `k => nil` (matching CRuby).
 /// Anything else raises `ArgumentError` with the index of the offending element.
 fn hash_from_array_pairs(
-    iter: impl Iterator<Item = Value>,
+    ary: Array,
     vm: &mut Executor,
     globals: &mut Globals,
 ) -> Result<Value> {
-    let mut map = RubyMap::default();
-    for (idx, elem) in iter.enumerate() {
-        let Some(pair) = elem.try_array_ty() else {
-            // CRuby formats `nil`/`true`/`false` literally and uses class
-            // name for everything else.
-            let label = if elem.is_nil() {
-                "nil".to_string()
-            } else if elem.id() == crate::value::TRUE_VALUE {
-                "true".to_string()
-            } else if elem.id() == crate::value::FALSE_VALUE {
-                "false".to_string()
-            } else {
-                elem.get_real_class_name(globals)
-            };
-            return Err(MonorubyErr::argumenterr(format!(
-                "wrong element type {} at {} (expected array)",
-                label, idx
-            )));
-        };
-        match pair.len() {
-            1 => {
-                map.insert(pair[0].frozen_hash_key(), Value::nil(), vm, globals)?;
-            }
-            2 => {
-                map.insert(pair[0].frozen_hash_key(), pair[1], vm, globals)?;
-            }
-            n => {
+    // A Ruby-level `hash`/`eql?` may run a collection or change `ary`: keep
+    // the result and the elements, as they were, rooted.
+    let result = Value::hash(RubyMap::default());
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(result);
+        let elems = ary.to_vec();
+        vm.temp_array_new(elems.len());
+        vm.temp_array_extend_from_slice(&elems);
+        for (idx, elem) in elems.into_iter().enumerate() {
+            let Some(pair) = elem.try_array_ty() else {
+                // CRuby formats `nil`/`true`/`false` literally and uses class
+                // name for everything else.
+                let label = if elem.is_nil() {
+                    "nil".to_string()
+                } else if elem.id() == crate::value::TRUE_VALUE {
+                    "true".to_string()
+                } else if elem.id() == crate::value::FALSE_VALUE {
+                    "false".to_string()
+                } else {
+                    elem.get_real_class_name(globals)
+                };
                 return Err(MonorubyErr::argumenterr(format!(
-                    "invalid number of elements ({} for 1..2)",
-                    n
+                    "wrong element type {} at {} (expected array)",
+                    label, idx
                 )));
-            }
+            };
+            let (key, value) = match pair.len() {
+                1 => (pair[0].frozen_hash_key(), Value::nil()),
+                2 => (pair[0].frozen_hash_key(), pair[1]),
+                n => {
+                    return Err(MonorubyErr::argumenterr(format!(
+                        "invalid number of elements ({} for 1..2)",
+                        n
+                    )));
+                }
+            };
+            vm.temp_push(key);
+            vm.temp_push(value);
+            result.as_hash().insert(key, value, vm, globals)?;
+            vm.temp_pop();
+            vm.temp_pop();
         }
-    }
-    Ok(Value::hash(map))
+        Ok(result)
+    })
 }
 
 ///
@@ -811,6 +830,8 @@ fn hash_subset(
     globals: &mut Globals,
 ) -> Result<bool> {
     vm.with_temp_scope(|vm| {
+        // May be the fresh answer of `to_hash`.
+        vm.temp_push(sup.into());
         for (k, sub_value) in rooted_pairs(vm, sub) {
             if let Some(sup_value) = sup.get(k, vm, globals)?
                 && vm.eq_values_bool(globals, sub_value, sup_value)?
-- 
2.43.0


From 09016350aa4fed7440ebc9ebe1963f0e9035ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:26:32 +0000
Subject: [PATCH 101/116] fix: copy unfrozen Strings that become elements of a
 Set

---
 monoruby/src/builtins/set.rs | 71 +++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index b9bd3c5..a4c3c95 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -115,6 +115,25 @@ fn new_empty_set_like(model: Value) -> Result<Value> {
     Ok(set)
 }
 
+/// Put `elem` into `set`. As with Hash keys, an unfrozen String is copied and
+/// frozen first, unless the set compares its members by identity.
+fn insert_elem(
+    set: Value,
+    elem: Value,
+    vm: &mut Executor,
+    globals: &mut Globals,
+) -> Result<()> {
+    let elem = if set.as_hash().is_compare_by_identity() {
+        elem
+    } else {
+        elem.frozen_hash_key()
+    };
+    vm.with_temp_scope(|vm| {
+        vm.temp_push(elem);
+        set.as_hash().insert(elem, Value::bool(true), vm, globals)
+    })
+}
+
 /// Create a Set from an iterator of values.
 fn set_from_iter(
     iter: impl Iterator<Item = Value>,
@@ -122,9 +141,8 @@ fn set_from_iter(
     globals: &mut Globals,
 ) -> Result<Value> {
     let set = new_empty_set();
-    let mut h = set.as_hash();
     for v in iter {
-        h.insert(v, Value::bool(true), vm, globals)?;
+        insert_elem(set, v, vm, globals)?;
     }
     Ok(set)
 }
@@ -220,9 +238,8 @@ fn set_index(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
 fn add(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let val = lfp.arg(0);
     let self_val = lfp.self_val();
-    self_val
-        .as_hash_mut(&globals.store)?
-        .insert(val, Value::bool(true), vm, globals)?;
+    self_val.ensure_not_frozen(&globals.store)?;
+    insert_elem(self_val, val, vm, globals)?;
     Ok(self_val)
 }
 
@@ -241,8 +258,7 @@ fn add_q(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     if already {
         Ok(Value::nil())
     } else {
-        self_val
-            .as_hash().insert(val, Value::bool(true), vm, globals)?;
+        insert_elem(self_val, val, vm, globals)?;
         Ok(self_val)
     }
 }
@@ -430,8 +446,7 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     for arg in args.iter().copied() {
         let elems = enum_to_vec(vm, globals, arg)?;
         for elem in elems {
-            self_val
-                .as_hash().insert(elem, Value::bool(true), vm, globals)?;
+            insert_elem(self_val, elem, vm, globals)?;
         }
     }
     Ok(self_val)
@@ -479,8 +494,7 @@ fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
         self_val.as_hash().set_compare_by_identity_empty(ident)?;
     }
     for elem in elems {
-        self_val
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
+        insert_elem(self_val, elem, vm, globals)?;
     }
     Ok(self_val)
 }
@@ -516,8 +530,7 @@ fn intersection(
     let result = new_empty_set();
     for (k, _) in self_inner.iter() {
         if other_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
+            insert_elem(result, k, vm, globals)?;
         }
     }
     Ok(result)
@@ -539,12 +552,10 @@ fn union_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     // the result keeps `self`'s comparison mode (and the merge follows it).
     let result = new_empty_set_like(lfp.self_val())?;
     for k in self_keys {
-        result
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
+        insert_elem(result, k, vm, globals)?;
     }
     for k in other_elems {
-        result
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
+        insert_elem(result, k, vm, globals)?;
     }
     Ok(result)
 }
@@ -573,8 +584,7 @@ fn difference(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
     let result = new_empty_set_like(self_val)?;
     for (k, _) in self_inner.iter() {
         if !other_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
+            insert_elem(result, k, vm, globals)?;
         }
     }
     Ok(result)
@@ -607,14 +617,12 @@ fn symmetric_difference(
     let result = new_empty_set_like(self_val)?;
     for (k, _) in self_inner.iter() {
         if !other_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
+            insert_elem(result, k, vm, globals)?;
         }
     }
     for (k, _) in other_inner.iter() {
         if !self_inner.contains_key(k, vm, globals)? {
-            result
-                .as_hash().insert(k, Value::bool(true), vm, globals)?;
+            insert_elem(result, k, vm, globals)?;
         }
     }
     Ok(result)
@@ -1077,8 +1085,7 @@ fn collect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         let n = vm.temp_at(new_elems_idx).as_array().len();
         for i in 0..n {
             let elem = vm.temp_at(new_elems_idx).as_array()[i];
-            self_val
-                .as_hash().insert(elem, Value::bool(true), vm, globals)?;
+            insert_elem(self_val, elem, vm, globals)?;
         }
         Ok(self_val)
     })
@@ -1118,8 +1125,7 @@ fn flatten_set_into(
             flatten_set_into(result, val, vm, globals, seen)?;
             seen.remove(&val.id());
         } else {
-            result
-                .as_hash().insert(val, Value::bool(true), vm, globals)?;
+            insert_elem(*result, val, vm, globals)?;
         }
     }
     Ok(())
@@ -1152,8 +1158,7 @@ fn flatten_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     self_val.as_hash().set_compare_by_identity_empty(false)?;
     let new_keys = set_keys(result);
     for k in new_keys {
-        self_val
-            .as_hash().insert(k, Value::bool(true), vm, globals)?;
+        insert_elem(self_val, k, vm, globals)?;
     }
     Ok(self_val)
 }
@@ -1225,11 +1230,11 @@ fn classify(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
             vm.temp_push(classification);
             let existing = result_hash.as_hashmap_inner().get(classification, vm, globals)?;
             if let Some(set) = existing {
-                set.as_hash().insert(k, Value::bool(true), vm, globals)?;
+                insert_elem(set, k, vm, globals)?;
             } else {
                 let new_set = new_empty_set();
                 vm.temp_push(new_set);
-                new_set.as_hash().insert(k, Value::bool(true), vm, globals)?;
+                insert_elem(new_set, k, vm, globals)?;
                 result_hash.as_hash().insert(classification, new_set, vm, globals)?;
             }
             vm.temp_clear(depth);
@@ -1360,7 +1365,7 @@ fn divide(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
                 let subset = set_from_iter(elems.into_iter(), vm, globals)?;
                 let depth = vm.temp_len();
                 vm.temp_push(subset);
-                result_set.as_hash().insert(subset, Value::bool(true), vm, globals)?;
+                insert_elem(result_set, subset, vm, globals)?;
                 vm.temp_clear(depth);
             }
             Ok(result_set)
@@ -1393,7 +1398,7 @@ fn divide(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
                     let subset = set_from_iter(elems.into_iter(), vm, globals)?;
                     let depth = vm.temp_len();
                     vm.temp_push(subset);
-                    result_set.as_hash().insert(subset, Value::bool(true), vm, globals)?;
+                    insert_elem(result_set, subset, vm, globals)?;
                     vm.temp_clear(depth);
                 }
             }
-- 
2.43.0


From 7304b5da2330ae9993df85dfb1168151406e933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:28:00 +0000
Subject: [PATCH 102/116] fix: keep equal but distinct elements when an
 identity Set is copied

---
 monoruby/src/builtins/set.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index a4c3c95..7487c16 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -424,10 +424,10 @@ fn set_inspect(
 #[monoruby_builtin]
 fn dup(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let keys = set_keys(lfp.self_val());
-    let new_set = set_from_iter(keys.into_iter(), vm, globals)?;
     // `compare_by_identity` persists across #dup / #clone.
-    if lfp.self_val().as_hash().is_compare_by_identity() {
-        new_set.as_hash().compare_by_identity(vm, globals)?;
+    let new_set = new_empty_set_like(lfp.self_val())?;
+    for k in keys {
+        insert_elem(new_set, k, vm, globals)?;
     }
     Ok(new_set)
 }
-- 
2.43.0


From 690ca51f6b0c4ff63caa13300c58801e25c85b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:28:00 +0000
Subject: [PATCH 103/116] fix: group Set#divide by eql? rather than by identity

---
 monoruby/src/builtins/set.rs | 38 ++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index 7487c16..16e22b1 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -1372,35 +1372,31 @@ fn divide(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         })
     } else {
         // Arity-1 mode: classify and return set of sets
-        let mut groups: std::collections::HashMap<u64, Vec<Value>> = std::collections::HashMap::new();
-        let mut group_order: Vec<u64> = Vec::new();
-        // The whole grouping runs inside one temp scope: each
-        // classification value is kept rooted so its identity (`id()`,
-        // the group key) can't be recycled by a GC for a later,
-        // different classification — under per-safepoint stress a freed
-        // result's address is reused almost immediately.
+        let groups = Value::hash_from_inner(Default::default());
+        // Root `groups` (which keeps the classifications and the subsets), the
+        // classification at hand, `result_set` and each freshly-built `subset`
+        // across the GC that the block or `insert` can trigger (see `classify`).
         vm.with_temp_scope(|vm| {
+            vm.temp_push(groups);
             for k in &keys {
                 let classification = vm.invoke_block(globals, &data, &[*k])?;
+                let depth = vm.temp_len();
                 vm.temp_push(classification);
-                let key = classification.id() as u64;
-                if !groups.contains_key(&key) {
-                    group_order.push(key);
+                let existing = groups.as_hashmap_inner().get(classification, vm, globals)?;
+                if let Some(subset) = existing {
+                    insert_elem(subset, *k, vm, globals)?;
+                } else {
+                    let subset = new_empty_set();
+                    vm.temp_push(subset);
+                    insert_elem(subset, *k, vm, globals)?;
+                    groups.as_hash().insert(classification, subset, vm, globals)?;
                 }
-                groups.entry(key).or_default().push(*k);
+                vm.temp_clear(depth);
             }
             let result_set = new_empty_set();
-            // Root `result_set` and each freshly-built `subset` across the GC
-            // that `set_from_iter` / `insert` can trigger (see `classify`).
             vm.temp_push(result_set);
-            for key in group_order {
-                if let Some(elems) = groups.remove(&key) {
-                    let subset = set_from_iter(elems.into_iter(), vm, globals)?;
-                    let depth = vm.temp_len();
-                    vm.temp_push(subset);
-                    insert_elem(result_set, subset, vm, globals)?;
-                    vm.temp_clear(depth);
-                }
+            for subset in groups.as_hash().values() {
+                insert_elem(result_set, subset, vm, globals)?;
             }
             Ok(result_set)
         })
-- 
2.43.0


From ed1011d9c6b2a373389b4248c85eaeba57e540ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:28:00 +0000
Subject: [PATCH 104/116] fix: pass on what an operand of Set#disjoint? and
 intersect? raises

---
 monoruby/src/builtins/set.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index 16e22b1..9d4d2cd 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -850,10 +850,7 @@ fn disjoint_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
             }
         }
     } else {
-        let elems = match enum_to_vec(vm, globals, other) {
-            Ok(v) => v,
-            Err(_) => return Err(MonorubyErr::argumenterr("value must be enumerable")),
-        };
+        let elems = enum_to_vec(vm, globals, other)?;
         let self_inner = self_val.as_hashmap_inner();
         for elem in elems {
             if self_inner.contains_key(elem, vm, globals)? {
@@ -892,10 +889,7 @@ fn intersect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr
             }
         }
     } else {
-        let elems = match enum_to_vec(vm, globals, other) {
-            Ok(v) => v,
-            Err(_) => return Err(MonorubyErr::argumenterr("value must be enumerable")),
-        };
+        let elems = enum_to_vec(vm, globals, other)?;
         let self_inner = self_val.as_hashmap_inner();
         for elem in elems {
             if self_inner.contains_key(elem, vm, globals)? {
-- 
2.43.0


From db2d839a36c9b9e444917dce44b6c06e8353b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:30:23 +0000
Subject: [PATCH 105/116] fix: keep what Set methods still need alive across
 their callbacks

---
 monoruby/src/builtins/set.rs | 761 +++++++++++++++++++----------------
 1 file changed, 411 insertions(+), 350 deletions(-)

diff --git a/monoruby/src/builtins/set.rs b/monoruby/src/builtins/set.rs
index 9d4d2cd..bb0a4ab 100644
--- a/monoruby/src/builtins/set.rs
+++ b/monoruby/src/builtins/set.rs
@@ -129,6 +129,7 @@ fn insert_elem(
         elem.frozen_hash_key()
     };
     vm.with_temp_scope(|vm| {
+        vm.temp_push(set);
         vm.temp_push(elem);
         set.as_hash().insert(elem, Value::bool(true), vm, globals)
     })
@@ -157,8 +158,28 @@ fn is_set(val: Value, store: &Store) -> bool {
     val.is_kind_of(store, SET_CLASS)
 }
 
-/// Convert an enumerable Value to a Vec of elements.
+/// Leave `vals` on the temp stack, so that they outlive what the set's blocks,
+/// `hash` and `eql?` do. The caller opens the temp scope.
+fn root_all(vm: &mut Executor, vals: &[Value]) {
+    vm.temp_array_new(vals.len());
+    vm.temp_array_extend_from_slice(vals);
+}
+
+/// The keys of a Set's internal hash, rooted as `root_all` does.
+fn rooted_keys(vm: &mut Executor, val: Value) -> Vec<Value> {
+    let keys = set_keys(val);
+    root_all(vm, &keys);
+    keys
+}
+
+/// Convert an enumerable Value to a Vec of elements, rooted as `root_all` does.
 fn enum_to_vec(vm: &mut Executor, globals: &mut Globals, val: Value) -> Result<Vec<Value>> {
+    let elems = enum_elems(vm, globals, val)?;
+    root_all(vm, &elems);
+    Ok(elems)
+}
+
+fn enum_elems(vm: &mut Executor, globals: &mut Globals, val: Value) -> Result<Vec<Value>> {
     if is_set(val, &globals.store) {
         return Ok(set_keys(val));
     }
@@ -368,15 +389,17 @@ fn each(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) ->
         }
         Some(block) => block,
     };
-    let self_val = lfp.self_val();
-    let inner = self_val.as_hashmap_inner();
-    let keys = inner.keys();
-    let data = vm.get_block_data(globals, bh)?;
-    let _iter_guard = inner.iter_guard();
-    for val in keys {
-        vm.invoke_block(globals, &data, &[val])?;
-    }
-    Ok(lfp.self_val())
+    vm.with_temp_scope(|vm| {
+        let self_val = lfp.self_val();
+        let inner = self_val.as_hashmap_inner();
+        let keys = rooted_keys(vm, self_val);
+        let data = vm.get_block_data(globals, bh)?;
+        let _iter_guard = inner.iter_guard();
+        for val in keys {
+            vm.invoke_block(globals, &data, &[val])?;
+        }
+        Ok(lfp.self_val())
+    })
 }
 
 ///
@@ -442,14 +465,16 @@ fn dup(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
 fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_val = lfp.self_val();
     self_val.ensure_not_frozen(&globals.store)?;
-    let args = lfp.arg(0).as_array();
-    for arg in args.iter().copied() {
-        let elems = enum_to_vec(vm, globals, arg)?;
-        for elem in elems {
-            insert_elem(self_val, elem, vm, globals)?;
+    vm.with_temp_scope(|vm| {
+        let args = lfp.arg(0).as_array();
+        for arg in args.iter().copied() {
+            let elems = enum_to_vec(vm, globals, arg)?;
+            for elem in elems {
+                insert_elem(self_val, elem, vm, globals)?;
+            }
         }
-    }
-    Ok(self_val)
+        Ok(self_val)
+    })
 }
 
 ///
@@ -462,11 +487,13 @@ fn merge(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn subtract(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_val = lfp.self_val();
     self_val.ensure_not_frozen(&globals.store)?;
-    let elems = enum_to_vec(vm, globals, lfp.arg(0))?;
-    for elem in elems {
-        self_val.as_hash().remove(elem, vm, globals)?;
-    }
-    Ok(self_val)
+    vm.with_temp_scope(|vm| {
+        let elems = enum_to_vec(vm, globals, lfp.arg(0))?;
+        for elem in elems {
+            self_val.as_hash().remove(elem, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -488,15 +515,17 @@ fn replace(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -
     } else {
         None
     };
-    let elems = enum_to_vec(vm, globals, arg)?;
-    self_val.as_hash().clear()?;
-    if let Some(ident) = ident {
-        self_val.as_hash().set_compare_by_identity_empty(ident)?;
-    }
-    for elem in elems {
-        insert_elem(self_val, elem, vm, globals)?;
-    }
-    Ok(self_val)
+    vm.with_temp_scope(|vm| {
+        let elems = enum_to_vec(vm, globals, arg)?;
+        self_val.as_hash().clear()?;
+        if let Some(ident) = ident {
+            self_val.as_hash().set_compare_by_identity_empty(ident)?;
+        }
+        for elem in elems {
+            insert_elem(self_val, elem, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -515,25 +544,29 @@ fn intersection(
 ) -> Result<Value> {
     let self_val = lfp.self_val();
     let self_inner = self_val.as_hashmap_inner();
-    let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
-    // Build a temp hash for the other side. It compares like `self` does, so
-    // the membership tests below follow `self`'s rule — CRuby probes the
-    // enum's elements against `self`'s own hash.
-    let other = new_empty_set_like(self_val)?;
-    for elem in other_elems {
-        other
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
-    let other_inner = other.as_hashmap_inner();
-    // `&` alone builds a *plain* result: CRuby allocates a fresh Set here
-    // rather than duplicating `self` (see `new_empty_set_like` at `-` / `^`).
-    let result = new_empty_set();
-    for (k, _) in self_inner.iter() {
-        if other_inner.contains_key(k, vm, globals)? {
-            insert_elem(result, k, vm, globals)?;
+    vm.with_temp_scope(|vm| {
+        let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
+        // Build a temp hash for the other side. It compares like `self` does, so
+        // the membership tests below follow `self`'s rule — CRuby probes the
+        // enum's elements against `self`'s own hash.
+        let other = new_empty_set_like(self_val)?;
+        vm.temp_push(other);
+        for elem in other_elems {
+            other
+                .as_hash().insert(elem, Value::bool(true), vm, globals)?;
         }
-    }
-    Ok(result)
+        let other_inner = other.as_hashmap_inner();
+        // `&` alone builds a *plain* result: CRuby allocates a fresh Set here
+        // rather than duplicating `self` (see `new_empty_set_like` at `-` / `^`).
+        let result = new_empty_set();
+        vm.temp_push(result);
+        for (k, _) in self_inner.iter() {
+            if other_inner.contains_key(k, vm, globals)? {
+                insert_elem(result, k, vm, globals)?;
+            }
+        }
+        Ok(result)
+    })
 }
 
 ///
@@ -546,18 +579,20 @@ fn intersection(
 /// [https://docs.ruby-lang.org/ja/latest/method/Set/i/=7c.html]
 #[monoruby_builtin]
 fn union_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let self_keys = set_keys(lfp.self_val());
-    let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
-    // CRuby builds `|` by duplicating `self` and merging the enum into it, so
-    // the result keeps `self`'s comparison mode (and the merge follows it).
-    let result = new_empty_set_like(lfp.self_val())?;
-    for k in self_keys {
-        insert_elem(result, k, vm, globals)?;
-    }
-    for k in other_elems {
-        insert_elem(result, k, vm, globals)?;
-    }
-    Ok(result)
+    vm.with_temp_scope(|vm| {
+        let self_keys = rooted_keys(vm, lfp.self_val());
+        let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
+        // CRuby builds `|` by duplicating `self` and merging the enum into it, so
+        // the result keeps `self`'s comparison mode (and the merge follows it).
+        let result = new_empty_set_like(lfp.self_val())?;
+        for k in self_keys {
+            insert_elem(result, k, vm, globals)?;
+        }
+        for k in other_elems {
+            insert_elem(result, k, vm, globals)?;
+        }
+        Ok(result)
+    })
 }
 
 ///
@@ -571,23 +606,27 @@ fn union_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
 fn difference(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let self_val = lfp.self_val();
     let self_inner = self_val.as_hashmap_inner();
-    let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
-    // CRuby builds `-` by duplicating `self` and deleting the enum's elements
-    // from it: the result keeps `self`'s comparison mode, and so do the
-    // deletions (hence the `_like` temp probed below).
-    let other = new_empty_set_like(self_val)?;
-    for elem in other_elems {
-        other
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
-    let other_inner = other.as_hashmap_inner();
-    let result = new_empty_set_like(self_val)?;
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            insert_elem(result, k, vm, globals)?;
+    vm.with_temp_scope(|vm| {
+        let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
+        // CRuby builds `-` by duplicating `self` and deleting the enum's elements
+        // from it: the result keeps `self`'s comparison mode, and so do the
+        // deletions (hence the `_like` temp probed below).
+        let other = new_empty_set_like(self_val)?;
+        vm.temp_push(other);
+        for elem in other_elems {
+            other
+                .as_hash().insert(elem, Value::bool(true), vm, globals)?;
         }
-    }
-    Ok(result)
+        let other_inner = other.as_hashmap_inner();
+        let result = new_empty_set_like(self_val)?;
+        vm.temp_push(result);
+        for (k, _) in self_inner.iter() {
+            if !other_inner.contains_key(k, vm, globals)? {
+                insert_elem(result, k, vm, globals)?;
+            }
+        }
+        Ok(result)
+    })
 }
 
 ///
@@ -605,27 +644,31 @@ fn symmetric_difference(
 ) -> Result<Value> {
     let self_val = lfp.self_val();
     let self_inner = self_val.as_hashmap_inner();
-    let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
-    // Both halves of the symmetric difference are probed with `self`'s
-    // comparison mode, and the result keeps it (as CRuby's `^` does).
-    let other = new_empty_set_like(self_val)?;
-    for elem in other_elems {
-        other
-            .as_hash().insert(elem, Value::bool(true), vm, globals)?;
-    }
-    let other_inner = other.as_hashmap_inner();
-    let result = new_empty_set_like(self_val)?;
-    for (k, _) in self_inner.iter() {
-        if !other_inner.contains_key(k, vm, globals)? {
-            insert_elem(result, k, vm, globals)?;
+    vm.with_temp_scope(|vm| {
+        let other_elems = enum_to_vec(vm, globals, lfp.arg(0))?;
+        // Both halves of the symmetric difference are probed with `self`'s
+        // comparison mode, and the result keeps it (as CRuby's `^` does).
+        let other = new_empty_set_like(self_val)?;
+        vm.temp_push(other);
+        for elem in other_elems {
+            other
+                .as_hash().insert(elem, Value::bool(true), vm, globals)?;
         }
-    }
-    for (k, _) in other_inner.iter() {
-        if !self_inner.contains_key(k, vm, globals)? {
-            insert_elem(result, k, vm, globals)?;
+        let other_inner = other.as_hashmap_inner();
+        let result = new_empty_set_like(self_val)?;
+        vm.temp_push(result);
+        for (k, _) in self_inner.iter() {
+            if !other_inner.contains_key(k, vm, globals)? {
+                insert_elem(result, k, vm, globals)?;
+            }
         }
-    }
-    Ok(result)
+        for (k, _) in other_inner.iter() {
+            if !self_inner.contains_key(k, vm, globals)? {
+                insert_elem(result, k, vm, globals)?;
+            }
+        }
+        Ok(result)
+    })
 }
 
 ///
@@ -830,35 +873,37 @@ fn spaceship(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
 /// [https://docs.ruby-lang.org/ja/latest/method/Set/i/disjoint=3f.html]
 #[monoruby_builtin]
 fn disjoint_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let self_val = lfp.self_val();
-    let self_inner = self_val.as_hashmap_inner();
-    let other = lfp.arg(0);
-
-    if is_set(other, &globals.store) {
-        let other_inner = other.as_hashmap_inner();
-        if self_inner.len() <= other_inner.len() {
-            for (k, _) in self_inner.iter() {
-                if other_inner.contains_key(k, vm, globals)? {
-                    return Ok(Value::bool(false));
+    vm.with_temp_scope(|vm| {
+        let self_val = lfp.self_val();
+        let self_inner = self_val.as_hashmap_inner();
+        let other = lfp.arg(0);
+
+        if is_set(other, &globals.store) {
+            let other_inner = other.as_hashmap_inner();
+            if self_inner.len() <= other_inner.len() {
+                for (k, _) in self_inner.iter() {
+                    if other_inner.contains_key(k, vm, globals)? {
+                        return Ok(Value::bool(false));
+                    }
+                }
+            } else {
+                for (k, _) in other_inner.iter() {
+                    if self_inner.contains_key(k, vm, globals)? {
+                        return Ok(Value::bool(false));
+                    }
                 }
             }
         } else {
-            for (k, _) in other_inner.iter() {
-                if self_inner.contains_key(k, vm, globals)? {
+            let elems = enum_to_vec(vm, globals, other)?;
+            let self_inner = self_val.as_hashmap_inner();
+            for elem in elems {
+                if self_inner.contains_key(elem, vm, globals)? {
                     return Ok(Value::bool(false));
                 }
             }
         }
-    } else {
-        let elems = enum_to_vec(vm, globals, other)?;
-        let self_inner = self_val.as_hashmap_inner();
-        for elem in elems {
-            if self_inner.contains_key(elem, vm, globals)? {
-                return Ok(Value::bool(false));
-            }
-        }
-    }
-    Ok(Value::bool(true))
+        Ok(Value::bool(true))
+    })
 }
 
 ///
@@ -869,35 +914,37 @@ fn disjoint_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
 /// [https://docs.ruby-lang.org/ja/latest/method/Set/i/intersect=3f.html]
 #[monoruby_builtin]
 fn intersect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
-    let self_val = lfp.self_val();
-    let self_inner = self_val.as_hashmap_inner();
-    let other = lfp.arg(0);
-
-    if is_set(other, &globals.store) {
-        let other_inner = other.as_hashmap_inner();
-        if self_inner.len() <= other_inner.len() {
-            for (k, _) in self_inner.iter() {
-                if other_inner.contains_key(k, vm, globals)? {
-                    return Ok(Value::bool(true));
+    vm.with_temp_scope(|vm| {
+        let self_val = lfp.self_val();
+        let self_inner = self_val.as_hashmap_inner();
+        let other = lfp.arg(0);
+
+        if is_set(other, &globals.store) {
+            let other_inner = other.as_hashmap_inner();
+            if self_inner.len() <= other_inner.len() {
+                for (k, _) in self_inner.iter() {
+                    if other_inner.contains_key(k, vm, globals)? {
+                        return Ok(Value::bool(true));
+                    }
+                }
+            } else {
+                for (k, _) in other_inner.iter() {
+                    if self_inner.contains_key(k, vm, globals)? {
+                        return Ok(Value::bool(true));
+                    }
                 }
             }
         } else {
-            for (k, _) in other_inner.iter() {
-                if self_inner.contains_key(k, vm, globals)? {
+            let elems = enum_to_vec(vm, globals, other)?;
+            let self_inner = self_val.as_hashmap_inner();
+            for elem in elems {
+                if self_inner.contains_key(elem, vm, globals)? {
                     return Ok(Value::bool(true));
                 }
             }
         }
-    } else {
-        let elems = enum_to_vec(vm, globals, other)?;
-        let self_inner = self_val.as_hashmap_inner();
-        for elem in elems {
-            if self_inner.contains_key(elem, vm, globals)? {
-                return Ok(Value::bool(true));
-            }
-        }
-    }
-    Ok(Value::bool(false))
+        Ok(Value::bool(false))
+    })
 }
 
 ///
@@ -917,20 +964,22 @@ fn delete_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr
         Some(block) => block,
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    let keys = set_keys(lfp.self_val());
-    let data = vm.get_block_data(globals, bh)?;
-    let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
+        let data = vm.get_block_data(globals, bh)?;
+        let mut to_delete = vec![];
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
-    let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
-    Ok(self_val)
+        let self_val = lfp.self_val();
+        for val in to_delete {
+            self_val.as_hash().remove(val, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -950,20 +999,22 @@ fn keep_if(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         Some(block) => block,
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    let keys = set_keys(lfp.self_val());
-    let data = vm.get_block_data(globals, bh)?;
-    let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if !result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
+        let data = vm.get_block_data(globals, bh)?;
+        let mut to_delete = vec![];
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if !result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
-    let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
-    Ok(self_val)
+        let self_val = lfp.self_val();
+        for val in to_delete {
+            self_val.as_hash().remove(val, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -985,23 +1036,25 @@ fn select_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         Some(block) => block,
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    let keys = set_keys(lfp.self_val());
-    let data = vm.get_block_data(globals, bh)?;
-    let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if !result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
+        let data = vm.get_block_data(globals, bh)?;
+        let mut to_delete = vec![];
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if !result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
-    if to_delete.is_empty() {
-        return Ok(Value::nil());
-    }
-    let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
-    Ok(self_val)
+        if to_delete.is_empty() {
+            return Ok(Value::nil());
+        }
+        let self_val = lfp.self_val();
+        for val in to_delete {
+            self_val.as_hash().remove(val, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -1021,23 +1074,25 @@ fn reject_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         Some(block) => block,
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    let keys = set_keys(lfp.self_val());
-    let data = vm.get_block_data(globals, bh)?;
-    let mut to_delete = vec![];
-    for val in keys {
-        let result = vm.invoke_block(globals, &data, &[val])?;
-        if result.as_bool() {
-            to_delete.push(val);
+    vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
+        let data = vm.get_block_data(globals, bh)?;
+        let mut to_delete = vec![];
+        for val in keys {
+            let result = vm.invoke_block(globals, &data, &[val])?;
+            if result.as_bool() {
+                to_delete.push(val);
+            }
         }
-    }
-    if to_delete.is_empty() {
-        return Ok(Value::nil());
-    }
-    let self_val = lfp.self_val();
-    for val in to_delete {
-        self_val.as_hash().remove(val, vm, globals)?;
-    }
-    Ok(self_val)
+        if to_delete.is_empty() {
+            return Ok(Value::nil());
+        }
+        let self_val = lfp.self_val();
+        for val in to_delete {
+            self_val.as_hash().remove(val, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -1059,9 +1114,9 @@ fn collect_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         Some(block) => block,
     };
     lfp.self_val().ensure_not_frozen(&globals.store)?;
-    let keys = set_keys(lfp.self_val());
     let data = vm.get_block_data(globals, bh)?;
     vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
         // Block return values are freshly allocated; stash them in a GC-rooted
         // Array on the temp_stack so they survive both the collection loop
         // and the subsequent insert loop (which calls Ruby-level .hash/.eql?).
@@ -1144,17 +1199,19 @@ fn flatten_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     let mut seen = std::collections::HashSet::new();
     seen.insert(self_val.id());
     flatten_set_into(&mut result, self_val, vm, globals, &mut seen)?;
-    // Replace self's contents. As with `map!`, CRuby swaps in the freshly
-    // built (plain) Set, so the flag is dropped — but only on this path: an
-    // already-flat Set returned early above and keeps its flag.
-    let self_val = lfp.self_val();
-    self_val.as_hash().clear()?;
-    self_val.as_hash().set_compare_by_identity_empty(false)?;
-    let new_keys = set_keys(result);
-    for k in new_keys {
-        insert_elem(self_val, k, vm, globals)?;
-    }
-    Ok(self_val)
+    vm.with_temp_scope(|vm| {
+        // Replace self's contents. As with `map!`, CRuby swaps in the freshly
+        // built (plain) Set, so the flag is dropped — but only on this path: an
+        // already-flat Set returned early above and keeps its flag.
+        let self_val = lfp.self_val();
+        self_val.as_hash().clear()?;
+        self_val.as_hash().set_compare_by_identity_empty(false)?;
+        let new_keys = rooted_keys(vm, result);
+        for k in new_keys {
+            insert_elem(self_val, k, vm, globals)?;
+        }
+        Ok(self_val)
+    })
 }
 
 ///
@@ -1174,20 +1231,22 @@ fn join(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     } else {
         String::new()
     };
-    let keys = set_keys(lfp.self_val());
-    let mut result = String::new();
-    for (i, k) in keys.iter().enumerate() {
-        if i > 0 {
-            result.push_str(&sep);
-        }
-        let s_val = vm.invoke_method_inner(globals, IdentId::TO_S, *k, &[], None, None)?;
-        if let Some(s) = s_val.is_str() {
-            result.push_str(s);
-        } else {
-            result.push_str(&s_val.to_s(&globals.store));
+    vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
+        let mut result = String::new();
+        for (i, k) in keys.iter().enumerate() {
+            if i > 0 {
+                result.push_str(&sep);
+            }
+            let s_val = vm.invoke_method_inner(globals, IdentId::TO_S, *k, &[], None, None)?;
+            if let Some(s) = s_val.is_str() {
+                result.push_str(s);
+            } else {
+                result.push_str(&s_val.to_s(&globals.store));
+            }
         }
-    }
-    Ok(Value::string(result))
+        Ok(Value::string(result))
+    })
 }
 
 ///
@@ -1207,7 +1266,6 @@ fn classify(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
         Some(block) => block,
     };
     let data = vm.get_block_data(globals, bh)?;
-    let keys = set_keys(lfp.self_val());
     // Result is a Hash mapping classification → Set
     let result_hash = Value::hash_from_inner(Default::default());
     // `result_hash`, the per-iteration block result, and any freshly-built
@@ -1218,6 +1276,7 @@ fn classify(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr)
     // `RValue::ty()` unwrap-on-`None` panic (a swept, dead RVALUE).
     vm.with_temp_scope(|vm| {
         vm.temp_push(result_hash);
+        let keys = rooted_keys(vm, lfp.self_val());
         for k in keys {
             let classification = vm.invoke_block(globals, &data, &[k])?;
             let depth = vm.temp_len();
@@ -1255,146 +1314,148 @@ fn divide(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -
         Some(block) => block,
     };
     let data = vm.get_block_data(globals, bh)?;
-    let keys = set_keys(lfp.self_val());
-
-    // Check block arity to determine mode.
-    //
-    // When `divide` is driven through its own no-block Enumerator
-    // (`set.divide` then `.each { |a, b| ... }`), the block it receives
-    // is the internal enumerator yielder proc, not the user's block, so
-    // its declared arity is meaningless here. `Enumerator#each` records
-    // the real user-block arity on `Globals`; use that instead.
-    let arity = if data.func_id() == Some(crate::globals::YIELDER_FUNCID) {
-        globals.current_enum_block_arity().unwrap_or(1)
-    } else if let Some(fid) = data.func_id() {
-        globals[fid].arity()
-    } else {
-        1
-    };
-    if arity == 2 {
-        // Arity-2 mode: group elements by strongly-connected components
-        // of the directed graph with edge i->j iff block(keys[i], keys[j])
-        // returns truthy. Block is called for every ordered pair (i, j)
-        // where i != j.
-        let n = keys.len();
-        let mut adj: Vec<Vec<usize>> = vec![Vec::new(); n];
-        for i in 0..n {
-            for j in 0..n {
-                if i == j {
-                    continue;
-                }
-                let result = vm.invoke_block(globals, &data, &[keys[i], keys[j]])?;
-                if result.as_bool() {
-                    adj[i].push(j);
+    vm.with_temp_scope(|vm| {
+        let keys = rooted_keys(vm, lfp.self_val());
+
+        // Check block arity to determine mode.
+        //
+        // When `divide` is driven through its own no-block Enumerator
+        // (`set.divide` then `.each { |a, b| ... }`), the block it receives
+        // is the internal enumerator yielder proc, not the user's block, so
+        // its declared arity is meaningless here. `Enumerator#each` records
+        // the real user-block arity on `Globals`; use that instead.
+        let arity = if data.func_id() == Some(crate::globals::YIELDER_FUNCID) {
+            globals.current_enum_block_arity().unwrap_or(1)
+        } else if let Some(fid) = data.func_id() {
+            globals[fid].arity()
+        } else {
+            1
+        };
+        if arity == 2 {
+            // Arity-2 mode: group elements by strongly-connected components
+            // of the directed graph with edge i->j iff block(keys[i], keys[j])
+            // returns truthy. Block is called for every ordered pair (i, j)
+            // where i != j.
+            let n = keys.len();
+            let mut adj: Vec<Vec<usize>> = vec![Vec::new(); n];
+            for i in 0..n {
+                for j in 0..n {
+                    if i == j {
+                        continue;
+                    }
+                    let result = vm.invoke_block(globals, &data, &[keys[i], keys[j]])?;
+                    if result.as_bool() {
+                        adj[i].push(j);
+                    }
                 }
             }
-        }
-        // Tarjan's SCC
-        let mut index_counter: usize = 0;
-        let mut stack: Vec<usize> = Vec::new();
-        let mut on_stack: Vec<bool> = vec![false; n];
-        let mut idx: Vec<Option<usize>> = vec![None; n];
-        let mut low: Vec<usize> = vec![0; n];
-        let mut sccs: Vec<Vec<usize>> = Vec::new();
-        // Iterative Tarjan to avoid stack overflow on large sets.
-        enum Step { Enter(usize), Resume(usize, usize) }
-        for start in 0..n {
-            if idx[start].is_some() {
-                continue;
-            }
-            let mut work: Vec<Step> = vec![Step::Enter(start)];
-            while let Some(step) = work.pop() {
-                match step {
-                    Step::Enter(v) => {
-                        idx[v] = Some(index_counter);
-                        low[v] = index_counter;
-                        index_counter += 1;
-                        stack.push(v);
-                        on_stack[v] = true;
-                        work.push(Step::Resume(v, 0));
-                    }
-                    Step::Resume(v, i) => {
-                        if i < adj[v].len() {
-                            let w = adj[v][i];
-                            work.push(Step::Resume(v, i + 1));
-                            if idx[w].is_none() {
-                                work.push(Step::Enter(w));
-                            } else if on_stack[w] {
-                                if let Some(wi) = idx[w] {
-                                    if wi < low[v] {
-                                        low[v] = wi;
+            // Tarjan's SCC
+            let mut index_counter: usize = 0;
+            let mut stack: Vec<usize> = Vec::new();
+            let mut on_stack: Vec<bool> = vec![false; n];
+            let mut idx: Vec<Option<usize>> = vec![None; n];
+            let mut low: Vec<usize> = vec![0; n];
+            let mut sccs: Vec<Vec<usize>> = Vec::new();
+            // Iterative Tarjan to avoid stack overflow on large sets.
+            enum Step { Enter(usize), Resume(usize, usize) }
+            for start in 0..n {
+                if idx[start].is_some() {
+                    continue;
+                }
+                let mut work: Vec<Step> = vec![Step::Enter(start)];
+                while let Some(step) = work.pop() {
+                    match step {
+                        Step::Enter(v) => {
+                            idx[v] = Some(index_counter);
+                            low[v] = index_counter;
+                            index_counter += 1;
+                            stack.push(v);
+                            on_stack[v] = true;
+                            work.push(Step::Resume(v, 0));
+                        }
+                        Step::Resume(v, i) => {
+                            if i < adj[v].len() {
+                                let w = adj[v][i];
+                                work.push(Step::Resume(v, i + 1));
+                                if idx[w].is_none() {
+                                    work.push(Step::Enter(w));
+                                } else if on_stack[w] {
+                                    if let Some(wi) = idx[w] {
+                                        if wi < low[v] {
+                                            low[v] = wi;
+                                        }
                                     }
                                 }
-                            }
-                        } else {
-                            // Propagate low from children that have returned.
-                            for &w in &adj[v] {
-                                if on_stack[w] && low[w] < low[v] {
-                                    low[v] = low[w];
+                            } else {
+                                // Propagate low from children that have returned.
+                                for &w in &adj[v] {
+                                    if on_stack[w] && low[w] < low[v] {
+                                        low[v] = low[w];
+                                    }
                                 }
-                            }
-                            if Some(low[v]) == idx[v] {
-                                let mut comp = Vec::new();
-                                while let Some(w) = stack.pop() {
-                                    on_stack[w] = false;
-                                    comp.push(w);
-                                    if w == v {
-                                        break;
+                                if Some(low[v]) == idx[v] {
+                                    let mut comp = Vec::new();
+                                    while let Some(w) = stack.pop() {
+                                        on_stack[w] = false;
+                                        comp.push(w);
+                                        if w == v {
+                                            break;
+                                        }
                                     }
+                                    sccs.push(comp);
                                 }
-                                sccs.push(comp);
                             }
                         }
                     }
                 }
             }
-        }
-        let result_set = new_empty_set();
-        // Root `result_set` and each freshly-built `subset` across the GC that
-        // `set_from_iter` / `insert` can trigger (see `classify`).
-        vm.with_temp_scope(|vm| {
-            vm.temp_push(result_set);
-            for comp in sccs {
-                let elems: Vec<Value> = comp.into_iter().map(|i| keys[i]).collect();
-                let subset = set_from_iter(elems.into_iter(), vm, globals)?;
-                let depth = vm.temp_len();
-                vm.temp_push(subset);
-                insert_elem(result_set, subset, vm, globals)?;
-                vm.temp_clear(depth);
-            }
-            Ok(result_set)
-        })
-    } else {
-        // Arity-1 mode: classify and return set of sets
-        let groups = Value::hash_from_inner(Default::default());
-        // Root `groups` (which keeps the classifications and the subsets), the
-        // classification at hand, `result_set` and each freshly-built `subset`
-        // across the GC that the block or `insert` can trigger (see `classify`).
-        vm.with_temp_scope(|vm| {
-            vm.temp_push(groups);
-            for k in &keys {
-                let classification = vm.invoke_block(globals, &data, &[*k])?;
-                let depth = vm.temp_len();
-                vm.temp_push(classification);
-                let existing = groups.as_hashmap_inner().get(classification, vm, globals)?;
-                if let Some(subset) = existing {
-                    insert_elem(subset, *k, vm, globals)?;
-                } else {
-                    let subset = new_empty_set();
+            let result_set = new_empty_set();
+            // Root `result_set` and each freshly-built `subset` across the GC that
+            // `set_from_iter` / `insert` can trigger (see `classify`).
+            vm.with_temp_scope(|vm| {
+                vm.temp_push(result_set);
+                for comp in sccs {
+                    let elems: Vec<Value> = comp.into_iter().map(|i| keys[i]).collect();
+                    let subset = set_from_iter(elems.into_iter(), vm, globals)?;
+                    let depth = vm.temp_len();
                     vm.temp_push(subset);
-                    insert_elem(subset, *k, vm, globals)?;
-                    groups.as_hash().insert(classification, subset, vm, globals)?;
+                    insert_elem(result_set, subset, vm, globals)?;
+                    vm.temp_clear(depth);
                 }
-                vm.temp_clear(depth);
-            }
-            let result_set = new_empty_set();
-            vm.temp_push(result_set);
-            for subset in groups.as_hash().values() {
-                insert_elem(result_set, subset, vm, globals)?;
-            }
-            Ok(result_set)
-        })
-    }
+                Ok(result_set)
+            })
+        } else {
+            // Arity-1 mode: classify and return set of sets
+            let groups = Value::hash_from_inner(Default::default());
+            // Root `groups` (which keeps the classifications and the subsets), the
+            // classification at hand, `result_set` and each freshly-built `subset`
+            // across the GC that the block or `insert` can trigger (see `classify`).
+            vm.with_temp_scope(|vm| {
+                vm.temp_push(groups);
+                for k in &keys {
+                    let classification = vm.invoke_block(globals, &data, &[*k])?;
+                    let depth = vm.temp_len();
+                    vm.temp_push(classification);
+                    let existing = groups.as_hashmap_inner().get(classification, vm, globals)?;
+                    if let Some(subset) = existing {
+                        insert_elem(subset, *k, vm, globals)?;
+                    } else {
+                        let subset = new_empty_set();
+                        vm.temp_push(subset);
+                        insert_elem(subset, *k, vm, globals)?;
+                        groups.as_hash().insert(classification, subset, vm, globals)?;
+                    }
+                    vm.temp_clear(depth);
+                }
+                let result_set = new_empty_set();
+                vm.temp_push(result_set);
+                for subset in groups.as_hash().values() {
+                    insert_elem(result_set, subset, vm, globals)?;
+                }
+                Ok(result_set)
+            })
+        }
+    })
 }
 
 ///
-- 
2.43.0


From 662d9fa56cab5fe3f850409c5e5866a6564cab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:08:40 +0000
Subject: [PATCH 106/116] fix: count and compute terms of exact arithmetic
 sequences without floats

Sequences with an Integer beyond the immediate range were counted and
computed in floats, so the terms came out as Floats and the size could be
wrong. The size of Rational sequences was a rounded quotient, which loses
a term where the last one lies on the end.
---
 monoruby/src/builtins/arithmetic_sequence.rs | 49 +++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/arithmetic_sequence.rs b/monoruby/src/builtins/arithmetic_sequence.rs
index 26b5783..aa5154d 100644
--- a/monoruby/src/builtins/arithmetic_sequence.rs
+++ b/monoruby/src/builtins/arithmetic_sequence.rs
@@ -292,11 +292,13 @@ fn term_at(b: Value, i: i64, s: Value) -> Option<Value> {
             })
         }
         // Float-involved: arithmetic in f64.
-        _ => {
+        (RV::Float(_), _) | (_, RV::Float(_)) => {
             let b_f = to_f64(b)?;
             let s_f = to_f64(s)?;
             Some(Value::float(b_f + (i as f64) * s_f))
         }
+        // BigInt and the other exact numbers: left to `+` / `*`.
+        _ => None,
     }
 }
 
@@ -332,6 +334,11 @@ fn finite_count(
         return Ok(fixnum_count(b_i, e_i, s_i, excl));
     }
 
+    // ── Integers of any size ────────────────────────────────────
+    if let (Some(b), Some(e), Some(s)) = (to_bigint(b), to_bigint(e), to_bigint(s)) {
+        return Ok(bigint_count(b, e, s, excl));
+    }
+
     // ── Float-involved fast path ────────────────────────────────
     // (Catches the e == Float::INFINITY case before generic dispatch.)
     if let (Some(b_f), Some(e_f), Some(s_f)) = (to_f64(b), to_f64(e), to_f64(s)) {
@@ -376,6 +383,32 @@ fn fixnum_count(b: i64, e: i64, s: i64, excl: bool) -> Count {
     }
 }
 
+/// An Integer of any size as BigInt. None for anything else.
+fn to_bigint(v: Value) -> Option<BigInt> {
+    match v.unpack() {
+        RV::Fixnum(i) => Some(BigInt::from(i)),
+        RV::BigInt(b) => Some(b.clone()),
+        _ => None,
+    }
+}
+
+/// `fixnum_count` without the bounds of i64.
+fn bigint_count(b: BigInt, e: BigInt, s: BigInt, excl: bool) -> Count {
+    let zero = BigInt::from(0);
+    let diff = e - b;
+    if (s > zero && diff < zero) || (s < zero && diff > zero) {
+        return Count::Finite(0);
+    }
+    let n = &diff / &s; // same sign ⇒ trunc == floor
+    let ends_on_e = &n * &s == diff;
+    let n = n.to_i64().unwrap_or(i64::MAX);
+    Count::Finite(if excl && ends_on_e {
+        n
+    } else {
+        n.saturating_add(1)
+    })
+}
+
 fn float_count(b: f64, e: f64, s: f64, excl: bool) -> Count {
     if s.is_infinite() {
         let ok = if s > 0.0 {
@@ -447,6 +480,20 @@ fn generic_count(
         return Ok(Count::Infinite);
     }
     let mut n_int = nf.floor() as i64;
+    // The quotient is rounded: see whether one more, or one less, term fits.
+    if nf > 0.0 {
+        let cmp_op = if s_pos { IdentId::_LE } else { IdentId::_GE };
+        for n in [n_int.saturating_add(1), n_int, n_int - 1] {
+            let last_v = term_at_generic(vm, globals, b, n, s)?;
+            let fits = vm
+                .invoke_method_inner(globals, cmp_op, last_v, &[e], None, None)?
+                .as_bool();
+            if fits {
+                n_int = n;
+                break;
+            }
+        }
+    }
     if excl {
         let last_v = term_at_generic(vm, globals, b, n_int, s)?;
         let cmp_op = if s_pos { IdentId::_GE } else { IdentId::_LE };
-- 
2.43.0


From 257fc11aee7613090bcaa99bdace690c18100acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:08:40 +0000
Subject: [PATCH 107/116] fix: answer nil for the first term of an empty
 arithmetic sequence

---
 monoruby/src/builtins/arithmetic_sequence.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/arithmetic_sequence.rs b/monoruby/src/builtins/arithmetic_sequence.rs
index aa5154d..7ea7d49 100644
--- a/monoruby/src/builtins/arithmetic_sequence.rs
+++ b/monoruby/src/builtins/arithmetic_sequence.rs
@@ -575,8 +575,19 @@ fn first(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     let (b, e, s, excl) = unpack_as(lfp.self_val());
     let arg = lfp.try_arg(0);
     let Some(n_arg) = arg else {
-        // No arg: just return begin (matches Enumerator#first for AS).
-        return Ok(b);
+        // No arg: begin, unless it already lies beyond the end.
+        if b.is_nil() || e.is_nil() || value_is_zero(s) || !value_is_numeric(globals, s) {
+            return Ok(b);
+        }
+        let zero = Value::integer(0);
+        let s_pos = vm
+            .invoke_method_inner(globals, IdentId::_GT, s, &[zero], None, None)?
+            .as_bool();
+        let cmp_op = if s_pos { IdentId::_GT } else { IdentId::_LT };
+        let beyond = vm
+            .invoke_method_inner(globals, cmp_op, b, &[e], None, None)?
+            .as_bool();
+        return Ok(if beyond { Value::nil() } else { b });
     };
     let n = n_arg.coerce_to_int_i64(vm, globals)?;
     if n < 0 {
-- 
2.43.0


From 6d46ccca237f06a60d75f35f0282e43ce098201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:32:12 +0000
Subject: [PATCH 108/116] fix: refuse a negative base in Math.log and take
 large ones exactly

A negative base gave NaN instead of Math::DomainError, and an Integer base
beyond the range of Float was taken as Infinity.
---
 monoruby/src/builtins/math.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/monoruby/src/builtins/math.rs b/monoruby/src/builtins/math.rs
index 4db3f8b..c003ef4 100644
--- a/monoruby/src/builtins/math.rs
+++ b/monoruby/src/builtins/math.rs
@@ -192,6 +192,20 @@ fn tan(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     Ok(Value::float(f.tan()))
 }
 
+/// Natural logarithm of the base given to `Math.log`.
+fn log_base_ln(vm: &mut Executor, globals: &mut Globals, base: Value) -> Result<f64> {
+    let base_f = coerce_to_f64(vm, globals, base)?;
+    if base_f < 0.0 {
+        return Err(numerical_argument_out_of_domain_err(globals, "log"));
+    }
+    if let RV::BigInt(b) = base.unpack() {
+        let shift = b.bits().saturating_sub(53);
+        let top_f = (b >> shift).to_f64().unwrap_or(1.0);
+        return Ok(top_f.ln() + (shift as f64) * std::f64::consts::LN_2);
+    }
+    Ok(base_f.ln())
+}
+
 /// ### Math.#log
 /// - log(x) -> Float
 /// - log(x, base) -> Float
@@ -210,8 +224,8 @@ fn log(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         let top_f = top.to_f64().unwrap_or(1.0);
         let result = top_f.ln() + (shift as f64) * std::f64::consts::LN_2;
         if let Some(base) = lfp.try_arg(1) {
-            let base_f = coerce_to_f64(vm, globals, base)?;
-            return Ok(Value::float(result / base_f.ln()));
+            let base_ln = log_base_ln(vm, globals, base)?;
+            return Ok(Value::float(result / base_ln));
         }
         return Ok(Value::float(result));
     } else {
@@ -224,8 +238,7 @@ fn log(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
         return Err(numerical_argument_out_of_domain_err(globals, "log"));
     }
     let result = if let Some(base) = lfp.try_arg(1) {
-        let b = coerce_to_f64(vm, globals, base)?;
-        f.log(b)
+        f.ln() / log_base_ln(vm, globals, base)?
     } else {
         f.ln()
     };
-- 
2.43.0


From 7544ccc580c8d826b7fe22f0fdcf704d470a5515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:32:12 +0000
Subject: [PATCH 109/116] fix: refuse exponents of Math.ldexp that do not fit
 instead of wrapping them

---
 monoruby/src/builtins/math.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/math.rs b/monoruby/src/builtins/math.rs
index c003ef4..ae8be36 100644
--- a/monoruby/src/builtins/math.rs
+++ b/monoruby/src/builtins/math.rs
@@ -588,6 +588,16 @@ fn hypot(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     Ok(Value::float(x.hypot(y)))
 }
 
+/// The exponent given to `Math.ldexp` as C int.
+fn ldexp_exponent(i: i64) -> Result<i32> {
+    i32::try_from(i).map_err(|_| {
+        MonorubyErr::rangeerr(format!(
+            "integer {i} too {} to convert to 'int'",
+            if i < 0 { "small" } else { "big" }
+        ))
+    })
+}
+
 /// ### Math.#ldexp
 /// - ldexp(x, exp) -> Float
 ///
@@ -603,7 +613,7 @@ fn ldexp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         return Err(MonorubyErr::typeerr("can't convert nil into Integer"));
     } else {
         match exp_val.unpack() {
-            RV::Fixnum(i) => i as i32,
+            RV::Fixnum(i) => ldexp_exponent(i)?,
             RV::Float(f) => {
                 if f.is_nan() {
                     return Err(MonorubyErr::rangeerr("float NaN out of range of integer"));
@@ -635,7 +645,7 @@ fn ldexp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
                 if let Some(fid) = globals.check_method(exp_val, to_int_id) {
                     let result = vm.invoke_func_inner(globals, fid, exp_val, &[], None, None)?;
                     match result.unpack() {
-                        RV::Fixnum(i) => i as i32,
+                        RV::Fixnum(i) => ldexp_exponent(i)?,
                         _ => {
                             return Err(MonorubyErr::cant_convert_into_float(globals, exp_val));
                         }
-- 
2.43.0


From d07539bf2b0b78e7f0ec315121b05a6f1da54ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:37:23 +0000
Subject: [PATCH 110/116] fix: count the range over all immediate integers
 without overflow

---
 monoruby/src/builtins/range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/range.rs b/monoruby/src/builtins/range.rs
index a952ba5..c6d4284 100644
--- a/monoruby/src/builtins/range.rs
+++ b/monoruby/src/builtins/range.rs
@@ -923,8 +923,12 @@ fn count(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
         }
         // For integer ranges, calculate directly
         if let Some((s, e)) = range.try_fixnum() {
-            let count = if e > s { e - s } else { 0 };
-            Ok(Value::integer(count))
+            let count = if e > s {
+                num::BigInt::from(e) - num::BigInt::from(s)
+            } else {
+                num::BigInt::from(0)
+            };
+            Ok(Value::bigint(count))
         } else {
             // For non-integer finite ranges, fall back to iteration
             Err(MonorubyErr::runtimeerr("not supported"))
-- 
2.43.0


From 460ae56396dff35315ab73a37c7a02b892d2d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:03:24 +0000
Subject: [PATCH 111/116] fix: Rational#!= agrees with == for large Integers
 and other objects

---
 monoruby/src/builtins/numeric/rational.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/monoruby/src/builtins/numeric/rational.rs b/monoruby/src/builtins/numeric/rational.rs
index f8d34db..2fbbd13 100644
--- a/monoruby/src/builtins/numeric/rational.rs
+++ b/monoruby/src/builtins/numeric/rational.rs
@@ -143,7 +143,7 @@ fn eq(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Res
 }
 
 #[monoruby_builtin]
-fn ne(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
+fn ne(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Result<Value> {
     let lhs = self_rat(lfp);
     let rhs = lfp.arg(0);
     if let Some(r) = rhs.try_rational() {
@@ -153,8 +153,17 @@ fn ne(_vm: &mut Executor, _globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
         RV::Fixnum(i) => Ok(Value::bool(
             !(lhs.den() == &BigInt::from(1) && lhs.num() == &BigInt::from(i)),
         )),
+        RV::BigInt(b) => Ok(Value::bool(
+            !(lhs.den() == &BigInt::from(1) && lhs.num() == b),
+        )),
         RV::Float(f) => Ok(Value::bool(lhs.to_f() != f)),
-        _ => Ok(Value::bool(true)),
+        _ => {
+            // Reverse dispatch, as in `==`.
+            let eq_id = IdentId::_EQ;
+            let result =
+                vm.invoke_method_inner(globals, eq_id, rhs, &[lfp.self_val()], None, None)?;
+            Ok(Value::bool(!result.as_bool()))
+        }
     }
 }
 
-- 
2.43.0


From cd01fb2f4a6d4a56bbc9aa875480a5ea967629c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:03:24 +0000
Subject: [PATCH 112/116] fix: refuse exponents of Rational#** that do not fit
 instead of wrapping them

---
 monoruby/src/builtins/numeric/rational.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/numeric/rational.rs b/monoruby/src/builtins/numeric/rational.rs
index 2fbbd13..d5de39a 100644
--- a/monoruby/src/builtins/numeric/rational.rs
+++ b/monoruby/src/builtins/numeric/rational.rs
@@ -451,10 +451,10 @@ fn pow_by_integer(lhs: &RationalInner, exp: &BigInt) -> Result<Value> {
         let result = if is_even { 1 } else { -1 };
         return Ok(Value::rational(result, 1));
     }
-    // Exponent must fit in i64 for finite computation.
+    // The magnitude of the exponent must fit in u32 for finite computation.
     let exp_i64 = match exp.to_i64() {
-        Some(n) => n,
-        None => {
+        Some(n) if u32::try_from(n.unsigned_abs()).is_ok() => n,
+        _ => {
             return Err(MonorubyErr::argumenterr("exponent is too large"));
         }
     };
-- 
2.43.0


From 05b2977b25d4efd0c6204ee7db84a490f86ecfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:00:31 +0000
Subject: [PATCH 113/116] fix: Float#floor, #ceil and #truncate with many
 digits answered NaN or infinity

---
 monoruby/src/builtins/numeric/float.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 4a29117..d631a5e 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -616,7 +616,12 @@ fn floor(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) ->
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
             let mul = 10f64.powi(ndigits as i32);
-            let f = (f * mul).floor() / mul;
+            let scaled = f * mul;
+            if !scaled.is_finite() {
+                // f has no digits that far down.
+                return Ok(lfp.self_val());
+            }
+            let f = scaled.floor() / mul;
             Ok(Value::float(f))
         } else {
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
@@ -678,7 +683,12 @@ fn ceil(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> R
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
             let mul = 10f64.powi(ndigits as i32);
-            let f = (f * mul).ceil() / mul;
+            let scaled = f * mul;
+            if !scaled.is_finite() {
+                // f has no digits that far down.
+                return Ok(lfp.self_val());
+            }
+            let f = scaled.ceil() / mul;
             Ok(Value::float(f))
         } else {
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
@@ -740,7 +750,12 @@ fn truncate(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
     if ndigits > 0 {
         if let Ok(ndigits) = u32::try_from(ndigits) {
             let mul = 10f64.powi(ndigits as i32);
-            let f = (f * mul).trunc() / mul;
+            let scaled = f * mul;
+            if !scaled.is_finite() {
+                // f has no digits that far down.
+                return Ok(lfp.self_val());
+            }
+            let f = scaled.trunc() / mul;
             Ok(Value::float(f))
         } else {
             Err(MonorubyErr::rangeerr("too big to convert to u32"))
-- 
2.43.0


From aeb4894371794b8debb61e624d5b5131b038141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:00:31 +0000
Subject: [PATCH 114/116] fix: Float#truncate with negative digits lost the low
 digits of large values

---
 monoruby/src/builtins/numeric/float.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index d631a5e..1f073fc 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -762,15 +762,17 @@ fn truncate(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr)
         }
     } else {
         if let Ok(neg_ndigits) = u32::try_from(-ndigits) {
-            let mul = 10f64.powi(neg_ndigits as i32);
-            let f = (f / mul).trunc() * mul;
-            if let Some(v) = Value::integer_from_f64(f) {
-                return Ok(v);
-            } else {
-                return Err(MonorubyErr::rangeerr(format!(
-                    "[unreachable] invalid f64: {f}"
-                )));
+            if neg_ndigits > 308 {
+                return Ok(Value::integer(0));
             }
+            // Use BigInt to avoid precision loss from float division.
+            let int_val = match BigInt::from_f64(f.trunc()) {
+                Some(v) => v,
+                None => return Ok(Value::integer(0)),
+            };
+            let mul_big = BigInt::from(10u64).pow(neg_ndigits);
+            let (quot, _) = num::integer::div_rem(int_val, mul_big.clone());
+            return Ok(Value::bigint(quot * mul_big));
         }
         Err(MonorubyErr::rangeerr("too small to convert to u32"))
     }
-- 
2.43.0


From 94aceda35af47f6fe698c674327ebb42dcf2fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:00:31 +0000
Subject: [PATCH 115/116] fix: Float#rationalize of values above 2**53 was
 inexact or ran out of memory

---
 monoruby/src/builtins/numeric/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 1f073fc..4199713 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -307,6 +307,10 @@ fn float_rationalize(
                 biased_exp - 1022
             }
         };
+        if exp > f64::MANTISSA_DIGITS as i32 {
+            // f is a whole number, and its neighbours are more than one away.
+            return Ok(Value::rational_from_inner(exact));
+        }
         // eps = 1 / 2^(MANTISSA_DIGITS - exp + 1)
         let shift = (f64::MANTISSA_DIGITS as i32 - exp + 1) as u32;
         let eps = RationalInner::new(1, BigInt::from(1u64) << shift);
-- 
2.43.0


From 7ff8f1f5b12ed420088b5d437b10028173f7d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 05:00:31 +0000
Subject: [PATCH 116/116] fix: Float#<=> rounded large Integers before
 comparing

---
 monoruby/src/builtins/numeric/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monoruby/src/builtins/numeric/float.rs b/monoruby/src/builtins/numeric/float.rs
index 4199713..d6e4492 100644
--- a/monoruby/src/builtins/numeric/float.rs
+++ b/monoruby/src/builtins/numeric/float.rs
@@ -493,7 +493,9 @@ fn cmp(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, _: BytecodePtr) -> Re
     let rhs = lfp.arg(0);
     let ord = match (lhs.try_float(), rhs.unpack()) {
         (None, _) => unreachable!(),
-        (Some(lhs), RV::Fixnum(rhs)) => lhs.partial_cmp(&(rhs as f64)),
+        (Some(lhs), RV::Fixnum(rhs)) => {
+            super::super::op::bigint_cmp_float(&BigInt::from(rhs), lhs).map(|ord| ord.reverse())
+        }
         (Some(lhs), RV::BigInt(rhs)) => {
             super::super::op::bigint_cmp_float(rhs, lhs).map(|ord| ord.reverse())
         }
-- 
2.43.0

