From 8f8da278a16763349a09c9bb92e7c878acce2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 1/8] fix: keep the initial capacity as a table length

Shrinking a table allocated with a capacity that is not a power of two
panicked in Table::alloc.
---
 src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..eeb9ac1 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -231,8 +231,11 @@ impl<K, V, S> HashMap<K, V, S> {
             };
         }
 
+        // Note that shrinking the table relies on this being a valid table length.
+        let capacity = probe::entries_for(capacity);
+
         // Initialize the table and mark it as the root.
-        let mut table = Table::alloc(probe::entries_for(capacity));
+        let mut table = Table::alloc(capacity);
         *table.state_mut().status.get_mut() = State::PROMOTED;
 
         HashMap {
-- 
2.43.0


From d34ab950e278147786ff0a67c85eb1a6fd4005e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 2/8] fix: wake threads waiting for an aborted resize

Threads wait on the status of the table that is copied to.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index eeb9ac1..22e98a4 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2070,7 +2070,7 @@ where
                         let allocated = self.get_or_alloc_next(None, next);
 
                         // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From 3d295f3e8c7da82f2453cf34d1ac0888f66c3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 3/8] fix: free the tables of aborted resizes

After a resize was aborted the table it copied to was never deallocated.
---
 src/raw/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 22e98a4..d7ab76b 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2483,6 +2483,22 @@ where
                     // that are unparked.
                     state.status.store(State::PROMOTED, Ordering::SeqCst);
 
+                    // Retire any tables between the old table and the new root, whose resizes
+                    // were aborted.
+                    let mut aborted = table.next_table();
+                    while let Some(skipped) = aborted.filter(|skipped| skipped.raw != next.raw) {
+                        aborted = skipped.next_table();
+
+                        // Safety: The aborted table was only reachable through the old table,
+                        // which the CAS above made unreachable from the root pointer. We do not
+                        // drop entries because they have been copied to the new root.
+                        unsafe {
+                            guard.defer_retire(skipped.raw, |table, collector| {
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+                    }
+
                     // Retire the old table.
                     //
                     // Safety: `table.raw` is a valid pointer to the table we just copied from.
-- 
2.43.0


From 8a7946ec4d0fa0012ddcfc8820c0210ed74a6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 4/8] fix: check for overflow in the table layout

The size of a table of a huge capacity wrapped around in release builds, to
the size of a much smaller allocation.
---
 src/raw/alloc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..e9abcf3 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -211,10 +211,12 @@ impl<T> Table<T> {
 
     // Returns the non-zero layout for a table allocation.
     fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
+        // Every slot takes a byte in the metadata table and an entry pointer.
+        let size = len
+            .checked_mul(mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>())
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
         Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
     }
 }
-- 
2.43.0


From 1d8fd5c0e5db7a1da3aa4e4552db026ecdbaa42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 5/8] fix: HashSet::insert does not replace an equal value

As documented, the value in the set is not updated.
---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..3fa32cc 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -427,10 +427,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Replaced(_) => unreachable!(),
+            InsertResult::Error { .. } => false,
         }
     }
 
@@ -773,10 +773,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Replaced(_) => unreachable!(),
+            InsertResult::Error { .. } => false,
         }
     }
 
-- 
2.43.0


From 41125e7f86c1e8c3ee8d7a72a364568804a69bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 6/8] fix: an incremental resize copies at least one entry at a
 time

---
 src/raw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index d7ab76b..5faa57e 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1999,7 +1999,8 @@ where
         match self.resize {
             ResizeMode::Blocking => self.help_copy_blocking(table, guard),
             ResizeMode::Incremental(chunk) => {
-                let copied_to = self.help_copy_incremental(chunk, copy_all, guard);
+                // Copy at least one entry at a time, or the resize would never complete.
+                let copied_to = self.help_copy_incremental(chunk.max(1), copy_all, guard);
 
                 if !copy_all {
                     // If we weren't trying to linearize, we have to write to the next table
-- 
2.43.0


From 72d774f100e92cbd971a277ab886009e2c19f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 7/8] fix: entries are aligned to leave room for the tag bits

---
 src/raw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 5faa57e..30920b4 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -119,7 +119,9 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+//
+// The alignment reserves the lower bits of a pointer for tagging.
+#[repr(C, align(8))]
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0


From 272d950a02ee54935f893e965c701d83a7347820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 8/8] hook: copy chunk of blocking resizes (cfg papaya_verif)

---
 src/raw/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 30920b4..02656a5 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2018,6 +2018,7 @@ where
     /// Help along the resize operation until it completes and the next table is promoted.
     ///
     /// Should only be called on the root table.
+    #[allow(unexpected_cfgs)]
     fn help_copy_blocking(
         &self,
         table: &Table<Entry<K, V>>,
@@ -2039,6 +2040,17 @@ where
 
             let copy_chunk = table.len().min(4096);
 
+            // Lets a verification harness copy small tables in several chunks.
+            #[cfg(papaya_verif)]
+            let copy_chunk = {
+                extern "C" {
+                    fn papaya_verif_copy_chunk() -> usize;
+                }
+
+                // Safety: Provided by the harness.
+                copy_chunk.min(unsafe { papaya_verif_copy_chunk() })
+            };
+
             loop {
                 // Every entry has already been claimed.
                 if next.state().claim.load(Ordering::Relaxed) >= table.len() {
-- 
2.43.0

