From 358dd975ab06897433df43cc0d84fdca77a90a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 1/7] verif hook: per-thread override of the sorter's minimum
 budget and initial buffer size (cfg grenad_verif)

---
 src/lib.rs         |  4 ++++
 src/sorter.rs      |  9 +++++++++
 src/verif_hooks.rs | 24 ++++++++++++++++++++++++
 3 files changed, 37 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 8897178..f2d2aab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -188,6 +188,8 @@
 //! # Ok(()) }
 //! ```
 
+#![allow(unexpected_cfgs)] // `grenad_verif` is only set by the verification harness
+
 #[cfg(test)]
 #[macro_use]
 extern crate quickcheck;
@@ -205,6 +207,8 @@ mod metadata;
 mod reader;
 mod sorter;
 mod varint;
+#[cfg(grenad_verif)]
+pub mod verif_hooks;
 mod writer;
 
 pub use self::compression::CompressionType;
diff --git a/src/sorter.rs b/src/sorter.rs
index 8a36dd6..28ae3b5 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -79,6 +79,10 @@ impl<MF, CC> SorterBuilder<MF, CC> {
     /// The amount of memory to reach that will trigger a memory dump from in memory to disk.
     pub fn dump_threshold(&mut self, memory: usize) -> &mut Self {
         self.dump_threshold = cmp::max(memory, MIN_SORTER_MEMORY);
+        #[cfg(grenad_verif)]
+        if let Some(min) = crate::verif_hooks::min_sorter_memory() {
+            self.dump_threshold = cmp::max(memory, min);
+        }
         self
     }
 
@@ -181,6 +185,11 @@ impl<MF, CC: ChunkCreator> SorterBuilder<MF, CC> {
     pub fn build(self) -> Sorter<MF, CC> {
         let capacity =
             if self.allow_realloc { INITIAL_SORTER_VEC_SIZE } else { self.dump_threshold };
+        #[cfg(grenad_verif)]
+        let capacity = match crate::verif_hooks::initial_sorter_vec_size() {
+            Some(initial) if self.allow_realloc => initial,
+            _ => capacity,
+        };
 
         Sorter {
             chunks: Vec::new(),
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..b8f744d
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,24 @@
+//! Verification-only knobs, compiled only with `--cfg grenad_verif`.
+//!
+//! They let a simulator run the sorter with kilobyte-sized budgets. They are per thread
+//! and, unless set, leave the shipped constants in force.
+
+use std::cell::Cell;
+
+thread_local! {
+    static SORTER_LIMITS: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
+}
+
+/// Overrides the minimum memory budget and the initial buffer size of the sorters
+/// built by the current thread, `None` restores the shipped constants.
+pub fn set_sorter_limits(limits: Option<(usize, usize)>) {
+    SORTER_LIMITS.with(|l| l.set(limits));
+}
+
+pub(crate) fn min_sorter_memory() -> Option<usize> {
+    SORTER_LIMITS.with(|l| l.get()).map(|(min, _)| min)
+}
+
+pub(crate) fn initial_sorter_vec_size() -> Option<usize> {
+    SORTER_LIMITS.with(|l| l.get()).map(|(_, initial)| initial)
+}
-- 
2.43.0


From 886840bf680ae2834de5be86e4974cbd6a027838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 2/7] fix: read the whole lz4 block before decoding it

lz4_flex's frame decoder loses the bytes of a header when a read is
interrupted in the middle of it, and takes an UnexpectedEof of the reader
for the end of the stream.
---
 src/compression.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 3575070..0e9f089 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -202,9 +202,14 @@ fn zstd_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- lz4 ---------
 
 #[cfg(feature = "lz4")]
-fn lz4_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
+fn lz4_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
     use io::Read;
-    lz4_flex::frame::FrameDecoder::new(data).read_to_end(out).map(drop)
+    // The frame decoder doesn't support being interrupted while it reads a frame or block
+    // header and considers any `UnexpectedEof` as the end of the stream, so we never
+    // expose it to the reader directly.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out).map(drop)
 }
 
 #[cfg(not(feature = "lz4"))]
-- 
2.43.0


From 5493eb965ca5004a9be07f7c1487cc0a6b9c0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 3/7] fix: keep the recorded offset of a loaded index block in
 sync with the block

The offsets recorded next to the loaded index blocks were the ones of their
children and were not updated when a relative move reloaded a block. With
two index levels or more a later absolute move could then reuse the wrong
index block.
---
 src/reader/reader_cursor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reader/reader_cursor.rs b/src/reader/reader_cursor.rs
index 94d6326..d09d8e6 100644
--- a/src/reader/reader_cursor.rs
+++ b/src/reader/reader_cursor.rs
@@ -350,7 +350,7 @@ impl IndexBlockCursor {
             FN: FnMut(&mut BlockCursor<Block>) -> Option<(&[u8], &[u8])>,
         {
             match blocks.split_last_mut() {
-                Some(((_offset, cursor), head)) => {
+                Some(((block_offset, cursor), head)) => {
                     match (mov)(cursor) {
                         Some((_key, _offset)) => Ok(cursor.current()),
                         None => {
@@ -365,6 +365,7 @@ impl IndexBlockCursor {
                                     reader.seek(SeekFrom::Start(offset))?;
                                     *cursor = Block::new(reader, compression_type)
                                         .map(Block::into_cursor)?;
+                                    *block_offset = offset;
 
                                     // We return the result of the call has is. If it returns None
                                     // it means we are not able to execute the `mov` function.
@@ -415,8 +416,8 @@ impl IndexBlockCursor {
             match (mov)(&mut cursor) {
                 Some((_key, offset_bytes)) => {
                     let offset = offset_bytes.try_into().map(u64::from_be_bytes).unwrap();
-                    jump_to_offset = offset;
                     inner.push((jump_to_offset, cursor));
+                    jump_to_offset = offset;
                 }
                 None => return Ok(None),
             }
-- 
2.43.0


From 1033970aa1f86c1ae921fac29435ac36fba54740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 4/7] fix: do not overflow when finishing a writer with 255
 index levels

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index ba45e39..1c5b401 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -289,7 +289,7 @@ impl<W: io::Write> Writer<W> {
             index_block_offset,
             compression_type: self.compression_type,
             entries_count: self.entries_count,
-            index_levels: self.index_block_writers.len() as u8 - 1,
+            index_levels: (self.index_block_writers.len() - 1) as u8,
         };
 
         metadata.write_into(&mut self.writer)?;
-- 
2.43.0


From 4d80c32eb3358f6b446bf9661aed8a98861c19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 5/7] fix: do not panic when converting an InvalidFormatVersion
 error

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4933c30..d751f30 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -19,7 +19,8 @@ impl<U> Error<U> {
         match self {
             Error::Io(io) => Error::Io(io),
             Error::InvalidCompressionType => Error::InvalidCompressionType,
-            _ => panic!("cannot convert a merge error"),
+            Error::InvalidFormatVersion => Error::InvalidFormatVersion,
+            Error::Merge(_) => panic!("cannot convert a merge error"),
         }
     }
 }
-- 
2.43.0


From 483f1bcbaba3adbc49db95666376fa272cc8b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 6/7] fix: do not overflow when rounding the size of the
 sorter's buffer

A requested size close to usize::MAX wrapped around to a zero sized
allocation in builds without overflow checks.
---
 src/sorter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sorter.rs b/src/sorter.rs
index 28ae3b5..c291da0 100644
--- a/src/sorter.rs
+++ b/src/sorter.rs
@@ -395,17 +395,18 @@ impl EntryBoundAlignedBuffer {
     /// Allocates a new buffer of the given size, it is correctly aligned to store `EntryBound`s.
     fn new(size: usize) -> EntryBoundAlignedBuffer {
         let entry_bound_size = size_of::<EntryBound>();
-        let size = size.div_ceil(entry_bound_size) * entry_bound_size;
-        let layout = Layout::from_size_align(size, align_of::<EntryBound>()).unwrap();
-        let ptr = unsafe { alloc(layout) };
-        let Some(ptr) = NonNull::new(ptr) else {
+        let layout = size
+            .checked_next_multiple_of(entry_bound_size)
+            .and_then(|size| Layout::from_size_align(size, align_of::<EntryBound>()).ok());
+        let ptr = layout.and_then(|layout| NonNull::new(unsafe { alloc(layout) }));
+        let (Some(layout), Some(ptr)) = (layout, ptr) else {
             panic!(
                 "the allocator is unable to allocate that much memory ({} bytes requested)",
                 size
             );
         };
 
-        EntryBoundAlignedBuffer { data: ptr, len: size }
+        EntryBoundAlignedBuffer { data: ptr, len: layout.size() }
     }
 }
 
-- 
2.43.0


From 746f3babf08f4fc3642294eb9ab26ebf7bca2472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 7/7] fix: read the whole zstd block before decoding it

---
 src/compression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index 0e9f089..305105d 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -177,8 +177,12 @@ fn snappy_compress(_data: &[u8], _level: u32) -> io::Result<Cow<[u8]>> {
 // --------- zstd ---------
 
 #[cfg(feature = "zstd")]
-fn zstd_decompress<R: io::Read>(data: R, out: &mut Vec<u8>) -> io::Result<()> {
-    zstd::stream::copy_decode(data, out)
+fn zstd_decompress<R: io::Read>(mut data: R, out: &mut Vec<u8>) -> io::Result<()> {
+    // The decoder runs once more on an empty input every time the reader is interrupted and
+    // fails when that happens too many times in a row, so we never expose the reader directly.
+    let mut input = Vec::new();
+    data.read_to_end(&mut input)?;
+    zstd::stream::copy_decode(&input[..], out)
 }
 
 #[cfg(not(feature = "zstd"))]
-- 
2.43.0

