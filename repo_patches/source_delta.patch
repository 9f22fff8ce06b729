From 38b6cde9cd1a838e3b18fbe1b1ef280a970b4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 01/12] verification hook: re-export bit containers under
 cfg(rezip_verif)

---
 lib/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index 3e0d2a8..ba8b19f 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -36,6 +36,17 @@ pub use crate::serialise::decompressed_codes;
 pub use crate::technique::Config;
 pub use crate::technique::Technique;
 
+/// Internals driven by an out-of-tree verification harness; never part of a normal build.
+#[cfg(rezip_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::bit::BitReader;
+    pub use crate::bit::BitVec;
+    pub use crate::bit::BitWriter;
+    pub use crate::lookahead::Lookahead;
+    pub use crate::picker::Picker;
+}
+
 #[derive(Copy, Clone, PartialEq, Eq)]
 pub struct Ref {
     pub dist: u16,
-- 
2.43.0


From 49d10f9d5898ea6cc4f7ebb0e17303db118b5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 02/12] fix: write stored block lengths least significant byte
 first

RFC 1951 3.2.4 / 3.1: LEN and NLEN are little-endian, and that is how
read_aligned_u16 reads them. Writing them the other way round made every
stored block with a length other than n*257 re-encode as garbage.
---
 lib/src/bit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 5e8bd36..94eeed7 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -163,8 +163,8 @@ impl<W: Write> BitWriter<W> {
 
     pub fn write_aligned_u16(&mut self, val: u16) -> Result<(), Error> {
         self.inner.write_all(&[
-            u8::try_from(val >> 8).expect("bitshift"),
             u8::try_from(val & 0xFF).expect("mask"),
+            u8::try_from(val >> 8).expect("bitshift"),
         ])?;
         Ok(())
     }
-- 
2.43.0


From dcf22ddc33e515a2883e3f9bd056312b286b2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 03/12] fix: Technique::byte_at must count from the start of
 the preroll

Scanner positions include the preroll, so restoring a literal override with
a preroll read the wrong byte, or panicked past the end of the data.
---
 lib/src/technique.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/technique.rs b/lib/src/technique.rs
index 1fa8a43..4241ad5 100644
--- a/lib/src/technique.rs
+++ b/lib/src/technique.rs
@@ -64,7 +64,7 @@ impl<'a, 'p, 'd> Technique<'a, 'p, 'd> {
     }
 
     pub fn byte_at(&self, pos: usize) -> u8 {
-        self.all_refs.data[pos]
+        self.all_refs.get(pos)
     }
 }
 
-- 
2.43.0


From 6267a9878a994e4418a9657543cbaec32346bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 04/12] fix: BitVec::pop must clear the bit it removes

Otherwise a zero pushed afterwards reads back as a one, and two vectors
holding the same bits compare as different.
---
 lib/src/bit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 94eeed7..66fdba2 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -236,6 +236,9 @@ impl BitVec {
 
         if self.len % WORD_SIZE == 0 {
             self.bytes.pop();
+        } else {
+            // unused bits must stay zero: push() only sets bits, and == compares bytes
+            self.bytes[self.len / WORD_SIZE] &= !(1 << (self.len % WORD_SIZE));
         }
 
         Some(answer)
-- 
2.43.0


From 2ed918ef1ad37ead2ffb408efb9d79cf7df33b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 05/12] fix: CircularBuffer::vec overflowed on a full buffer of
 capacity 65535

---
 lib/src/circles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 1fde300..66dac66 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -100,7 +100,7 @@ impl CircularBuffer {
         // TODO: optimise
 
         let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
-        for pos in (1..1 + self.valid_cap).rev() {
+        for pos in (1..=self.valid_cap).rev() {
             ret.push(self.get_at_dist(pos));
         }
 
-- 
2.43.0


From 61f9f82e588cbfd40f03a5a28192d2ec986d63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 06/12] fix: report a trace cut in the middle of an entry's
 first two bytes

A single trailing byte was silently dropped, while a cut one byte later was
an error.
---
 lib/src/serialise_trace.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/serialise_trace.rs b/lib/src/serialise_trace.rs
index d45725f..4d18a96 100644
--- a/lib/src/serialise_trace.rs
+++ b/lib/src/serialise_trace.rs
@@ -66,11 +66,12 @@ pub fn read<R: Read>(mut data: R) -> Result<Vec<Trace>, Error> {
     let mut ret = Vec::new();
 
     loop {
-        let first = match data.read_u16::<LE>() {
-            Ok(first) => first,
+        let low = match data.read_u8() {
+            Ok(low) => low,
             Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
             Err(e) => bail!(e),
         };
+        let first = u16::from_le_bytes([low, data.read_u8()?]);
 
         if 0 == first {
             ret.push(Trace::ActuallyLiteral);
-- 
2.43.0


From 86af2dac9dee254ecb398002d8c68625e0811ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 07/12] fix: the default CircularBuffer had no capacity and
 panicked on first use

with_capacity() rejects a capacity of zero, but the derived Default made
exactly such a buffer.
---
 lib/src/circles.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/circles.rs b/lib/src/circles.rs
index 66dac66..979be77 100644
--- a/lib/src/circles.rs
+++ b/lib/src/circles.rs
@@ -3,13 +3,18 @@ use std::io::Write;
 use anyhow::ensure;
 use anyhow::Error;
 
-#[derive(Default)]
 pub struct CircularBuffer {
     data: Vec<u8>,
     idx: usize,
     valid_cap: u16,
 }
 
+impl Default for CircularBuffer {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl CircularBuffer {
     pub fn new() -> Self {
         Self::with_capacity(32 * 1024)
-- 
2.43.0


From 1ef419eb27877499a932ec87bf44bada99e997d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:03 +0000
Subject: [PATCH 08/12] fix: zero must handle a file with empty content

It panicked; a single empty final stored block represents it.
---
 rezippers/src/zero.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index c728268..f40d9f5 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -59,37 +59,35 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
     let writer = io::stdout();
     let mut writer = writer.lock();
 
-    assert!(
-        reader.peek().is_some(),
-        "TODO: can't deal with an empty file"
-    );
-
     writer.write_all(&orig_header)?;
 
     let mut data_len = 0u32;
     let mut data_csum = CRC32.digest();
 
     loop {
+        // empty only if the whole input is: we stop after the block that exhausts it
         let buf = take_rsync(&mut reader)?;
-        if buf.is_empty() {
-            break;
-        }
 
         data_len = data_len.wrapping_add(buf.len() as u32);
         data_csum.update(&buf);
 
-        if reader.peek().is_some() {
-            // uncompressed block, not end of file
-            writer.write_all(&[0])?;
-        } else {
+        let last = reader.peek().is_none();
+        if last {
             // uncompressed block, end of file
             writer.write_all(&[0b0000_0001])?;
+        } else {
+            // uncompressed block, not end of file
+            writer.write_all(&[0])?;
         }
 
         let len = buf.len() as u16;
         writer.write_u16::<LE>(len)?;
         writer.write_u16::<LE>(len ^ 0xffff)?;
         writer.write_all(&buf)?;
+
+        if last {
+            break;
+        }
     }
 
     writer.write_u32::<LE>(data_csum.finalize())?;
-- 
2.43.0


From c5e033ccfa4c6e128a4c77c93b936f1972ec5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 09/12] fix: zero must not make blocks of 65536 bytes

The length of a stored block is a u16; it was written as zero, which
corrupted the output.
---
 rezippers/src/zero.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index f40d9f5..317aa55 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -15,7 +15,8 @@ const CRC32: Crc<u32> = Crc::<u32>::new(&CRC_32_ISO_HDLC);
 
 const RSYNC_MIN: usize = 1024 * 8;
 const RSYNC_MOD: usize = 1024 * 4;
-const RSYNC_MAX: usize = 1024 * 64;
+/// the longest a stored block can be
+const RSYNC_MAX: usize = 1024 * 64 - 1;
 
 /// Return: empty iff input is empty.
 fn take_rsync<I: Iterator<Item = io::Result<u8>>>(from: &mut I) -> io::Result<Vec<u8>> {
-- 
2.43.0


From 83271db98f3f377e098905cec75f8d454d4f037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 10/12] fix: cat and zero must report a failure to write the
 end of their output

What was still in stdout's buffer was written at exit, where errors are
ignored: the tools succeeded on a full disk.
---
 rezippers/src/cat.rs  | 3 +++
 rezippers/src/zero.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/rezippers/src/cat.rs b/rezippers/src/cat.rs
index 051b0d5..773269c 100644
--- a/rezippers/src/cat.rs
+++ b/rezippers/src/cat.rs
@@ -1,5 +1,6 @@
 use std::io;
 use std::io::Read;
+use std::io::Write;
 
 use anyhow::Error;
 use librezip;
@@ -17,5 +18,7 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
         librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
     }
 
+    stdout.flush()?;
+
     Ok(())
 }
diff --git a/rezippers/src/zero.rs b/rezippers/src/zero.rs
index 317aa55..f5bf0f2 100644
--- a/rezippers/src/zero.rs
+++ b/rezippers/src/zero.rs
@@ -93,5 +93,6 @@ pub fn run<R: Read>(mut reader: R) -> Result<(), Error> {
 
     writer.write_u32::<LE>(data_csum.finalize())?;
     writer.write_u32::<LE>(data_len)?;
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From 0a71462877841691fe81a64ea60c97c7b3b2ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 11/12] fix: writing a block its own tables cannot express must
 fail, not panic or write other data

---
 lib/src/bit.rs       |  2 +-
 lib/src/serialise.rs | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/src/bit.rs b/lib/src/bit.rs
index 66fdba2..947982c 100644
--- a/lib/src/bit.rs
+++ b/lib/src/bit.rs
@@ -362,7 +362,7 @@ impl<R: Read> BitSource for BitReader<R> {
 
 impl<'a> BitSource for StackIterator<'a> {
     fn read_bit(&mut self) -> Result<bool, Error> {
-        Ok(self.next().expect("TODO: EOF"))
+        self.next().ok_or_else(|| format_err!("out of bits"))
     }
 }
 
diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 7d783b8..1fa9a02 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -1,6 +1,7 @@
 use std::io::Write;
 
 use anyhow::anyhow;
+use anyhow::ensure;
 use anyhow::Context;
 use anyhow::Error;
 
@@ -76,9 +77,14 @@ pub fn compressed_block<W: Write>(into: &mut BitWriter<W>, block: &Block) -> Res
             ref trees,
             ref codes,
         } => {
+            let mut description = trees.iter();
+            let (length, distance) = huffman::read_codes(&mut description)?;
+            ensure!(
+                description.next().is_none(),
+                "trailing bits after the code lengths"
+            );
             into.write_bits_val(2, 2)?;
             into.write_vec(trees)?;
-            let (length, distance) = huffman::read_codes(&mut trees.iter())?;
             compressed_codes(into, &length, distance.as_ref(), codes)
         }
     }
@@ -162,7 +168,11 @@ fn compressed_codes<W: Write>(
     }
 
     // End of stream marker
-    into.write_vec(length_tree[256].as_ref().unwrap())?;
+    into.write_vec(
+        length_tree[256]
+            .as_ref()
+            .ok_or_else(|| anyhow!("no end of block symbol"))?,
+    )?;
 
     Ok(())
 }
@@ -175,7 +185,7 @@ fn encode_run<W: Write>(
     into.write_vec(
         length_tree[huffman::encode_run_length(run) as usize]
             .as_ref()
-            .unwrap(),
+            .ok_or_else(|| anyhow!("invalid run length"))?,
     )?;
 
     if let Some((bits, val)) = huffman::extra_run_length(run) {
@@ -195,7 +205,11 @@ fn encode_distance<W: Write>(
             .as_ref()
             .ok_or_else(|| anyhow!("reference but not distance tree"))?;
 
-        into.write_vec(distance_tree[usize::from(code)].as_ref().unwrap())?;
+        into.write_vec(
+            distance_tree[usize::from(code)]
+                .as_ref()
+                .ok_or_else(|| anyhow!("invalid distance"))?,
+        )?;
 
         if bits > 0 {
             into.write_bits_val(bits, val)?;
-- 
2.43.0


From 43e64faad07b471b29244d7555f945b9b35a753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 12/12] fix: write a run of 258 with symbol 284 if the block
 has no symbol 285

---
 lib/src/serialise.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/serialise.rs b/lib/src/serialise.rs
index 1fa9a02..e6b0bcc 100644
--- a/lib/src/serialise.rs
+++ b/lib/src/serialise.rs
@@ -182,6 +182,12 @@ fn encode_run<W: Write>(
     length_tree: &[Option<BitVec>],
     run: u16,
 ) -> Result<(), Error> {
+    if let (258, None, Some(code)) = (run, &length_tree[285], &length_tree[284]) {
+        // 285 isn't in use, but 227 and five set bits is the same length
+        into.write_vec(code)?;
+        return into.write_bits_val(5, 31);
+    }
+
     into.write_vec(
         length_tree[huffman::encode_run_length(run) as usize]
             .as_ref()
-- 
2.43.0

