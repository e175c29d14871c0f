From 90fd61a4a55fcce858830ff5775e599d92db0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 1/9] fix: reject frame and sample numbers with lead byte 0xff

A number is at most seven bytes long, so a first byte of eight ones is not a
valid prefix. It was accepted and decoded as an eight byte number.
---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..1544e8a 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,9 +76,10 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
-    // A single leading 1 is a follow-up byte and thus invalid.
+    // A single leading 1 is a follow-up byte and thus invalid. Eight leading
+    // ones is not a valid prefix either: at most seven bytes encode 36 bits.
     if read_additional > 0 {
-        if read_additional == 1 {
+        if read_additional == 1 || read_additional == 8 {
             return fmt_err("invalid variable-length integer");
         } else {
             // The number of 1s (if > 1) is the total number of bytes, not the
-- 
2.43.0


From 60b355984df0b5e409aa6857b1138f9eba796724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 2/9] fix: do not return stale bytes after a failed read

When the underlying reader failed while the buffer of a BufferedReader was
being replenished, the position was reset but the number of valid bytes was
not, so the next read returned the previous contents of the buffer again.
---
 src/input.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..41ce69c 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -58,6 +58,17 @@ impl<R: io::Read> BufferedReader<R> {
         }
     }
 
+    /// Replaces the contents of the depleted buffer with fresh data.
+    fn refill(&mut self) -> io::Result<()> {
+        // If the read fails, the buffer must be left empty. If the number of
+        // valid bytes were kept, the bytes that have been consumed already
+        // would be returned again by the next read.
+        self.pos = 0;
+        self.num_valid = 0;
+        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        Ok(())
+    }
+
     /// Destroys the buffered reader, returning the wrapped reader.
     ///
     /// Anything in the buffer will be lost.
@@ -133,8 +144,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8(&mut self) -> io::Result<u8> {
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            try!(self.refill());
 
             if self.num_valid == 0 {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -153,8 +163,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+            try!(self.refill());
 
             if self.num_valid == 0 {
                 return Ok(None);
@@ -177,8 +186,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                try!(self.refill());
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
@@ -198,8 +206,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+                try!(self.refill());
 
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
-- 
2.43.0


From 9206ed0faa1b10beaab2572b871feb3833a2e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 3/9] fix: report a stream cut after the first byte of a frame

A stream that ended one byte into a frame was reported as a regular end of
stream, because read_be_u16_or_eof returned None not only if there was no byte
left, but also if there was exactly one.
---
 src/input.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 41ce69c..1de276c 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -104,9 +104,10 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            // After the first byte, we are no longer at the end of the stream,
+            // so if there is no second byte then the stream is truncated.
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From 855add0686b704320b0e6b39a478389ad6af87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 4/9] fix: do not read further metadata blocks when none are
 desired

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..e311fdb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,8 +249,14 @@ impl<R: io::Read> FlacReader<R> {
 
             let mut vorbis_comment = None;
 
-            // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // There might be more metadata blocks, read and store them. Stop
+            // reading metadata once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
+
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +276,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0


From ec325806442ac59cfd92bea69b176fc819e93af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 5/9] fix: report the right time for a shorter last block

---
 src/frame.rs | 25 ++++++++++++++++++++++++-
 src/lib.rs   |  9 ++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 1544e8a..f420cb0 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -603,6 +603,10 @@ fn verify_block_stereo_samples_iterator() {
 /// no searching for a sync code is performed at the moment.
 pub struct FrameReader<R: ReadBytes> {
     input: R,
+
+    /// The block size of the stream, if it is known to be the same for all
+    /// blocks (except possibly for the last one, which may be shorter).
+    fixed_block_size: Option<u16>,
 }
 
 /// Either a `Block` or an `Error`.
@@ -653,6 +657,20 @@ impl<R: ReadBytes> FrameReader<R> {
     pub fn new(input: R) -> FrameReader<R> {
         FrameReader {
             input: input,
+            fixed_block_size: None,
+        }
+    }
+
+    /// Creates a new frame reader for a stream with a fixed block size.
+    ///
+    /// In a stream with a fixed block size, frames store their frame number
+    /// rather than the number of their first sample. The last block of such a
+    /// stream may be shorter than the other ones, so its time cannot be derived
+    /// from its own size: the block size of the stream is needed.
+    pub fn with_fixed_block_size(input: R, block_size: u16) -> FrameReader<R> {
+        FrameReader {
+            input: input,
+            fixed_block_size: Some(block_size),
         }
     }
 
@@ -770,7 +788,12 @@ impl<R: ReadBytes> FrameReader<R> {
         // TODO: constant block size should be verified if a frame number is
         // encountered.
         let time = match header.block_time {
-            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
+            BlockTime::FrameNumber(fnr) => {
+                // The last block may be shorter than the block size of the
+                // stream, so use the latter if we know it.
+                let block_size = self.fixed_block_size.unwrap_or(header.block_size);
+                block_size as u64 * fnr as u64
+            }
             BlockTime::SampleNumber(snr) => snr,
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index e311fdb..909bfc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -366,7 +366,14 @@ impl<R: io::Read> FlacReader<R> {
     /// the FLAC format. For a higher-level interface, see `samples()`.
     pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>> {
         match self.input {
-            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
+            FlacReaderState::Full(ref mut inp) => {
+                let min_block_size = self.streaminfo.min_block_size;
+                if min_block_size == self.streaminfo.max_block_size {
+                    FrameReader::with_fixed_block_size(inp, min_block_size)
+                } else {
+                    FrameReader::new(inp)
+                }
+            }
             FlacReaderState::MetadataOnly(..) =>
                 panic!("FlacReaderOptions::metadata_only must be false \
                        to be able to use FlacReader::blocks()"),
-- 
2.43.0


From f232c9f427d40139e3a30775ce25e1b8bcb9c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 6/9] fix: refuse unary numbers that do not fit 32 bits

---
 src/input.rs    | 6 +++++-
 src/subframe.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 1de276c..649d169 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -505,7 +505,11 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                n = match n.checked_add(zeros) {
+                    Some(sum) => sum,
+                    None => return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                                      "unary number exceeds 32 bits")),
+                };
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..cbe01eb 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,7 +73,7 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
+        try!(input.read_unary()).saturating_add(1)
     };
 
     // The spec puts no bounds on the number of wasted bits per sample, but more
-- 
2.43.0


From 1236a8658e0e58af075dfe04a6bde6d3fd5a5acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 7/9] fix: do not pass uninitialized memory to a user-provided
 reader

---
 src/metadata.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ddfe207..4df8f63 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -429,12 +429,9 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
     // 32-bit vendor string length, and comment count.
     let vendor_len = try!(input.read_le_u32());
     if vendor_len > length - 8 { return fmt_err("vendor string too long") }
-    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);
-
-    // We can safely set the lenght of the vector here; the uninitialized memory
-    // is not exposed. If `read_into` succeeds, it will have overwritten all
-    // bytes. If not, an error is returned and the memory is never exposed.
-    unsafe { vendor_bytes.set_len(vendor_len as usize); }
+    // The memory must be initialized, because `read_into` can be implemented by
+    // the user: it could read the buffer, or return without filling it.
+    let mut vendor_bytes = vec![0; vendor_len as usize];
     try!(input.read_into(&mut vendor_bytes));
     let vendor = try!(String::from_utf8(vendor_bytes));
 
@@ -469,9 +466,8 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
             continue;
         }
 
-        // For the same reason as above, setting the length is safe here.
-        let mut comment_bytes = Vec::with_capacity(comment_len as usize);
-        unsafe { comment_bytes.set_len(comment_len as usize); }
+        // For the same reason as above, the memory must be initialized.
+        let mut comment_bytes = vec![0; comment_len as usize];
         try!(input.read_into(&mut comment_bytes));
 
         bytes_left -= comment_len;
@@ -537,12 +533,9 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
     let id = try!(input.read_be_u32());
 
     // Four bytes of the block have been used for the ID, the rest is payload.
-    // Create a vector of uninitialized memory, and read the block into it. The
-    // uninitialized memory is never exposed: read_into will either fill the
-    // buffer completely, or return an err, in which case the memory is not
-    // exposed.
-    let mut data = Vec::with_capacity(length as usize - 4);
-    unsafe { data.set_len(length as usize - 4); }
+    // The memory must be initialized before reading the block into it, because
+    // a user-provided `read_into` might not fill the buffer completely.
+    let mut data = vec![0; length as usize - 4];
     try!(input.read_into(&mut data));
 
     Ok((id, data))
-- 
2.43.0


From 242d05b5b42586d94b2922d001ef4a4e66f9c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 8/9] fix: do not trust the byte count returned by the wrapped
 reader

---
 src/input.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 649d169..e66e3b7 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -65,7 +65,16 @@ impl<R: io::Read> BufferedReader<R> {
         // would be returned again by the next read.
         self.pos = 0;
         self.num_valid = 0;
-        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        let num_read = try!(self.inner.read(&mut self.buf));
+
+        // A reader that misbehaves could claim to have read more than fits in
+        // the buffer. Because we index without bounds check, do not trust it.
+        if num_read > self.buf.len() {
+            return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                      "reader returned an invalid byte count"))
+        }
+
+        self.num_valid = num_read as u32;
         Ok(())
     }
 
-- 
2.43.0


From 8d9e53ff30ceaca66503d716da5dc3e8f1088f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 9/9] fix: do not overflow for a cursor far behind its end

---
 src/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index e66e3b7..50636f5 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -272,7 +272,7 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        if pos.saturating_add(buffer.len() as u64) <= self.get_ref().as_ref().len() as u64 {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -285,7 +285,7 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        if pos.saturating_add(amount as u64) <= self.get_ref().as_ref().len() as u64 {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0

