From 790766b1fb9077972bb0730e16df3a634b3101cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 01/40] verification hooks: library view of the modules and
 compile-time block size (cfg nd_verif)

---
 src/lib.rs    | 43 +++++++++++++++++++++++++++++++++++++++++++
 src/params.rs | 21 ++++++++++++++++++++-
 2 files changed, 63 insertions(+), 1 deletion(-)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..747a1ea
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,43 @@
+// @file lib.rs
+// @brief verification hook: exposes the modules of the binary crate as a library (only with `--cfg nd_verif`)
+
+#![allow(unexpected_cfgs)]
+#![cfg(nd_verif)]
+#![allow(dead_code)]
+
+include!("main.rs");
+
+pub mod verif {
+    pub mod byte {
+        pub use crate::byte::*;
+    }
+    pub mod drain {
+        pub use crate::drain::*;
+    }
+    pub mod eval {
+        pub use crate::eval::*;
+    }
+    pub mod mapper {
+        pub use crate::mapper::*;
+    }
+    pub mod params {
+        pub use crate::params::*;
+    }
+    pub mod pipeline {
+        pub use crate::pipeline::*;
+    }
+    pub mod segment {
+        pub use crate::segment::*;
+    }
+    pub mod streambuf {
+        pub use crate::streambuf::*;
+    }
+    pub mod template {
+        pub use crate::template::*;
+    }
+    pub mod text {
+        pub use crate::text::*;
+    }
+}
+
+// end of lib.rs
diff --git a/src/params.rs b/src/params.rs
index e01189d..0844bcf 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -1,12 +1,31 @@
 // @file params.rs
 // @author Hajime Suzuki
 
+#![allow(unexpected_cfgs)]
+
 #[cfg(test)]
 pub const BLOCK_SIZE: usize = 29 * 5;
 
-#[cfg(not(test))]
+#[cfg(all(not(test), not(nd_verif)))]
 pub const BLOCK_SIZE: usize = 2 * 1024 * 1024;
 
+// verification hook: the block size is configurable at compile time
+#[cfg(all(not(test), nd_verif))]
+pub const BLOCK_SIZE: usize = {
+    let bytes = match option_env!("ND_VERIF_BLOCK_SIZE") {
+        Some(s) => s.as_bytes(),
+        None => "2097152".as_bytes(),
+    };
+
+    let mut size = 0;
+    let mut i = 0;
+    while i < bytes.len() {
+        size = 10 * size + (bytes[i] - b'0') as usize;
+        i += 1;
+    }
+    size
+};
+
 pub const MARGIN_SIZE: usize = 256;
 
 // end of params.rs
-- 
2.43.0


From f124b2d93117b5f1803142716a3a5ea4b5e7fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 02/40] fix: scatter drain counted already emitted segments
 twice when slices stay buffered across fills

---
 src/drain/scatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 80be049..41af5f7 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -125,7 +125,7 @@ impl ScatterDrain {
 
             self.formatter
                 .format_segments(self.offset, stream, &segments[self.src_consumed..count], buf);
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
@@ -155,9 +155,9 @@ impl ScatterDrain {
                 self.file
                     .as_mut()
                     .unwrap()
-                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + i)?;
+                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
             }
-            self.src_consumed += count;
+            self.src_consumed = count;
 
             // consumed bytes and count
             let (bytes, count) = self.src.consume(max_consume)?;
-- 
2.43.0


From 54fcf572b6be0a90ecf1da1e9973388ae2a91ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 03/40] fix: clear the fixed --output file before writing
 slices to it

---
 src/drain/scatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drain/scatter.rs b/src/drain/scatter.rs
index 41af5f7..b7b3236 100644
--- a/src/drain/scatter.rs
+++ b/src/drain/scatter.rs
@@ -31,7 +31,7 @@ impl Drain {
         }
 
         let file = template.render(|_, _| 0)?;
-        let file = OpenOptions::new().read(false).write(true).create(true).open(file)?;
+        let file = OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;
         Ok(Drain::File(file))
     }
 }
-- 
2.43.0


From 07a315cbffd86cbd39705e24cac0cdbfb17b8cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 04/40] fix: underflow in RangeMapper::trans_offset for ranges
 such as e-N..0

---
 src/mapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapper.rs b/src/mapper.rs
index 83f6920..44a767a 100644
--- a/src/mapper.rs
+++ b/src/mapper.rs
@@ -195,7 +195,7 @@ impl RangeMapper {
     pub fn trans_offset(&self) -> usize {
         match (self.start, self.end) {
             (StartAnchored(x), EndAnchored(_)) => x,
-            (EndAnchored(_), StartAnchored(x)) => x - 1,
+            (EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),
             _ => usize::MAX,
         }
     }
-- 
2.43.0


From 730a6b3cdd4269f6e87a87ac79ea7d53be048abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 05/40] fix: overlapping matches of self-overlapping patterns
 at chunk boundaries in --find

---
 src/segment/exact.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index c6bbaca..8616a67 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -58,7 +58,13 @@ impl SegmentStream for ExactMatchSlicer {
             });
         }
 
-        self.scanned = if is_eof { bytes } else { bytes - self.pattern.len() + 1 };
+        // resume after the last match so that matches never overlap across chunks
+        let tail = self.segments.last().map_or(0, |x| x.tail());
+        self.scanned = if is_eof {
+            bytes
+        } else {
+            [self.scanned, tail, (bytes + 1).saturating_sub(len)].into_iter().max().unwrap()
+        };
         Ok((is_eof, bytes, self.segments.len(), self.scanned))
     }
 
-- 
2.43.0


From 3b9128cd0381096daff23c57b726e15dbaf0128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 06/40] fix: patch records located at the end of the stream
 were dropped

---
 src/byte/patch.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/byte/patch.rs b/src/byte/patch.rs
index 6fe8beb..91054e8 100644
--- a/src/byte/patch.rs
+++ b/src/byte/patch.rs
@@ -104,6 +104,10 @@ impl ByteStream for PatchStream {
 
             let is_eof = loop {
                 if rem_len == 0 {
+                    // records located exactly at the tail of the stream
+                    while self.patch.offset == self.offset {
+                        self.patch.feed(self.offset, buf)?;
+                    }
                     break true;
                 }
 
-- 
2.43.0


From 69afebc00ca77242723ff4a1118a5eb0c9da5b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 07/40] fix: StreamBuf::fill_buf counted the request from the
 head of the buffer, not from the current position

---
 src/streambuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streambuf.rs b/src/streambuf.rs
index 401f28a..bdf0017 100644
--- a/src/streambuf.rs
+++ b/src/streambuf.rs
@@ -92,7 +92,8 @@ impl StreamBuf {
 
         // calculate target buffer length
         // debug_assert!(self.target_len > self.len);
-        let target_len = std::cmp::max(self.target_len, request);
+        // (the request is counted from the current position)
+        let target_len = std::cmp::max(self.target_len, request.saturating_add(self.pos));
 
         // collect into the buffer without margin
         loop {
-- 
2.43.0


From a78f1a6fbffe2ec74f9e9fa6506150168d529ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 08/40] fix: WalkSlicer dropped or panicked on the last chunk
 clipped at the end of the stream

---
 src/segment/walk.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/segment/walk.rs b/src/segment/walk.rs
index d089694..e98ff44 100644
--- a/src/segment/walk.rs
+++ b/src/segment/walk.rs
@@ -111,16 +111,15 @@ impl WalkSlicer {
             let span = f.get_next_span(self.pos, &mut self.src);
             self.spans[i] = span;
 
-            chunk_len += span;
+            chunk_len = span.saturating_add(chunk_len);
         }
         chunk_len
     }
 
-    fn extend_segment_buf(&mut self, chunk_len: usize) -> Result<(bool, usize)> {
-        let (is_eof, bytes) = self.src.fill_buf(chunk_len)?;
-        if is_eof && bytes < chunk_len {
+    fn extend_segment_buf(&mut self, chunk_len: usize, bytes: usize) {
+        if chunk_len > bytes - self.pos {
             // TODO: use logger
-            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {bytes})");
+            eprintln!("chunk clipped (request = {chunk_len}, remaining bytes = {})", bytes - self.pos);
         }
 
         for span in &self.spans {
@@ -128,15 +127,14 @@ impl WalkSlicer {
                 break;
             }
 
-            let len = std::cmp::min(self.pos + span, bytes) - self.pos;
+            let len = std::cmp::min(*span, bytes - self.pos);
             if len < *span {
                 eprintln!("slice clipped (span = {span}, remaining bytes = {len}).");
             }
 
             self.segments.push(Segment { pos: self.pos, len });
-            self.pos += span;
+            self.pos += len;
         }
-        Ok((is_eof, bytes))
     }
 }
 
@@ -151,17 +149,14 @@ impl SegmentStream for WalkSlicer {
             return Ok((is_eof, bytes, count, max_consume));
         }
 
-        let (is_eof, bytes) = loop {
+        // the last chunk is clipped at the end of the stream, so don't leave it once the source reached EOF
+        while self.pos < bytes {
             let chunk_len = self.calc_next_chunk_len();
-            if self.pos + chunk_len > bytes {
-                break (is_eof, bytes);
-            }
-
-            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;
-            if self.pos >= bytes {
-                break (is_eof, bytes);
+            if !is_eof && chunk_len > bytes - self.pos {
+                break;
             }
-        };
+            self.extend_segment_buf(chunk_len, bytes);
+        }
 
         let count = self.segments.len();
         let max_consume = std::cmp::min(bytes, self.pos);
-- 
2.43.0


From 4bf722aee8ee440461f9f0b7453fa10dd57f36fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 09/40] fix: GuidedSlicer panicked or lost slices that cross
 the end of the stream

---
 src/segment/guided.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/segment/guided.rs b/src/segment/guided.rs
index 35722b0..04948d4 100644
--- a/src/segment/guided.rs
+++ b/src/segment/guided.rs
@@ -32,41 +32,44 @@ impl GuidedSlicer {
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, bytes: usize) -> Result<()> {
-        // all existing segments must be covered as we requested longer
-        debug_assert!(self.segments.last().map_or(0, |x| x.tail()) <= bytes);
-
         // first update max_consume to the end of the current chunk of the stream
         // (may be shortened in the loop)
         self.max_consume = bytes;
 
-        let tail = self.src_consumed + bytes; // in absolute offset
         loop {
+            // do not expose the last segment until the stream covers it
+            if let Some(last) = self.segments.last() {
+                if !is_eof && (last.pos >= bytes || last.tail() > bytes) {
+                    self.max_consume = std::cmp::min(self.max_consume, last.pos);
+                    self.guide_consumed = self.segments.len() - 1;
+                    return Ok(());
+                }
+            }
+
             // read the next guide to the buffer
             self.buf.clear();
 
             let ret = self.guide.read_line(&mut self.buf)?;
             if ret.is_none() {
                 // the guide stream reached EOF
-                self.guide_consumed = self.segments.len();
                 break;
             }
             let (offset, span) = ret.unwrap();
 
             // slice the stream out by the guide
             let pos = offset - self.src_consumed;
-            let len = if is_eof {
-                std::cmp::min(offset + span, tail) - offset
-            } else {
-                span
-            };
-            self.segments.push(Segment { pos, len });
+            self.segments.push(Segment { pos, len: span });
+        }
 
-            if offset + span > tail {
-                self.max_consume = std::cmp::min(self.max_consume, pos);
-                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
-                break;
+        // clip the segments at the end of the stream
+        if is_eof {
+            self.segments.retain(|x| x.pos < bytes);
+            for s in &mut self.segments {
+                s.len = std::cmp::min(s.len, bytes - s.pos);
             }
         }
+        self.guide_consumed = self.segments.len();
+
         Ok(())
     }
 }
-- 
2.43.0


From b7d7bb1277671727bea12c05ce2c3c5976ede311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 10/40] fix: don't pad text-formatted inputs with the filler to
 the word boundary

---
 src/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 00658e7..5d9549d 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -330,7 +330,9 @@ impl Pipeline {
     }
 
     fn build_parser(&self, source: Box<dyn Read + Send>) -> Box<dyn ByteStream> {
-        let source = Box::new(RawStream::new(source, self.word_size, self.filler));
+        // the alignment is for the (parsed) binary stream; text records must not be padded
+        let align = if self.in_format.is_binary() { self.word_size } else { 1 };
+        let source = Box::new(RawStream::new(source, align, self.filler));
         if self.in_format.is_binary() {
             source
         } else if self.in_format.is_gapless() {
-- 
2.43.0


From ef3e5b7f6106349d2038166a6c11b402b165d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 11/40] fix: text records longer than the buffered block were
 parsed at the middle of a column

---
 src/text/parser/mod.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index 2f36c5d..b7d24e0 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -390,7 +390,7 @@ impl TextParser {
         Some((fwd1 + fwd2 + 1, offset as usize, span as usize))
     }
 
-    fn read_body(&self, stream: &[u8], len: usize, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
+    fn read_body(&self, stream: &[u8], len: usize, is_eof: bool, is_in_tail: bool, buf: &mut Vec<u8>) -> Option<(usize, bool, bool, bool)> {
         debug_assert!(stream.len() >= len + MARGIN_SIZE);
 
         let mut stream = stream;
@@ -417,17 +417,15 @@ impl TextParser {
         if rem_len > 0 {
             // tail
             debug_assert!(rem_len < 4 * 48);
-            let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
-            let (scanned, parsed) = ret.0;
 
-            if parsed > rem_len {
-                debug_assert!(!is_in_tail);
-                let total = (len + parsed - rem_len) / 3;
-                let keep = len / 3;
-                buf.truncate(buf.len() + keep - total);
-                return Some((keep * 3, false, false, true));
+            // the array continues to the next block; requires more stream to parse it at the column boundary
+            if !is_eof && !is_in_tail && !stream[..rem_len].contains(&b'\n') {
+                return Some((len - rem_len, false, false, true));
             }
 
+            let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
+            let (scanned, parsed) = ret.0;
+
             debug_assert!(!is_in_tail || parsed == 0);
             is_in_tail = parsed < rem_len;
 
@@ -447,7 +445,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
             rem_len -= fwd;
             is_in_tail = delim_found;
@@ -508,7 +506,7 @@ impl TextParser {
         let mut is_in_tail = false;
         while rem_len > 0 {
             let (fwd, delim_found, eol_found, refeed) = self
-                .read_body(stream, rem_len, is_in_tail, buf)
+                .read_body(stream, rem_len, is_eof, is_in_tail, buf)
                 .with_context(|| format!("failed to parse array at {}", &self.cache.format(false)))?;
 
             rem_len -= fwd;
-- 
2.43.0


From 83c99e70ed322cc847289b7f505c4a2453a6db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 12/40] fix: ConstSlicer exposed slices too close to the end of
 a shrunk, not-yet-EOF buffer

---
 src/segment/stride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index f41f0d4..1abb013 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -319,8 +319,8 @@ impl ConstSegments {
             return self.update_lend_state(next_tail, len, self.segments.len());
         }
 
-        let n_extra = self.count_segments(next_tail.saturating_sub(len + self.pitch));
-        // let n_extra = std::cmp::min(self.segments.len(), n_extra);
+        let n_extra = self.count_segments((next_tail + self.tail_reserved_bytes).saturating_sub(len + self.pitch));
+        let n_extra = std::cmp::min(self.segments.len(), n_extra);
 
         let next_tail = next_tail - n_extra * self.pitch;
         let count = self.segments.len() - n_extra;
-- 
2.43.0


From e38c94a1c3ab18bc09beebff6d6679cf9edc0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:12 +0000
Subject: [PATCH 13/40] fix: MergeStream reported an unbounded max_consume and
 panicked on empty slices

---
 src/segment/merge.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/segment/merge.rs b/src/segment/merge.rs
index e142127..6da604f 100644
--- a/src/segment/merge.rs
+++ b/src/segment/merge.rs
@@ -34,7 +34,7 @@ impl Accumulator {
     fn pop(&mut self) -> Segment {
         let pos = self.start;
         let tail = self.end;
-        debug_assert!(pos < tail);
+        debug_assert!(pos <= tail);
 
         // clear the current state
         self.count = 0;
@@ -95,8 +95,10 @@ impl Accumulator {
 
     fn unwind(&mut self, bytes: usize) {
         // update states
-        self.start -= bytes;
-        self.end -= bytes;
+        if self.count > 0 {
+            self.start -= bytes;
+            self.end -= bytes;
+        }
     }
 
     fn furthest_margable_pos(&self) -> usize {
@@ -138,12 +140,10 @@ impl MergeStream {
             self.max_consume = bytes;
             return;
         }
-        if max_consume <= self.acc.furthest_margable_pos() {
-            self.max_consume = self.acc.start;
-            return;
-        }
 
-        self.max_consume = max_consume;
+        // the segment in the accumulator is not closed yet
+        // note: `acc.start` is larger than any offset if there's no segment in the accumulator
+        self.max_consume = std::cmp::min(max_consume, self.acc.start);
     }
 
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, max_consume: usize) {
-- 
2.43.0


From 70f1b28dd61d21e44d109f6f6dd680c623638207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 14/40] fix: --regex, --invert, and --extend lost or misordered
 slices that span multiple fills

---
 src/segment/bridge.rs | 12 +++++++---
 src/segment/extend.rs | 51 ++++++++++---------------------------------
 src/segment/mod.rs    | 23 +++++++++++++++++++
 src/segment/regex.rs  | 37 +++++++++++++++++--------------
 4 files changed, 65 insertions(+), 58 deletions(-)

diff --git a/src/segment/bridge.rs b/src/segment/bridge.rs
index 58b0232..2b13039 100644
--- a/src/segment/bridge.rs
+++ b/src/segment/bridge.rs
@@ -1,7 +1,7 @@
 // @file bridge.rs
 // @author Hajime Suzuki
 
-use super::{Segment, SegmentStream};
+use super::{settle_segments, Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
 
@@ -9,6 +9,9 @@ pub struct BridgeStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
+    // #segments that are exposed to the next node
+    count: usize,
+
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
     src_scanned: usize,
@@ -37,6 +40,7 @@ impl BridgeStream {
         Ok(BridgeStream {
             src,
             segments: Vec::new(),
+            count: 0,
             src_scanned: 0,
             last_end: 0,
             max_consume: 0,
@@ -133,12 +137,13 @@ impl SegmentStream for BridgeStream {
         self.update_max_consume(is_eof, bytes);
         let max_consume = std::cmp::min(max_consume, self.max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        (self.count, self.max_consume) = settle_segments(&mut self.segments, is_eof, bytes, max_consume);
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, &self.segments[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -155,6 +160,7 @@ impl SegmentStream for BridgeStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.count -= from;
         self.last_end -= bytes as isize;
         self.max_consume -= bytes;
 
diff --git a/src/segment/extend.rs b/src/segment/extend.rs
index d883212..ac95bce 100644
--- a/src/segment/extend.rs
+++ b/src/segment/extend.rs
@@ -1,35 +1,16 @@
 // @file extend.rs
 // @author Hajime Suzuki
 
-use super::{Segment, SegmentStream};
+use super::{settle_segments, Segment, SegmentStream};
 use crate::mapper::SegmentMapper;
 use anyhow::{anyhow, Result};
-use std::cmp::Reverse;
-use std::collections::BinaryHeap;
-
-#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Copy, Clone)]
-struct SorterElement {
-    pos: usize,
-    len: usize,
-    original_end: usize,
-}
-
-impl From<SorterElement> for Segment {
-    fn from(elem: SorterElement) -> Segment {
-        Segment {
-            pos: elem.pos,
-            len: elem.len,
-        }
-    }
-}
 
 pub struct ExtendStream {
     src: Box<dyn SegmentStream>,
     segments: Vec<Segment>,
 
-    // sorter; needed to reorder the segments when the start positions of the mapped
-    // segments are derived from the end positions of the source segments
-    sorter: BinaryHeap<Reverse<SorterElement>>,
+    // #segments that are exposed to the next node
+    count: usize,
 
     // #segments that are not consumed in the source but already accumulated to `acc`
     // note: not the count from the beginning of the source stream
@@ -56,7 +37,7 @@ impl ExtendStream {
         Ok(ExtendStream {
             src,
             segments: Vec::new(),
-            sorter: BinaryHeap::new(),
+            count: 0,
             src_scanned: 0,
             max_consume: 0,
             mappers,
@@ -70,7 +51,7 @@ impl ExtendStream {
         }
 
         let max_consume = max_consume as isize;
-        let phantom = [max_consume, max_consume + 1];
+        let phantom = [max_consume, max_consume];
 
         let eval_phantom = |m: &SegmentMapper| {
             let (start, end) = m.evaluate(&phantom, &phantom);
@@ -85,7 +66,7 @@ impl ExtendStream {
     fn extend_segment_buf(&mut self, is_eof: bool, count: usize, bytes: usize) {
         let tail = if is_eof { bytes } else { usize::MAX };
 
-        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<SorterElement> {
+        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<Segment> {
             let s = [segment.pos as isize, segment.tail() as isize];
             let (start, end) = m.evaluate(&s, &s);
 
@@ -94,10 +75,9 @@ impl ExtendStream {
 
             // record the segment
             if start < end {
-                Some(SorterElement {
+                Some(Segment {
                     pos: start,
                     len: end - start,
-                    original_end: segment.tail(),
                 })
             } else {
                 None
@@ -111,22 +91,13 @@ impl ExtendStream {
         for next in &segments[self.src_scanned..count] {
             for mapper in &self.mappers {
                 if let Some(s) = map_segment(mapper, next) {
-                    self.sorter.push(Reverse(s));
+                    self.segments.push(s);
                 }
             }
         }
 
         // all source segments are mapped; save the source-scanning states
         self.src_scanned = count;
-
-        // then sort the mapped segments into `self.segments` array
-        let tail = if is_eof { usize::MAX } else { bytes };
-        while let Some(&Reverse(s)) = self.sorter.peek() {
-            debug_assert!(s.original_end <= tail);
-
-            let s = self.sorter.pop().unwrap().0;
-            self.segments.push(s.into());
-        }
     }
 }
 
@@ -139,12 +110,13 @@ impl SegmentStream for ExtendStream {
         self.update_max_consume(is_eof, bytes, max_consume);
         let max_consume = std::cmp::min(max_consume, self.max_consume);
 
-        Ok((is_eof, bytes, self.segments.len(), max_consume))
+        (self.count, self.max_consume) = settle_segments(&mut self.segments, is_eof, bytes, max_consume);
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (stream, &self.segments[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
@@ -161,6 +133,7 @@ impl SegmentStream for ExtendStream {
         for s in &mut self.segments {
             s.pos -= bytes;
         }
+        self.count -= from;
         self.max_consume -= bytes;
 
         Ok((bytes, from))
diff --git a/src/segment/mod.rs b/src/segment/mod.rs
index 9bd0c73..9b99056 100644
--- a/src/segment/mod.rs
+++ b/src/segment/mod.rs
@@ -58,6 +58,29 @@ impl From<Range<usize>> for Segment {
     }
 }
 
+// sorts segments that were derived (mapped) from the source segments, and returns (#segments, max_consume), where
+// the former is the number of the segments that can be exposed to the next node. the segments that start at or after
+// `max_consume` are kept hidden because a segment derived in the next iteration may be placed before them. those that
+// aren't covered by the source stream are also hidden until they are covered or clipped at the end of the stream.
+fn settle_segments(segments: &mut Vec<Segment>, is_eof: bool, bytes: usize, max_consume: usize) -> (usize, usize) {
+    if is_eof {
+        segments.retain(|x| x.pos < bytes);
+        for s in segments.iter_mut() {
+            s.len = std::cmp::min(s.len, bytes - s.pos);
+        }
+    }
+    segments.sort_by_key(|x| (x.pos, x.len));
+
+    if is_eof {
+        return (segments.len(), bytes);
+    }
+
+    match segments.iter().position(|x| x.pos >= max_consume || x.tail() > bytes) {
+        Some(count) => (count, std::cmp::min(max_consume, segments[count].pos)),
+        None => (segments.len(), max_consume),
+    }
+}
+
 pub trait SegmentStream: Send {
     // chunked iterator
 
diff --git a/src/segment/regex.rs b/src/segment/regex.rs
index b8afac7..617ec32 100644
--- a/src/segment/regex.rs
+++ b/src/segment/regex.rs
@@ -2,14 +2,20 @@
 // @author Hajime Suzuki
 // @brief regex slicer
 
-use super::{Segment, SegmentStream};
+use super::{settle_segments, Segment, SegmentStream};
 use anyhow::Result;
 use regex::bytes::{Match, Regex};
 
 pub struct RegexSlicer {
     src: Box<dyn SegmentStream>,
     matches: Vec<Segment>,
-    scanned: usize,
+
+    // #matches that are exposed to the next node
+    count: usize,
+
+    // #segments that are not consumed in the source but already scanned
+    src_scanned: usize,
+    max_consume: usize,
     re: Regex,
 }
 
@@ -21,7 +27,9 @@ impl RegexSlicer {
         Ok(RegexSlicer {
             src,
             matches,
-            scanned: 0,
+            count: 0,
+            src_scanned: 0,
+            max_consume: 0,
             re,
         })
     }
@@ -39,30 +47,26 @@ impl SegmentStream for RegexSlicer {
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
 
         let (stream, segments) = self.src.as_slices();
-        for s in &segments[..count] {
-            if s.pos < self.scanned {
-                continue;
-            }
-
+        for s in &segments[self.src_scanned..count] {
             self.matches
                 .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
         }
 
-        self.scanned += bytes;
+        self.src_scanned = count;
 
-        Ok((is_eof, bytes, self.matches.len(), max_consume))
+        (self.count, self.max_consume) = settle_segments(&mut self.matches, is_eof, bytes, max_consume);
+        Ok((is_eof, bytes, self.count, self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.matches)
+        (stream, &self.matches[..self.count])
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
-        let (bytes, _) = self.src.consume(bytes)?;
-        if bytes == 0 {
-            return Ok((0, 0));
-        }
+        let bytes = std::cmp::min(bytes, self.max_consume);
+        let (bytes, src_count) = self.src.consume(bytes)?;
+        self.src_scanned -= src_count;
 
         // determine how many bytes to consume...
         let from = self.matches.partition_point(|x| x.pos < bytes);
@@ -75,7 +79,8 @@ impl SegmentStream for RegexSlicer {
             m.pos -= bytes;
         }
 
-        self.scanned -= bytes;
+        self.count -= from;
+        self.max_consume -= bytes;
 
         Ok((bytes, from))
     }
-- 
2.43.0


From 3ed12f776c21b4daf16b1374b3dbe993310743b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 15/40] fix: --slice reported the tail of the last slice as the
 end of the stream to --invert and --extend

---
 src/pipeline.rs      |  6 +++++-
 src/segment/range.rs | 13 +++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pipeline.rs b/src/pipeline.rs
index 5d9549d..24383e0 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -386,7 +386,11 @@ impl Pipeline {
                     (cache, NodeInstance::Segment(next))
                 }
                 (Slice(exprs), NodeInstance::Byte(prev)) => {
-                    let next = Box::new(RangeSlicer::new(prev, exprs)?);
+                    let next = RangeSlicer::new(prev, exprs)?;
+
+                    // mapping slices needs the true end of the stream
+                    let needs_tail = self.nodes.iter().any(|x| matches!(x, Bridge(_) | Extend(_)));
+                    let next = Box::new(if needs_tail { next.keep_tail() } else { next });
                     (cache, NodeInstance::Segment(next))
                 }
                 (Guide(file), NodeInstance::Byte(prev)) => {
diff --git a/src/segment/range.rs b/src/segment/range.rs
index d6f9325..288d6e7 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -105,6 +105,9 @@ pub struct RangeSlicer {
     max_consume: usize,  // in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
+
+    // when true, it reports the EOF of the source as is, even after the last slice is found
+    keep_tail: bool,
 }
 
 impl RangeSlicer {
@@ -115,8 +118,14 @@ impl RangeSlicer {
             max_consume: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
+            keep_tail: false,
         })
     }
+
+    // the next nodes require the true end position of the stream
+    pub fn keep_tail(self) -> Self {
+        RangeSlicer { keep_tail: true, ..self }
+    }
 }
 
 impl SegmentStream for RangeSlicer {
@@ -124,8 +133,8 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
-        let (is_eof, bytes, max_consume) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
+        let (is_eof, bytes, max_consume) = if !self.keep_tail && self.cutter.is_empty() {
+            let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
         } else {
-- 
2.43.0


From 8f2825c29c6d8f813626a1810c2eb2c9d8b00f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 16/40] fix: --lines dropped repeated slices and closed the
 stream before the last slices became consumable

---
 src/segment/filter.rs | 44 +++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/segment/filter.rs b/src/segment/filter.rs
index 7c7ddae..c7ace7c 100644
--- a/src/segment/filter.rs
+++ b/src/segment/filter.rs
@@ -101,11 +101,6 @@ impl Cutter {
             }
         }
 
-        if is_eof {
-            v.sort_by_key(|x| (x.pos, x.len));
-            v.dedup();
-        }
-
         let scanned = std::cmp::max(scan_upto, scanned);
         Ok(scanned)
     }
@@ -116,6 +111,8 @@ pub struct FilterStream {
     src_scanned: usize,  // relative count in the next segment array
     src_consumed: usize, // absolute count from the head
     max_consume: usize,  // in #bytes
+    is_closed: bool,     // true once all the ranges are evaluated and all the remaining slices are ready
+    src_offset: usize,   // in #bytes; the source stream may lag behind after the stream is closed
     segments: Vec<Segment>,
     cutter: Cutter,
 }
@@ -127,6 +124,8 @@ impl FilterStream {
             src_scanned: 0,
             src_consumed: 0,
             max_consume: 0,
+            is_closed: false,
+            src_offset: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
         })
@@ -135,6 +134,10 @@ impl FilterStream {
 
 impl SegmentStream for FilterStream {
     fn fill_segment_buf(&mut self) -> Result<(bool, usize, usize, usize)> {
+        if self.is_closed {
+            return Ok((true, self.max_consume, self.segments.len(), self.max_consume));
+        }
+
         let (is_eof, bytes, count, max_consume) = self.src.fill_segment_buf()?;
         let (_, segments) = self.src.as_slices();
 
@@ -143,13 +146,6 @@ impl SegmentStream for FilterStream {
             .cutter
             .accumulate(self.src_scanned, self.src_consumed, is_eof, count, segments, &mut self.segments)?;
 
-        let (is_eof, bytes) = if self.cutter.is_empty() {
-            let bytes = self.segments.last().map_or(self.max_consume, |x| x.tail());
-            (true, bytes)
-        } else {
-            (is_eof, bytes)
-        };
-
         self.src_scanned = scanned;
         self.max_consume = if is_eof {
             bytes
@@ -159,20 +155,40 @@ impl SegmentStream for FilterStream {
             std::cmp::min(segments[scanned].pos, max_consume)
         };
 
+        // the stream can be closed before the source reaches EOF when no range remains. note that
+        // it must be postponed until the source allows to consume all the remaining slices
+        if !is_eof && self.cutter.is_empty() {
+            let tail = self.segments.iter().map(|x| x.tail()).max().unwrap_or(0);
+            if tail <= self.max_consume {
+                self.is_closed = true;
+                self.max_consume = tail;
+                return Ok((true, tail, self.segments.len(), tail));
+            }
+        }
+
         Ok((is_eof, bytes, self.segments.len(), self.max_consume))
     }
 
     fn as_slices(&self) -> (&[u8], &[Segment]) {
         let (stream, _) = self.src.as_slices();
-        (stream, &self.segments)
+        (&stream[self.src_offset..], &self.segments)
     }
 
     fn consume(&mut self, bytes: usize) -> Result<(usize, usize)> {
         let bytes = std::cmp::min(bytes, self.max_consume);
-        let (bytes, src_count) = self.src.consume(bytes)?;
+        let (src_bytes, src_count) = self.src.consume(self.src_offset + bytes)?;
         self.src_scanned -= src_count;
         self.src_consumed += src_count;
 
+        // the source can forward the pointer less than requested. when the stream is closed,
+        // we hide the remainder because the consumer expects all the bytes to be consumed at EOF
+        let bytes = if self.is_closed {
+            self.src_offset = self.src_offset + bytes - src_bytes;
+            bytes
+        } else {
+            src_bytes
+        };
+
         let from = self.segments.partition_point(|x| x.pos < bytes);
         let to = self.segments.len();
 
-- 
2.43.0


From 6f6ef72824ea0ea0f69bba6465ec93d005e5613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 17/40] fix: an output error on the last partial block was not
 reported

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 35ae6de..e94c841 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -232,5 +232,6 @@ fn consume_stream(stream: Box<dyn ByteStream>, drain: Box<dyn Write>) -> Result<
         stream.consume(bytes);
     }
 
+    drain.flush()?;
     Ok(())
 }
-- 
2.43.0


From cd677830723df5d361aafbea6c9db8fe2a70f7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 18/40] fix: CatStream and ZeroStream returned fewer bytes than
 requested

---
 src/byte/cat.rs  | 6 +++---
 src/byte/zero.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte/cat.rs b/src/byte/cat.rs
index 9b4e555..8a2f143 100644
--- a/src/byte/cat.rs
+++ b/src/byte/cat.rs
@@ -72,10 +72,10 @@ impl ByteStream for CatStream {
         }
 
         // try to extend at least one byte even if the cache already has enough bytes
-        let request = request.saturating_sub(self.cache.len());
-        let request = std::cmp::max(1, request);
+        let additional = request.saturating_sub(self.cache.len());
+        let additional = std::cmp::max(1, additional);
 
-        let (is_eof, bytes) = self.srcs[self.i].fill_buf(request)?;
+        let (is_eof, bytes) = self.srcs[self.i].fill_buf(additional)?;
         if is_eof || self.cache.len() > 0 {
             // path 1: the source remainder is not enough for the `request` so we try
             // the next source and accumulate them (including the one tried above)
diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e82acba..e53abc7 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -30,14 +30,14 @@ impl ZeroStream {
 }
 
 impl ByteStream for ZeroStream {
-    fn fill_buf(&mut self, _: usize) -> Result<(bool, usize)> {
+    fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         if self.offset >= self.len {
             self.next_len = 0;
             return Ok((true, 0));
         }
 
-        // TODO: we need this
-        // self.next_len = std::cmp::max(self.next_len, request);
+        let request = std::cmp::min(self.len - self.offset, request);
+        self.next_len = std::cmp::max(self.next_len, request);
         self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);
 
         let is_eof = self.len <= self.offset + self.next_len;
-- 
2.43.0


From dfbe086153c0867a77c9df799e15912557ebdcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 19/40] fix: ZeroStream hid the bytes that had been exposed to
 the downstream

---
 src/byte/zero.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/byte/zero.rs b/src/byte/zero.rs
index e53abc7..32e296e 100644
--- a/src/byte/zero.rs
+++ b/src/byte/zero.rs
@@ -56,7 +56,9 @@ impl ByteStream for ZeroStream {
             return;
         }
         self.offset += amount;
-        self.next_len = std::cmp::min(self.len - self.offset, BLOCK_SIZE);
+        // bytes that have been exposed once must not be hidden again
+        self.next_len = std::cmp::max(self.next_len - amount, BLOCK_SIZE);
+        self.next_len = std::cmp::min(self.len - self.offset, self.next_len);
     }
 }
 
-- 
2.43.0


From 757c3e0403dbfd02c3c203182c5ddb6216f54193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:40 +0000
Subject: [PATCH 20/40] fix: --slice hid the tails of consumed slices from
 --regex once the last slice was found

---
 src/segment/range.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/segment/range.rs b/src/segment/range.rs
index 288d6e7..6896c7e 100644
--- a/src/segment/range.rs
+++ b/src/segment/range.rs
@@ -103,6 +103,7 @@ pub struct RangeSlicer {
     src: Box<dyn ByteStream>,
     src_consumed: usize, // in #bytes
     max_consume: usize,  // in #bytes
+    max_tail: usize,     // the furthest end of the slices found so far, in #bytes
     segments: Vec<Segment>,
     cutter: Cutter,
 
@@ -116,6 +117,7 @@ impl RangeSlicer {
             src,
             src_consumed: 0,
             max_consume: 0,
+            max_tail: 0,
             segments: Vec::new(),
             cutter: Cutter::from_str(exprs)?,
             keep_tail: false,
@@ -133,8 +135,11 @@ impl SegmentStream for RangeSlicer {
         let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;
         let max_consume = self.cutter.accumulate(self.src_consumed, is_eof, bytes, &mut self.segments)?;
 
+        self.max_tail = self.segments.iter().map(|x| x.tail()).fold(self.max_tail, std::cmp::max);
+
         let (is_eof, bytes, max_consume) = if !self.keep_tail && self.cutter.is_empty() {
-            let bytes = self.segments.iter().map(|x| x.tail()).fold(self.max_consume, std::cmp::max);
+            // note: the slices may have been consumed (by their starts) before their ends
+            let bytes = std::cmp::max(self.max_consume, self.max_tail);
             let max_consume = std::cmp::min(bytes, max_consume);
             (true, bytes, max_consume)
         } else {
@@ -165,6 +170,7 @@ impl SegmentStream for RangeSlicer {
         }
         self.src_consumed += bytes;
         self.max_consume -= bytes;
+        self.max_tail = self.max_tail.saturating_sub(bytes);
 
         Ok((bytes, from))
     }
-- 
2.43.0


From d6604603ee4dda6d747e3f9bbc670b4edfceebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 21/40] fix: --patch-back lost the stream after the last slice,
 and the cache was overwritten when the reader was behind

The reader took the end of the cache for the end of the stream, so that
everything the slicer left unconsumed (e.g. --slice, --lines) or not yet
consumed was dropped from the output. Wait for the writer instead, and
read the rest directly from the source after the slicer finished.
---
 src/byte/tee.rs | 98 ++++++++++++++++++++++++++++++++++++++-----------
 src/pipeline.rs |  2 +-
 2 files changed, 78 insertions(+), 22 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index 10ef49f..caf051f 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -7,23 +7,29 @@ use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
 use anyhow::Result;
 use std::io::{Read, Seek, SeekFrom, Write};
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Condvar, Mutex};
 use tempfile::SpooledTempFile;
 
 struct TempFile {
     clear_eof: bool, // semaphore with a saturation counter
     file: SpooledTempFile,
+    tail: Option<Box<dyn ByteStream>>, // the source stream, handed over when the writer (TeeStream) is dropped
+    is_closed: bool,                   // true when the writer is dropped
 }
 
 pub struct TeeStream {
-    src: Box<dyn ByteStream>,
-    cache: Arc<Mutex<TempFile>>,
+    src: Option<Box<dyn ByteStream>>, // always Some(_) until being dropped
+    cache: Arc<(Mutex<TempFile>, Condvar)>,
 }
 
 pub struct TeeStreamReader {
-    cache: Arc<Mutex<TempFile>>,
+    cache: Arc<(Mutex<TempFile>, Condvar)>,
     buf: StreamBuf,
     offset: usize,
+
+    // when true, the end of the cache isn't EOF; it waits for the writer to append more bytes,
+    // and reads the source to the end (from where the writer left it) after the writer is dropped
+    wait: bool,
 }
 
 impl TeeStream {
@@ -31,11 +37,13 @@ impl TeeStream {
         let tempfile = TempFile {
             clear_eof: false,
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
+            tail: None,
+            is_closed: false,
         };
 
         TeeStream {
-            src,
-            cache: Arc::new(Mutex::new(tempfile)),
+            src: Some(src),
+            cache: Arc::new((Mutex::new(tempfile), Condvar::new())),
         }
     }
 
@@ -44,54 +52,102 @@ impl TeeStream {
             cache: Arc::clone(&self.cache),
             buf: StreamBuf::new(),
             offset: 0,
+            wait: false,
+        }
+    }
+}
+
+impl Drop for TeeStream {
+    fn drop(&mut self) {
+        let (cache, cond) = &*self.cache;
+        if let Ok(mut cache) = cache.lock() {
+            cache.tail = self.src.take();
+            cache.is_closed = true;
         }
+        cond.notify_all();
     }
 }
 
 impl ByteStream for TeeStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        self.src.fill_buf(request)
+        self.src.as_mut().unwrap().fill_buf(request)
     }
 
     fn as_slice(&self) -> &[u8] {
-        self.src.as_slice()
+        self.src.as_ref().unwrap().as_slice()
     }
 
     fn consume(&mut self, bytes: usize) {
-        let stream = self.src.as_slice();
+        let src = self.src.as_mut().unwrap();
+        let stream = src.as_slice();
         debug_assert!(stream.len() >= bytes);
 
-        match self.cache.lock() {
+        let (cache, cond) = &*self.cache;
+        match cache.lock() {
             Ok(mut cache) => {
+                // the cursor is shared with the reader
+                cache.file.seek(SeekFrom::End(0)).unwrap();
                 cache.file.write_all(&stream[..bytes]).unwrap();
                 cache.clear_eof = true; // increment semaphore
             }
             _ => panic!("failed to lock cache."),
         }
+        cond.notify_all();
 
-        self.src.consume(bytes);
+        src.consume(bytes);
+    }
+}
+
+impl TeeStreamReader {
+    pub fn wait_for_writer(self) -> Self {
+        TeeStreamReader { wait: true, ..self }
     }
 }
 
 impl ByteStream for TeeStreamReader {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        match self.cache.lock() {
+        let (cache, cond) = &*self.cache;
+        match cache.lock() {
             Ok(mut cache) => {
-                if cache.clear_eof {
+                if cache.clear_eof && !self.wait {
                     self.buf.clear_eof();
                     cache.clear_eof = false; // decrement semaphore
                 }
-                self.buf.fill_buf(request, |_, buf| {
-                    cache.file.seek(SeekFrom::Start(self.offset as u64)).unwrap();
-
-                    let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
-                    self.offset += len;
-
-                    Ok(len == 0)
-                })
             }
             _ => panic!("failed to lock cache."),
         }
+
+        self.buf.fill_buf(request, |request, buf| {
+            let mut cache = match cache.lock() {
+                Ok(cache) => cache,
+                _ => panic!("failed to lock cache."),
+            };
+            loop {
+                cache.file.seek(SeekFrom::Start(self.offset as u64)).unwrap();
+
+                let len = buf.fill_uninit(BLOCK_SIZE, |buf| Ok(cache.file.read(buf)?))?;
+                self.offset += len;
+
+                if len > 0 || !self.wait {
+                    return Ok(len == 0);
+                }
+                if cache.is_closed {
+                    break;
+                }
+                cache = cond.wait(cache).unwrap();
+            }
+
+            // the writer has gone. no more bytes will be cached
+            let tail = match &mut cache.tail {
+                Some(tail) => tail,
+                _ => return Ok(true),
+            };
+            let (is_eof, bytes) = tail.fill_buf(request)?;
+            buf.extend_from_slice(&tail.as_slice()[..bytes]);
+            tail.consume(bytes);
+
+            Ok(is_eof)
+        })
     }
 
     fn as_slice(&self) -> &[u8] {
diff --git a/src/pipeline.rs b/src/pipeline.rs
index 24383e0..fb0ecdb 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -374,7 +374,7 @@ impl Pipeline {
                 }
                 (Tee, NodeInstance::Byte(prev)) => {
                     let next = Box::new(TeeStream::new(prev));
-                    cache = Some(Box::new(next.spawn_reader()));
+                    cache = Some(Box::new(next.spawn_reader().wait_for_writer()));
                     (cache, NodeInstance::Byte(next))
                 }
                 (Width(params), NodeInstance::Byte(prev)) => {
-- 
2.43.0


From be5409f281f66c930fd8966e5b728c8f0d1650c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 22/40] fix: --patch-back panicked on commands that don't read
 all the slices, and ignored errors in the slices

The output of the command is received by a thread so that waiting for the
original stream never blocks the command.
---
 src/drain/patch.rs | 74 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 8 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 7f4c767..31635e1 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -6,8 +6,9 @@ use crate::params::BLOCK_SIZE;
 use crate::segment::SegmentStream;
 use crate::text::{InoutFormat, TextFormatter};
 use anyhow::Result;
-use std::io::Write;
-use std::process::{Child, ChildStdin, Command, Stdio};
+use std::io::{ErrorKind, Read, Write};
+use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
+use std::sync::mpsc::{channel, Receiver};
 use std::thread::JoinHandle;
 
 struct BashPipe {
@@ -31,7 +32,7 @@ impl BashPipe {
 
     fn spawn_reader(&mut self) -> RawStream {
         let output = self.child.stdout.take().unwrap();
-        RawStream::new(Box::new(output), 1, 0)
+        RawStream::new(Box::new(BashPipeReader::new(output)), 1, 0)
     }
 
     fn spawn_writer(&mut self) -> BashPipeWriter {
@@ -42,7 +43,13 @@ impl BashPipe {
 
 impl BashPipeWriter {
     fn write_all(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-        self.input.as_ref().unwrap().write_all(buf)?;
+        if let Some(mut input) = self.input.as_ref() {
+            match input.write_all(buf) {
+                // the command doesn't need the rest
+                Err(err) if err.kind() == ErrorKind::BrokenPipe => self.close(),
+                result => result?,
+            }
+        }
         Ok(buf.len())
     }
 
@@ -51,9 +58,58 @@ impl BashPipeWriter {
     }
 }
 
+// the output of the command must be received independently of the original stream, because the
+// command may not read its input (and then the original stream doesn't proceed) while writing to the pipe
+struct BashPipeReader {
+    output: Receiver<std::io::Result<Vec<u8>>>,
+    buf: Vec<u8>,
+    offset: usize,
+}
+
+impl BashPipeReader {
+    fn new(output: ChildStdout) -> Self {
+        let (sender, receiver) = channel();
+
+        std::thread::spawn(move || {
+            let mut output = output;
+            loop {
+                let mut buf = vec![0; 64 * 1024];
+                let result = output.read(&mut buf).map(|len| {
+                    buf.truncate(len);
+                    buf
+                });
+
+                let is_eof = !matches!(&result, Ok(buf) if !buf.is_empty());
+                if sender.send(result).is_err() || is_eof {
+                    break;
+                }
+            }
+        });
+
+        BashPipeReader {
+            output: receiver,
+            buf: Vec::new(),
+            offset: 0,
+        }
+    }
+}
+
+impl Read for BashPipeReader {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        if self.offset == self.buf.len() {
+            // disconnected after EOF
+            self.buf = self.output.recv().unwrap_or(Ok(Vec::new()))?;
+            self.offset = 0;
+        }
+
+        let len = (&self.buf[self.offset..]).read(buf)?;
+        self.offset += len;
+        Ok(len)
+    }
+}
+
 pub struct PatchDrain {
     patch: PatchStream,
-    prev_bytes: usize,
     pipe: BashPipe,
     thread: Option<JoinHandle<()>>,
 }
@@ -85,6 +141,9 @@ impl PatchDrain {
                 }
             }
 
+            // the slices are all formatted; hand the rest of the stream over to the cache
+            drop(patch);
+
             writer.write_all(&buf).unwrap();
             writer.close();
         });
@@ -94,7 +153,6 @@ impl PatchDrain {
 
         PatchDrain {
             patch,
-            prev_bytes: 0,
             pipe,
             thread: Some(thread),
         }
@@ -105,7 +163,8 @@ impl ByteStream for PatchDrain {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
         let (is_eof, bytes) = self.patch.fill_buf(request)?;
 
-        if is_eof && bytes == self.prev_bytes {
+        if is_eof {
+            // make sure that the slices are processed without an error before the last bytes are passed
             if let Some(thread) = self.thread.take() {
                 thread.join().unwrap();
             }
@@ -113,7 +172,6 @@ impl ByteStream for PatchDrain {
             self.pipe.child.wait().unwrap();
         }
 
-        self.prev_bytes = bytes;
         Ok((is_eof, bytes))
     }
 
-- 
2.43.0


From a005537ac3754429b042a706520a3a142ad5e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 23/40] fix: hex array parsers accepted or ignored different
 columns depending on the CPU and on the position in the line

---
 src/text/parser/mod.rs    |  4 +++-
 src/text/parser/x86_64.rs | 40 +++++++++++++++++++++++++--------------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/text/parser/mod.rs b/src/text/parser/mod.rs
index b7d24e0..81b6370 100644
--- a/src/text/parser/mod.rs
+++ b/src/text/parser/mod.rs
@@ -398,6 +398,7 @@ impl TextParser {
         let mut is_in_tail = is_in_tail;
 
         while rem_len >= 4 * 48 {
+            let base_len = buf.len();
             let ret = buf.fill_uninit_on_option_with_ret(4 * 16, |arr| (self.parse_body)(is_in_tail, stream, arr))?;
             let (scanned, parsed) = ret.0;
 
@@ -408,8 +409,9 @@ impl TextParser {
                 return Some((len - rem_len, is_in_tail, true, false));
             }
 
+            // the array ends at the second '|' or at the first blank column
             debug_assert!(!is_in_tail || parsed == 0);
-            is_in_tail = parsed < 4 * 48;
+            is_in_tail = parsed < 4 * 48 || buf.len() - base_len < 4 * 16;
 
             stream = rem_stream;
         }
diff --git a/src/text/parser/x86_64.rs b/src/text/parser/x86_64.rs
index 253a2e8..d5083f2 100644
--- a/src/text/parser/x86_64.rs
+++ b/src/text/parser/x86_64.rs
@@ -84,7 +84,8 @@ pub fn parse_hex_single_avx2(src: &[u8]) -> Option<(u64, usize)> {
     unsafe { parse_hex_single_impl(_mm_loadu_si128(src.as_ptr() as *const __m128i)) }
 }
 
-unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems: usize, v: &mut [u8]) -> Option<usize> {
+unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, len: usize, v: &mut [u8]) -> Option<usize> {
+    let (elems, seps) = ((len + 1) / 3, len / 3);
     debug_assert!(elems <= 16);
 
     // gather every three elements
@@ -105,29 +106,33 @@ unsafe fn parse_multi(x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, elems:
     let x23h = _mm_unpackhi_epi32(x2, x3);
     let s = _mm_unpacklo_epi64(x01h, x23h);
 
-    let (xh, vh, sh) = to_hex(l);
-    let (xl, vl, sl) = to_hex(h);
+    let (xh, vh, _) = to_hex(l);
+    let (xl, vl, _) = to_hex(h);
 
-    // validation; we allow double-space columns (null)
-    // "   " ok
+    // the array ends at the first double-space column (null)
+    let space = _mm_set1_epi8(b' ' as i8);
+    let is_null = _mm_and_si128(_mm_cmpeq_epi8(l, space), _mm_cmpeq_epi8(h, space));
+    let is_null = _mm_movemask_epi8(is_null) as u64;
+    let n_elems = (is_null | (1 << elems)).trailing_zeros() as usize;
+
+    // validation; every column before the null must be two hexes, and be followed by a space
+    // (the space is optional at the end of the array)
     // "0  " ng
     // " 0 " ng
+    // "00x" ng
     // "00 " ok
-    let is_space = _mm_cmpeq_epi8(s, _mm_set1_epi8(b' ' as i8));
-    let is_space = _mm_movemask_epi8(is_space) as u64;
-    let is_space = (is_space << 1) | 1;
-
-    let is_null = sh & sl;
     let is_valid = vh & vl;
+    let is_space = _mm_movemask_epi8(_mm_cmpeq_epi8(s, space)) as u64;
 
-    let mask = 0u64.wrapping_sub(1 << elems);
-    if (((is_valid | is_null) & is_space) | mask) != 0xffffffffffffffff {
+    let valid_mask = (1u64 << n_elems) - 1;
+    let space_mask = (1u64 << n_elems.min(seps)) - 1;
+    if (is_valid & valid_mask) != valid_mask || (is_space & space_mask) != space_mask {
         return None;
     }
 
     let hex = _mm_or_si128(xl, _mm_slli_epi16(xh, 4));
     _mm_storeu_si128(&mut v[0] as *mut u8 as *mut __m128i, hex);
-    Some((is_null | mask).trailing_zeros() as usize)
+    Some(n_elems)
 }
 
 pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Option<((usize, usize), usize)> {
@@ -137,6 +142,7 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
     let mut scanned = 0;
     let mut parsed = 0;
     let mut n_elems = 0;
+    let mut is_null_found = false;
 
     unsafe {
         let find_delim = |x0: __m128i, x1: __m128i, x2: __m128i, x3: __m128i, delim: u8| -> usize {
@@ -170,7 +176,13 @@ pub fn parse_hex_body_avx2(is_in_tail: bool, src: &[u8], dst: &mut [u8]) -> Opti
 
             let parse_len = parse_len.min(scan_len);
             parsed += parse_len;
-            n_elems += parse_multi(x0, x1, x2, x3, (parse_len + 1) / 3, &mut dst[n_elems..])?;
+
+            // the columns after a null are ignored
+            if !is_null_found {
+                let n = parse_multi(x0, x1, x2, x3, parse_len, &mut dst[n_elems..])?;
+                is_null_found = n < 16;
+                n_elems += n;
+            }
 
             if scan_len < 48 {
                 break;
-- 
2.43.0


From c979194a1f6c1d1f8eca0872c22ded975f201db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 24/40] fix: operators other than arithmetic ones did not
 follow the precedence of C

---
 src/eval.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 9b60d7b..f1a24f0 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -49,21 +49,26 @@ fn is_pow(c: char) -> bool {
     c == '@'
 }
 
+fn precedence(c: char) -> usize {
+    // the same as C, except for '@'
+    match c {
+        _ if is_muldiv(c) => 7,
+        _ if is_addsub(c) => 6,
+        _ if is_shift(c) => 5,
+        _ if is_pow(c) => 4,
+        _ if is_cmp(c) => 3,
+        '&' => 2,
+        '^' => 1,
+        _ => 0, // '|'
+    }
+}
+
 fn latter_precedes(former: &Token, latter: &Token) -> bool {
     match (former, latter) {
         (&Prefix(_), &Op(latter)) => is_pow(latter),
         (&Op(former), &Op(latter)) => {
-            if is_muldiv(former) || is_muldiv(latter) {
-                return !is_muldiv(former);
-            } else if is_addsub(former) || is_addsub(latter) {
-                return !is_addsub(former);
-            } else if is_shift(former) || is_shift(latter) {
-                return !is_shift(former);
-            } else if is_pow(former) || is_pow(latter) {
-                return is_pow(latter);
-            }
-            debug_assert!(is_cmp(former) && is_cmp(latter));
-            false
+            let (former, latter) = (precedence(former), precedence(latter));
+            former < latter || (former == latter && latter == precedence('@')) // '@' is right-associative
         }
         _ => true,
     }
-- 
2.43.0


From 1179af0221ae83d3727785450cdf6a3d167ca7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 25/40] fix: expression simplifier merged different variables
 and panicked on non-additive operators

---
 src/eval.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index f1a24f0..1b1fd06 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -496,10 +496,8 @@ fn is_comm_1(op: char) -> bool {
 }
 
 fn is_comm_2(op1: char, op2: char) -> bool {
-    if is_addsub(op1) && is_addsub(op2) {
-        return true;
-    }
-    is_comm_1(op1) && op1 == op2
+    // the other ops don't have signs that can be moved between the two
+    is_addsub(op1) && is_addsub(op2)
 }
 
 // fn is_comm_3(op1: char, op2: char, op3: char) -> bool {
@@ -644,7 +642,7 @@ fn rotate_left(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
 
                 let (s1, op1) = peel_sign_from_op(op1);
                 let (s2, op2) = peel_sign_from_op(op2);
-                let (op1, op2) = (fuse_sign3(s2, op1, op2), fuse_sign_op(s1, fuse_sign2(s2, op1)));
+                let (op1, op2) = (fuse_sign2(s2, op1), fuse_sign_op(s1, fuse_sign3(s2, op1, op2)));
                 save_and_flip(tokens, root - rlhs, Op(op1), lhs - rlhs);
                 save_and_flip(tokens, root, Op(op2), rlhs);
 
@@ -692,7 +690,7 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(op1), llhs);
                 return Some((true, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (tokens[lhs - 1].0, y) {
+            if let ((Var(x, xc), 0), (Var(y, yc), 0)) = (tokens[lhs - 1], tokens[root - 1]) {
                 if x == y {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs - 1].0 = Var(x, apply_op(op2, xc, yc));
@@ -711,7 +709,7 @@ fn sort_tokens(tokens: &mut [(Token, usize)]) -> Option<(bool, usize)> {
                 save_and_flip(tokens, root, Op(swap_op_hands(op)), ylen + 1);
                 return Some((false, root));
             }
-            if let (Var(x, xc), Var(y, yc)) = (x, y) {
+            if let (((Var(x, xc), 0), (Var(y, yc), 0)), true) = ((tokens[lhs], tokens[root - 1]), is_addsub(op)) {
                 if x == y {
                     // squash the two nodes if they have the same variable id
                     tokens[lhs].0 = Var(x, apply_op(op, xc, yc));
@@ -794,16 +792,16 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), _), x, Op(op)) if is_addsub(op) => {
+        ((Var(_, 0), 0), _, Op(op)) if is_addsub(op) => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
-            match x {
-                Val(x) => {
+            match tokens[root - 1] {
+                (Val(x), _) => {
                     tokens[lhs].0 = Val(apply_prefix(op, x));
                     Some(lhs)
                 }
-                Var(id, c) => {
+                (Var(id, c), 0) => {
                     tokens[lhs].0 = Var(id, apply_prefix(op, c));
                     Some(lhs)
                 }
@@ -860,7 +858,7 @@ fn remove_prefix_unary(tokens: &mut [(Token, usize)]) -> Option<usize> {
 
     match (tokens[lhs], tokens[root].0) {
         ((Prefix(s1), llhs), Prefix(s2)) => {
-            if s1 == s2 {
+            if s1 == s2 && s1 != 'G' {
                 // x ! ! => x
                 remove_prefix_unary(&mut tokens[..lhs - llhs + 1])
             } else if is_addsub(s1) && is_addsub(s2) {
@@ -916,14 +914,14 @@ fn remove_prefix_binary(tokens: &mut [(Token, usize)]) -> Option<usize> {
     match (tokens[lhs], tokens[root - 1].0, tokens[root].0) {
         (x, y, Op(op)) if is_addsub(op) => {
             let (s1, lhs, root) = match x {
-                (Prefix(s1), llhs) => {
+                (Prefix(s1 @ ('+' | '-')), llhs) => {
                     tokens[lhs - llhs + 1..].rotate_left(llhs);
                     (s1, lhs - llhs, root - llhs)
                 }
                 _ => ('+', lhs, root),
             };
             let (s2, root) = match y {
-                Prefix(s2) => (s2, root - 1),
+                Prefix(s2 @ ('+' | '-')) => (s2, root - 1),
                 _ => ('+', root),
             };
             save_and_flip(tokens, root, Op(gather_sign2(s1, op, s2)), root - lhs);
-- 
2.43.0


From de3131666c9396b343869c0d73e336a423965ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 26/40] fix: the E suffix, leading zeros, and out-of-range
 values in number literals

---
 src/eval.rs | 57 ++++++++++++++++++++++-------------------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index 1b1fd06..28329d4 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -150,17 +150,19 @@ where
     Some(Op(first))
 }
 
-fn parse_char(c: char) -> Option<(bool, i64)> {
+fn parse_char(c: char, num_base: i64) -> Option<(bool, i64)> {
     if c == '_' {
         return Some((true, 0));
     }
     if c.is_ascii_digit() {
         return Some((false, (c as i64) - ('0' as i64)));
     }
-    if ('a'..='f').contains(&c) {
+
+    // letters are digits only in hexadecimal ('e' is a scaler in the other bases)
+    if num_base == 16 && ('a'..='f').contains(&c) {
         return Some((false, (c as i64) - ('a' as i64) + 10));
     }
-    if ('A'..='F').contains(&c) {
+    if num_base == 16 && ('A'..='F').contains(&c) {
         return Some((false, (c as i64) - ('A' as i64) + 10));
     }
 
@@ -210,52 +212,41 @@ where
         }
     };
 
-    let mut skip_mask = 1u64;
-    let mut push_skip_mask = |skip: bool| {
-        skip_mask = (skip_mask << 1) | (skip as u64);
-    };
-
-    let mut i = 0;
-    let mut digits = [0u8; 32];
-    let mut push_digit = |digit: i64| {
-        digits[i] = digit as u8;
-        i += 1;
+    // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
+    let mut val = 0i64;
+    let mut prev_skip = true;
+    let mut push_char = |skip: bool, digit: i64| -> Option<()> {
+        if (skip && prev_skip) || digit >= num_base {
+            return None;
+        }
+        if !skip {
+            val = val.checked_mul(num_base)?.checked_add(digit)?;
+        }
+        prev_skip = skip;
+        Some(())
     };
 
-    let (skip, digit) = parse_char(first)?;
-    push_skip_mask(skip);
-    push_digit(digit);
+    let (skip, digit) = parse_char(first, num_base)?;
+    push_char(skip, digit)?;
 
-    while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n')) {
-        push_skip_mask(skip);
-        if !skip {
-            push_digit(digit);
-        }
+    while let Some((skip, digit)) = parse_char(*it.peek().unwrap_or(&'\n'), num_base) {
+        push_char(skip, digit)?;
         it.next()?;
     }
-
-    // filler character, '_', must not appear at the head or tail, and must not appear contiguously.
-    if (skip_mask & ((skip_mask << 1) | 1)) != 0 {
+    if prev_skip {
         return None;
     }
-    let mut val = 0;
-    for &digit in &digits[..i] {
-        if digit as i64 >= num_base {
-            return None;
-        }
-        val = val * num_base + digit as i64;
-    }
 
     let scaler = match it.peek() {
         Some(&x) if tolower(x) == 'k' => parse_prefix(1, it)?,
         Some(&x) if tolower(x) == 'm' => parse_prefix(2, it)?,
         Some(&x) if tolower(x) == 'g' => parse_prefix(3, it)?,
         Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?,
-        Some(&x) if tolower(x) == 'e' => parse_prefix(5, it)?,
+        Some(&x) if tolower(x) == 'e' => parse_prefix(6, it)?,
         _ => 1,
     };
 
-    Some(Val(val * scaler))
+    Some(Val(val.checked_mul(scaler)?))
 }
 
 fn parse_var<I>(first: char, vars: Option<&HashMap<&[u8], VarAttr>>, it: &mut Peekable<I>) -> Option<Token>
-- 
2.43.0


From 2720a858eaa1ed4978c16c93ce2b2bedf036e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 27/40] fix: chained unary operators and those at the head of
 array indices were rejected

---
 src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 28329d4..d2bd8e9 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -305,7 +305,7 @@ fn mark_prefices(tokens: &mut [Token]) -> Option<()> {
         let (former, latter) = tokens.split_at_mut(1);
         match (former[0], latter[0]) {
             // fixup unary op
-            (Op(_) | Paren('('), Op(y)) if is_unary(y) => {
+            (Op(_) | Prefix(_) | Paren('(' | '['), Op(y)) if is_unary(y) => {
                 latter[0] = Prefix(if y == '~' { '!' } else { y });
             }
             // prefix followed by an expression
-- 
2.43.0


From 1109cb8e6e576e021df20f40bb119ac5e9763142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 28/40] fix: overflows and division by zero in expressions
 panicked

---
 src/eval.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/eval.rs b/src/eval.rs
index d2bd8e9..2134f60 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -438,7 +438,7 @@ fn test_sort_into_rpn() {
 fn apply_prefix(c: char, x: i64) -> i64 {
     match c {
         '+' => x,
-        '-' => -x,
+        '-' => x.wrapping_neg(),
         '!' => !x,
         'G' => (x >= 0) as i64,
         _ => panic!("unknown op: {c:?}"),
@@ -447,13 +447,13 @@ fn apply_prefix(c: char, x: i64) -> i64 {
 
 fn apply_op(c: char, x: i64, y: i64) -> i64 {
     match c {
-        '+' => x + y,
-        '-' => x - y,
-        '#' => -(x + y),
-        '~' => -(x - y),
-        '*' => x * y,
-        '/' => x / y,
-        '%' => x % y,
+        '+' => x.wrapping_add(y),
+        '-' => x.wrapping_sub(y),
+        '#' => x.wrapping_add(y).wrapping_neg(),
+        '~' => y.wrapping_sub(x),
+        '*' => x.wrapping_mul(y),
+        '/' => x.wrapping_div(y),
+        '%' => x.wrapping_rem(y),
         '&' => x & y,
         '|' => x | y,
         '^' => x ^ y,
@@ -461,19 +461,19 @@ fn apply_op(c: char, x: i64, y: i64) -> i64 {
             if y >= 0 {
                 x << ((y as usize) & 0x3f)
             } else {
-                x >> ((-y as usize) & 0x3f)
+                x >> ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '>' => {
             if y >= 0 {
                 x >> ((y as usize) & 0x3f)
             } else {
-                x << ((-y as usize) & 0x3f)
+                x << ((y.wrapping_neg() as usize) & 0x3f)
             }
         }
         '@' => {
             if y >= 0 {
-                x.pow(y as u32)
+                x.wrapping_pow(y as u32)
             } else {
                 0
             }
@@ -726,13 +726,14 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
     let lhs = root - tokens[root].1;
     match (tokens[lhs].0, tokens[root - 1].0, tokens[root].0) {
         // 2 + 3 => 5 (leaf)
+        (Val(_), Val(0), Op('/' | '%')) => Some(root), // leave it as an error on evaluation
         (Val(x), Val(y), Op(op)) => {
             tokens[lhs].0 = Val(apply_op(op, x, y));
             Some(lhs)
         }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
-            tokens[lhs].0 = Var(id, c * x);
+            tokens[lhs].0 = Var(id, c.wrapping_mul(x));
             Some(lhs)
         }
         // (x + 2) + 3 => x + 5
@@ -1167,14 +1168,17 @@ where
             (Op(op), _) => {
                 let y = stack.pop().context(starved)?;
                 let x = stack.last_mut().context(starved)?;
+                if y == 0 && matches!(op, '/' | '%') {
+                    return Err(anyhow!("division by zero"));
+                }
                 *x = apply_op(op, *x, y);
             }
             (Var(id, c), lhs) => {
                 if lhs == 0 {
-                    stack.push(c * get(id, 0));
+                    stack.push(c.wrapping_mul(get(id, 0)));
                 } else {
                     let x = stack.last_mut().context(starved)?;
-                    *x = c * get(id, *x);
+                    *x = c.wrapping_mul(get(id, *x));
                 }
             }
             _ => {
-- 
2.43.0


From 17549a5e1fa4dfd3f1e674bcdc13a929ecf7a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 29/40] fix: S..E expressions were rejected when the former
 anchor was cancelled out

---
 src/eval.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eval.rs b/src/eval.rs
index 2134f60..5192c81 100644
--- a/src/eval.rs
+++ b/src/eval.rs
@@ -731,6 +731,11 @@ fn fold_constants(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Val(apply_op(op, x, y));
             Some(lhs)
         }
+        // x 0 * => 0
+        (Var(_, _), Val(0), Op('*')) if tokens[lhs].1 == 0 => {
+            tokens[lhs].0 = Val(0);
+            Some(lhs)
+        }
         // x 2 * => x(2)
         (Var(id, c), Val(x), Op('*')) => {
             tokens[lhs].0 = Var(id, c.wrapping_mul(x));
@@ -784,7 +789,7 @@ fn remove_identity(tokens: &mut [(Token, usize)]) -> Option<usize> {
             tokens[lhs].0 = Var(id, apply_prefix('-', c));
             Some(lhs)
         }
-        ((Var(_, 0), 0), _, Op(op)) if is_addsub(op) => {
+        ((Val(0) | Var(_, 0), 0), _, Op(op)) if is_addsub(op) => {
             // this arm applies to lhs, the special case for the leftmost subtree
             let (s, op) = peel_sign_from_op(op);
             let op = fuse_sign2(s, op);
-- 
2.43.0


From c989ba56998fb23f67a09be0768465db57e498a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 30/40] fix: output templates did not follow the format
 specifiers of Rust (panics and lost digits)

---
 src/template.rs | 83 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 2 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 865700c..269a9f9 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -8,9 +8,88 @@ use std::collections::HashMap;
 
 use crate::eval::{Rpn, VarAttr};
 
+// `[[fill]align][sign]['#']['0'][width][type]`, the same as that of std::fmt for integers. it falls back to NumFmt
+// for its own extensions (digit separators, etc.).
+enum IntFmt {
+    Std {
+        fill: char,
+        align: char,
+        plus: bool,
+        prefix: bool,
+        zero: bool,
+        width: usize,
+        base: char,
+    },
+    Ext(NumFmt),
+}
+
+impl IntFmt {
+    fn from_str(spec: &str) -> Result<Self> {
+        let matcher = Regex::new(r"^(?s:(.)?([<^>]))?([+-])?(#)?(0)?([0-9]*)([bodxX])?$").unwrap();
+        let Some(args) = matcher.captures(spec) else {
+            return Ok(IntFmt::Ext(NumFmt::from_str(spec)?));
+        };
+
+        let get_char = |i: usize| args.get(i).and_then(|x| x.as_str().chars().next());
+        let width = args.get(6).map_or("", |x| x.as_str());
+
+        Ok(IntFmt::Std {
+            fill: get_char(1).unwrap_or(' '),
+            align: get_char(2).unwrap_or('>'),
+            plus: get_char(3) == Some('+'),
+            prefix: get_char(4).is_some(),
+            zero: get_char(5).is_some(),
+            width: if width.is_empty() { 0 } else { width.parse()? },
+            base: get_char(7).unwrap_or('d'),
+        })
+    }
+
+    fn fmt(&self, val: i64) -> Result<String> {
+        let (fill, align, plus, prefix, zero, width, base) = match *self {
+            IntFmt::Std {
+                fill,
+                align,
+                plus,
+                prefix,
+                zero,
+                width,
+                base,
+            } => (fill, align, plus, prefix, zero, width, base),
+            IntFmt::Ext(ref fmt) => return Ok(fmt.fmt(val)?),
+        };
+
+        // only decimals are signed
+        let (prefix, digits) = match base {
+            'b' => (if prefix { "0b" } else { "" }, format!("{val:b}")),
+            'o' => (if prefix { "0o" } else { "" }, format!("{val:o}")),
+            'x' => (if prefix { "0x" } else { "" }, format!("{val:x}")),
+            'X' => (if prefix { "0x" } else { "" }, format!("{val:X}")),
+            _ => ("", val.unsigned_abs().to_string()),
+        };
+        let sign = match (base, val < 0, plus) {
+            ('d', true, _) => "-",
+            (_, _, true) => "+",
+            _ => "",
+        };
+
+        let pad = width.saturating_sub(sign.len() + prefix.len() + digits.len());
+        if zero {
+            return Ok(format!("{sign}{prefix}{}{digits}", "0".repeat(pad)));
+        }
+
+        let left = match align {
+            '<' => 0,
+            '^' => pad / 2,
+            _ => pad,
+        };
+        let repeat_fill = |n: usize| fill.to_string().repeat(n);
+        Ok(format!("{}{sign}{prefix}{digits}{}", repeat_fill(left), repeat_fill(pad - left)))
+    }
+}
+
 struct TemplateElement {
     fixed: String,
-    var: Option<(Rpn, NumFmt)>,
+    var: Option<(Rpn, IntFmt)>,
 }
 
 pub struct Template {
@@ -39,7 +118,7 @@ impl Template {
 
             let spec = args.get(2).unwrap();
             let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
-            let spec = NumFmt::from_str(spec)?;
+            let spec = IntFmt::from_str(spec)?;
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
             let elem = TemplateElement {
-- 
2.43.0


From 56121c6831b4b0eefbfe2dc36411a4aaa95c7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 31/40] fix: output templates ignored the head of a malformed
 {EXPR}

---
 src/template.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 269a9f9..229307a 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -101,7 +101,7 @@ impl Template {
         // parsing std::fmt-style formatter string
         // TODO: is there any good crate to do this? better avoid re-inventing wheels...
         let brace_matcher = Regex::new(r"\{.*?\}").unwrap();
-        let arg_matcher = Regex::new(r"\{((?:\([^:]*\))|[a-zA-Z]*)(:{0,1}.*)\}").unwrap();
+        let arg_matcher = Regex::new(r"^\{((?:\([^:]*\))|[a-zA-Z]*)(:.*)?\}$").unwrap();
 
         let mut elems = Vec::new();
         let mut i = 0;
@@ -116,8 +116,7 @@ impl Template {
             let name = args.get(1).unwrap();
             let name = Rpn::new(name.as_str(), vars)?;
 
-            let spec = args.get(2).unwrap();
-            let spec = if spec.as_str().is_empty() { "" } else { &spec.as_str()[1..] };
+            let spec = args.get(2).map_or("", |x| &x.as_str()[1..]);
             let spec = IntFmt::from_str(spec)?;
 
             // expression (variable) and formatter specifier are both sane; move onto composing TemplateElement
-- 
2.43.0


From 13cf588b4565cf7afbd1369fe10035911cd5bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 32/40] fix: --find rejected arrays of 64 bytes that end with a
 space

---
 src/segment/exact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/segment/exact.rs b/src/segment/exact.rs
index 8616a67..128e677 100644
--- a/src/segment/exact.rs
+++ b/src/segment/exact.rs
@@ -19,12 +19,13 @@ impl ExactMatchSlicer {
     // TODO: we may support some value representation?? (then strings must be escaped)
     pub fn new(src: Box<dyn ByteStream>, pattern: &str) -> Result<Self> {
         let mut pattern = pattern.as_bytes().to_vec();
+        let pattern_len = pattern.len();
         pattern.resize(256, b'\n');
 
         let mut buf = vec![0u8; 64];
         let ((_, parsed), filled) =
             parse_hex_body(false, &pattern, &mut buf).with_context(|| format!("failed to parse {pattern:?} into bytes"))?;
-        if parsed >= 4 * 48 {
+        if parsed >= 4 * 48 && pattern_len > 4 * 48 {
             return Err(anyhow!("ARRAY must not be longer than 64 bytes"));
         }
         buf.truncate(filled);
-- 
2.43.0


From 2282994bd40a962ad5311d9c44e83fa09a9b6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 33/40] fix: --width 0 with a mapping expression hung or
 panicked

---
 src/segment/stride.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segment/stride.rs b/src/segment/stride.rs
index 1abb013..be2ac2e 100644
--- a/src/segment/stride.rs
+++ b/src/segment/stride.rs
@@ -17,6 +17,9 @@ pub struct ConstSlicerParams {
 
 impl ConstSlicerParams {
     pub fn from_raw(pitch: usize, expr: Option<&str>) -> Result<Self> {
+        if pitch == 0 {
+            return Err(anyhow!("N == 0 is not allowed for --width"));
+        }
         let pitch = pitch as isize;
 
         // parse mapper (if it results in an empty slice it's an error)
-- 
2.43.0


From 926bd3d26471b546398de1b7ad77b8a70f30fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 34/40] fix: stdin was read as both the input and the patch (or
 guide) when no FILE was given

---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e94c841..d212d2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -147,6 +147,11 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
 
     let pipeline = Pipeline::from_args(&args.pipeline)?;
 
+    // stdin is the input when no file is given
+    if args.inputs.is_empty() && !pipeline.is_inplace() && args.pipeline.count_stdin() > 0 {
+        return Err(anyhow!("stdin (\"-\" or \"/dev/stdin\") must not be used more than once"));
+    }
+
     // process the stream
     if pipeline.is_inplace() {
         if args.count_stdin() > 0 {
-- 
2.43.0


From 35c922a13b21a36fe34befd0a55d045f4aae4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 35/40] fix: --inplace with --output FILE emptied the input
 files

---
 src/main.rs     | 7 +++++++
 src/pipeline.rs | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d212d2a..715c3b4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -165,6 +165,13 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
         for input in inputs.windows(1) {
             let sources = build_sources(input)?;
 
+            // the input is left as it is when the output goes to other file(s)
+            if !pipeline.is_written_back() {
+                let stream = pipeline.spawn_stream(sources)?;
+                consume_stream(stream, Box::new(std::io::stdout()))?;
+                continue;
+            }
+
             let tmpfile = format!("{}.tmp", &input[0]);
             let drain = Box::new(File::create(&tmpfile)?);
 
diff --git a/src/pipeline.rs b/src/pipeline.rs
index fb0ecdb..159fdea 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -320,6 +320,15 @@ impl Pipeline {
         matches!(self.nodes.first(), Some(Inplace))
     }
 
+    // whether the output of --inplace replaces the input
+    pub fn is_written_back(&self) -> bool {
+        match self.nodes.last() {
+            Some(Scatter(file)) => file.is_empty() || file == "-",
+            Some(PatchBack(_)) => true,
+            _ => false,
+        }
+    }
+
     fn open_file(&self, file: &str) -> Result<Box<dyn ByteStream>> {
         let file: Box<dyn Read + Send> = if file == "-" {
             Box::new(std::io::stdin())
-- 
2.43.0


From c1f3b6ff6dc5002ef5dbf017485020873526e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 36/40] fix: --inplace left its temporary file behind on errors
 and overwrote existing .tmp files

---
 src/main.rs | 50 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 715c3b4..6901e7d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -12,7 +12,7 @@ mod text;
 
 use anyhow::{anyhow, Context, Result};
 use clap::{ColorChoice, CommandFactory, FromArgMatches, Parser};
-use std::fs::File;
+use std::fs::{File, OpenOptions};
 use std::io::{IsTerminal, Read, Write};
 use std::process::{Child, Stdio};
 
@@ -172,13 +172,12 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
                 continue;
             }
 
-            let tmpfile = format!("{}.tmp", &input[0]);
-            let drain = Box::new(File::create(&tmpfile)?);
+            let (tmpfile, drain) = TmpFile::create(&input[0])?;
 
             let stream = pipeline.spawn_stream(sources)?;
-            consume_stream(stream, drain)?;
+            consume_stream(stream, Box::new(drain))?;
 
-            std::fs::rename(&tmpfile, &input[0])?;
+            tmpfile.replace(&input[0])?;
         }
     } else {
         let inputs = if args.inputs.is_empty() {
@@ -201,6 +200,47 @@ fn main_impl(command: &mut clap::Command) -> Result<()> {
     Ok(())
 }
 
+// temporary file next to the input; removed unless it replaces the input
+struct TmpFile {
+    path: Option<String>,
+}
+
+impl TmpFile {
+    fn create(input: &str) -> Result<(Self, File)> {
+        for i in 0.. {
+            let path = if i == 0 {
+                format!("{}.tmp", input)
+            } else {
+                format!("{}.{}.tmp", input, i)
+            };
+
+            // never overwrite an existing file
+            match OpenOptions::new().write(true).create_new(true).open(&path) {
+                Ok(file) => return Ok((TmpFile { path: Some(path) }, file)),
+                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+        unreachable!()
+    }
+
+    fn replace(mut self, input: &str) -> Result<()> {
+        if let Some(path) = &self.path {
+            std::fs::rename(path, input)?;
+        }
+        self.path = None;
+        Ok(())
+    }
+}
+
+impl Drop for TmpFile {
+    fn drop(&mut self) {
+        if let Some(path) = &self.path {
+            let _ = std::fs::remove_file(path);
+        }
+    }
+}
+
 fn build_sources(files: &[String]) -> Result<Vec<Box<dyn Read + Send>>> {
     let mut v: Vec<Box<dyn Read + Send>> = Vec::new();
     for file in files.iter() {
-- 
2.43.0


From 821be07c029c9597914c26bb93aa185e119557a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 37/40] fix: --zip didn't stop at the end of the shortest input
 (ran out of memory if another one is endless)

---
 src/byte/zip.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/byte/zip.rs b/src/byte/zip.rs
index 7befbfc..ff37e1b 100644
--- a/src/byte/zip.rs
+++ b/src/byte/zip.rs
@@ -73,14 +73,18 @@ impl Zipper {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize, usize)> {
         let request = (request + self.srcs.len() - 1) / self.srcs.len();
 
-        // bulk_len is the minimum valid slice length among the source buffers
-        let mut is_eof = true;
+        // bulk_len is the minimum valid slice length among the source buffers. it's also the end of
+        // the output stream if the shortest source has reached EOF, no matter how long the others are
+        let mut eof_len = usize::MAX;
         let mut len = usize::MAX;
         for src in &mut self.srcs {
             let (x, y) = src.fill_buf(request)?;
-            is_eof = is_eof && x;
+            if x {
+                eof_len = std::cmp::min(eof_len, y);
+            }
             len = std::cmp::min(len, y);
         }
+        let is_eof = eof_len == len;
 
         // teardown
         let len = (len / self.word_size) * self.word_size;
-- 
2.43.0


From fc7846475fc3aaf2bd1b201161fff70fca90881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 38/40] fix: --patch-back printed garbage after a failure in
 reading the stream

---
 src/byte/tee.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/byte/tee.rs b/src/byte/tee.rs
index caf051f..2d1da02 100644
--- a/src/byte/tee.rs
+++ b/src/byte/tee.rs
@@ -5,7 +5,7 @@ use crate::byte::ByteStream;
 use crate::filluninit::FillUninit;
 use crate::params::BLOCK_SIZE;
 use crate::streambuf::StreamBuf;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use std::io::{Read, Seek, SeekFrom, Write};
 use std::sync::{Arc, Condvar, Mutex};
 use tempfile::SpooledTempFile;
@@ -15,10 +15,12 @@ struct TempFile {
     file: SpooledTempFile,
     tail: Option<Box<dyn ByteStream>>, // the source stream, handed over when the writer (TeeStream) is dropped
     is_closed: bool,                   // true when the writer is dropped
+    is_failed: bool,                   // true when the writer is dropped because of an error; the stream is incomplete
 }
 
 pub struct TeeStream {
     src: Option<Box<dyn ByteStream>>, // always Some(_) until being dropped
+    is_failed: bool,
     cache: Arc<(Mutex<TempFile>, Condvar)>,
 }
 
@@ -39,10 +41,12 @@ impl TeeStream {
             file: SpooledTempFile::new(128 * BLOCK_SIZE),
             tail: None,
             is_closed: false,
+            is_failed: false,
         };
 
         TeeStream {
             src: Some(src),
+            is_failed: false,
             cache: Arc::new((Mutex::new(tempfile), Condvar::new())),
         }
     }
@@ -61,7 +65,11 @@ impl Drop for TeeStream {
     fn drop(&mut self) {
         let (cache, cond) = &*self.cache;
         if let Ok(mut cache) = cache.lock() {
-            cache.tail = self.src.take();
+            // the rest of the source isn't reliable after an error
+            cache.is_failed = self.is_failed || std::thread::panicking();
+            if !cache.is_failed {
+                cache.tail = self.src.take();
+            }
             cache.is_closed = true;
         }
         cond.notify_all();
@@ -70,7 +78,9 @@ impl Drop for TeeStream {
 
 impl ByteStream for TeeStream {
     fn fill_buf(&mut self, request: usize) -> Result<(bool, usize)> {
-        self.src.as_mut().unwrap().fill_buf(request)
+        let result = self.src.as_mut().unwrap().fill_buf(request);
+        self.is_failed = self.is_failed || result.is_err();
+        result
     }
 
     fn as_slice(&self) -> &[u8] {
@@ -138,6 +148,9 @@ impl ByteStream for TeeStreamReader {
             }
 
             // the writer has gone. no more bytes will be cached
+            if cache.is_failed {
+                return Err(anyhow!("failed to read the stream to be patched back"));
+            }
             let tail = match &mut cache.tail {
                 Some(tail) => tail,
                 _ => return Ok(true),
-- 
2.43.0


From 74370579a021f92a13f7623c038f088bc26724ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:34 +0000
Subject: [PATCH 39/40] fix: --patch-back dumped the slices that stay across
 fills twice

---
 src/drain/patch.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 31635e1..6646d6a 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -124,16 +124,21 @@ impl PatchDrain {
             let mut patch = patch;
             let mut buf = Vec::new();
             let mut offset = 0;
+            let mut src_consumed = 0;
 
             loop {
-                let (is_eof, bytes, _, max_consume) = patch.fill_segment_buf().unwrap();
+                let (is_eof, bytes, segment_count, max_consume) = patch.fill_segment_buf().unwrap();
                 if is_eof && bytes == 0 {
                     break;
                 }
 
                 let (stream, segments) = patch.as_slices();
-                formatter.format_segments(offset, stream, segments, &mut buf);
-                offset += patch.consume(max_consume).unwrap().0;
+                formatter.format_segments(offset, stream, &segments[src_consumed..segment_count], &mut buf);
+
+                // the slices that are not consumed remain in the next iteration
+                let (consumed_bytes, consumed_count) = patch.consume(max_consume).unwrap();
+                src_consumed = segment_count - consumed_count;
+                offset += consumed_bytes;
 
                 if buf.len() >= BLOCK_SIZE {
                     writer.write_all(&buf).unwrap();
-- 
2.43.0


From a7ac98ba030362009dc7c6fd08af87394af85428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 40/40] fix: --patch-back took the slices formatted before a
 failure for all of them

---
 src/drain/patch.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/drain/patch.rs b/src/drain/patch.rs
index 6646d6a..6bd08c4 100644
--- a/src/drain/patch.rs
+++ b/src/drain/patch.rs
@@ -8,15 +8,18 @@ use crate::text::{InoutFormat, TextFormatter};
 use anyhow::Result;
 use std::io::{ErrorKind, Read, Write};
 use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
-use std::sync::mpsc::{channel, Receiver};
+use std::sync::mpsc::{channel, Receiver, Sender};
 use std::thread::JoinHandle;
 
 struct BashPipe {
     child: Child,
+    sender: Sender<std::io::Result<Vec<u8>>>,
+    receiver: Option<Receiver<std::io::Result<Vec<u8>>>>,
 }
 
 struct BashPipeWriter {
     input: Option<ChildStdin>,
+    sender: Sender<std::io::Result<Vec<u8>>>,
 }
 
 impl BashPipe {
@@ -27,17 +30,26 @@ impl BashPipe {
             .stdout(Stdio::piped())
             .spawn()
             .unwrap();
-        BashPipe { child }
+        let (sender, receiver) = channel();
+        BashPipe {
+            child,
+            sender,
+            receiver: Some(receiver),
+        }
     }
 
     fn spawn_reader(&mut self) -> RawStream {
         let output = self.child.stdout.take().unwrap();
-        RawStream::new(Box::new(BashPipeReader::new(output)), 1, 0)
+        let reader = BashPipeReader::new(output, self.sender.clone(), self.receiver.take().unwrap());
+        RawStream::new(Box::new(reader), 1, 0)
     }
 
     fn spawn_writer(&mut self) -> BashPipeWriter {
         let input = self.child.stdin.take().unwrap();
-        BashPipeWriter { input: Some(input) }
+        BashPipeWriter {
+            input: Some(input),
+            sender: self.sender.clone(),
+        }
     }
 }
 
@@ -58,18 +70,28 @@ impl BashPipeWriter {
     }
 }
 
+impl Drop for BashPipeWriter {
+    fn drop(&mut self) {
+        if std::thread::panicking() {
+            // the slices are incomplete. the command must not take it for their end,
+            // so leave the pipe open and let the reader fail instead
+            std::mem::forget(self.input.take());
+            let _ = self.sender.send(Err(std::io::Error::other("failed to process the slices")));
+        }
+    }
+}
+
 // the output of the command must be received independently of the original stream, because the
 // command may not read its input (and then the original stream doesn't proceed) while writing to the pipe
 struct BashPipeReader {
     output: Receiver<std::io::Result<Vec<u8>>>,
     buf: Vec<u8>,
     offset: usize,
+    is_eof: bool,
 }
 
 impl BashPipeReader {
-    fn new(output: ChildStdout) -> Self {
-        let (sender, receiver) = channel();
-
+    fn new(output: ChildStdout, sender: Sender<std::io::Result<Vec<u8>>>, receiver: Receiver<std::io::Result<Vec<u8>>>) -> Self {
         std::thread::spawn(move || {
             let mut output = output;
             loop {
@@ -90,16 +112,17 @@ impl BashPipeReader {
             output: receiver,
             buf: Vec::new(),
             offset: 0,
+            is_eof: false,
         }
     }
 }
 
 impl Read for BashPipeReader {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        if self.offset == self.buf.len() {
-            // disconnected after EOF
+        if self.offset == self.buf.len() && !self.is_eof {
             self.buf = self.output.recv().unwrap_or(Ok(Vec::new()))?;
             self.offset = 0;
+            self.is_eof = self.buf.is_empty();
         }
 
         let len = (&self.buf[self.offset..]).read(buf)?;
-- 
2.43.0

