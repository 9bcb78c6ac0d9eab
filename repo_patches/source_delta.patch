From 75ce65aba4ec3ea84762f275c35629e3becc0ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 01/13] fix: ChainedHashTable::reset did not reset the prev
 chain

The reset values were copied into a copy of the array, so matches found
after an encoder reset could depend on the previous stream.
---
 src/chained_hash_table.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/chained_hash_table.rs b/src/chained_hash_table.rs
index 61c3fa2..fbe496c 100644
--- a/src/chained_hash_table.rs
+++ b/src/chained_hash_table.rs
@@ -98,11 +98,7 @@ impl ChainedHashTable {
     pub fn reset(&mut self) {
         self.current_hash = 0;
         reset_array(&mut self.c.head);
-        {
-            let h = self.c.head;
-            let mut c = self.c.prev;
-            c[..].copy_from_slice(&h[..]);
-        }
+        self.c.fill_prev();
         /*if cfg!(debug_assertions) {
             self.count.reset();
         }*/
-- 
2.43.0


From e20355cf7b96f712e925fe688c71f162a795eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 02/13] fix: write the zlib/gzip header before a sync flush

Flushing an encoder before anything had been written to it output the sync
block ahead of the header, which made the whole stream undecodable.
---
 src/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer.rs b/src/writer.rs
index 1888a11..7273a29 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -272,6 +272,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
     /// This essentially finishes the current block, and sends an additional empty stored block to
     /// the writer.
     fn flush(&mut self) -> io::Result<()> {
+        self.check_write_header()?;
         compress_until_done(&[], &mut self.deflate_state, Flush::Sync)
     }
 }
@@ -449,6 +450,7 @@ pub mod gzip {
         /// This essentially finishes the current block, and sends an additional empty stored
         /// block to the writer.
         fn flush(&mut self) -> io::Result<()> {
+            self.check_write_header();
             self.inner.flush()
         }
     }
-- 
2.43.0


From 8248f1cbb38793679fda652220f6cbf83b202d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 03/13] fix: keep the gzip header state when a reset fails

A failed GzEncoder::reset left the stream unfinished but still queued a new
header, which was then output in the middle of the old stream.
---
 src/writer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7273a29..8c8dbe6 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -393,18 +393,18 @@ pub mod gzip {
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one. (Using a blank header).
         pub fn reset(&mut self, writer: W) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = GzBuilder::new().into_header();
-            w
+            Ok(w)
         }
 
         /// Resets the encoder (except the compression options), replacing the current writer
         /// with a new one, returning the old one, and using the provided `GzBuilder` to
         /// create the header.
         pub fn reset_with_builder(&mut self, writer: W, builder: GzBuilder) -> io::Result<W> {
-            let w = self.reset_no_header(writer);
+            let w = self.reset_no_header(writer)?;
             self.header = builder.into_header();
-            w
+            Ok(w)
         }
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
-- 
2.43.0


From fc5e151c6d8c1530bee84de3209fc867f962346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 04/13] fix: report consumed input when the wrapped writer
 fails

If writing to the wrapped writer failed after part of the input had been
consumed in the same call, the error was returned and the consumed input was
compressed again (and left out of the checksum) when the caller retried.
---
 src/compress.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/compress.rs b/src/compress.rs
index 8223609..c532f20 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -94,11 +94,18 @@ pub fn compress_data_dynamic_n<W: Write>(
         // If the output buffer has too much data in it already, flush it before doing anything
         // else.
         if output_buf_len > LARGEST_OUTPUT_BUF_SIZE {
-            let written = deflate_state
+            let written = match deflate_state
                 .inner
                 .as_mut()
                 .expect("Missing writer!")
-                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+                .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
+            {
+                Ok(n) => n,
+                // Some of the input was already consumed in this call, so that has to be reported.
+                // The output is still buffered, so the error will turn up again if it persists.
+                Err(_) if bytes_written > 0 => return Ok(bytes_written),
+                Err(e) => return Err(e),
+            };
 
             if written < output_buf_len.checked_sub(output_buf_pos).unwrap() {
                 // Only some of the data was flushed, so keep track of where we were.
@@ -278,11 +285,17 @@ pub fn compress_data_dynamic_n<W: Write>(
     // Make sure we've output everything, and return the number of bytes written if everything
     // went well.
     let output_buf_pos = deflate_state.output_buf_pos;
-    let written_to_writer = deflate_state
+    let written_to_writer = match deflate_state
         .inner
         .as_mut()
         .expect("Missing writer!")
-        .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])?;
+        .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
+    {
+        Ok(n) => n,
+        // As above, the input that was consumed has to be reported.
+        Err(_) if bytes_written > 0 => return Ok(bytes_written),
+        Err(e) => return Err(e),
+    };
     if written_to_writer
         < deflate_state
             .output_buf()
-- 
2.43.0


From 50cf16ff2717b6059dfcd94798f731a03460a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 05/13] fix: return an error when the wrapped writer accepts no
 more data

A writer that returns Ok(0), such as a full slice, made finish, flush and drop
loop forever.
---
 src/compress.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index c532f20..f11968c 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -100,6 +100,12 @@ pub fn compress_data_dynamic_n<W: Write>(
                 .expect("Missing writer!")
                 .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
             {
+                Ok(0) if bytes_written == 0 => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::WriteZero,
+                        "Failed to write compressed data.",
+                    ));
+                }
                 Ok(n) => n,
                 // Some of the input was already consumed in this call, so that has to be reported.
                 // The output is still buffered, so the error will turn up again if it persists.
@@ -291,6 +297,12 @@ pub fn compress_data_dynamic_n<W: Write>(
         .expect("Missing writer!")
         .write(&deflate_state.encoder_state.inner_vec()[output_buf_pos..])
     {
+        Ok(0) if bytes_written == 0 && output_buf_pos < deflate_state.output_buf().len() => {
+            return Err(io::Error::new(
+                io::ErrorKind::WriteZero,
+                "Failed to write compressed data.",
+            ));
+        }
         Ok(n) => n,
         // As above, the input that was consumed has to be reported.
         Err(_) if bytes_written > 0 => return Ok(bytes_written),
-- 
2.43.0


From 6cafa24f33131a59bad96a8ab50b66ed2e66a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 06/13] fix: continue normally after an incomplete sync flush

After a sync flush that failed part way, the next write returned Ok(0) without
consuming anything, and finish returned without ending the stream.
---
 src/compress.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compress.rs b/src/compress.rs
index f11968c..28f88bf 100644
--- a/src/compress.rs
+++ b/src/compress.rs
@@ -82,6 +82,17 @@ pub fn compress_data_dynamic_n<W: Write>(
     deflate_state: &mut DeflateState<W>,
     flush: Flush,
 ) -> io::Result<usize> {
+    // If an earlier sync flush didn't manage to output everything, that has to be done first.
+    if deflate_state.needs_flush && flush != Flush::Sync {
+        compress_data_dynamic_n(&[], deflate_state, Flush::Sync)?;
+        if deflate_state.needs_flush {
+            return Err(io::Error::new(
+                io::ErrorKind::Interrupted,
+                "Internal buffer full.",
+            ));
+        }
+    }
+
     let mut bytes_written = 0;
 
     let mut slice = input;
-- 
2.43.0


From ace877db997f2aef7bcf5438013a4afd29086fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 07/13] fix: don't add input that was not consumed to the
 checksum

Ok(0) was taken to mean that the whole input was consumed, but nothing is
consumed by a write that returns Ok(0), as after a reset that failed.
---
 src/writer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 8c8dbe6..54c7003 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -256,10 +256,7 @@ impl<W: Write> io::Write for ZlibEncoder<W> {
         let flush_mode = self.deflate_state.flush_mode;
         let res = compress_data_dynamic_n(buf, &mut self.deflate_state, flush_mode);
         match res {
-            // If this is returned, the whole buffer was consumed
-            Ok(0) => self.checksum.update_from_slice(buf),
-            // Otherwise, only part of it was consumed, so only that part
-            // added to the checksum.
+            // Only the part that was consumed is added to the checksum.
             Ok(n) => self.checksum.update_from_slice(&buf[0..n]),
             _ => (),
         };
@@ -437,7 +434,6 @@ pub mod gzip {
             self.check_write_header();
             let res = self.inner.write(buf);
             match res {
-                Ok(0) => self.checksum.update(buf),
                 Ok(n) => self.checksum.update(&buf[0..n]),
                 _ => (),
             };
-- 
2.43.0


From c8cda18727390fb572dde11fbf9fc92f777e23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 08/13] Add a cfg-guarded module re-exporting internals for
 verification harnesses

---
 src/lib.rs | 67 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index cdce2cb..69502de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,6 +83,73 @@ mod test_utils;
 mod writer;
 mod zlib;
 
+/// Access to the internals for external verification harnesses (`--cfg deflate_verif` only).
+#[cfg(deflate_verif)]
+#[doc(hidden)]
+#[allow(unused_imports)]
+pub mod verif {
+    pub mod bit_reverse {
+        pub use crate::bit_reverse::*;
+    }
+    pub mod bitstream {
+        pub use crate::bitstream::*;
+    }
+    pub mod chained_hash_table {
+        pub use crate::chained_hash_table::*;
+    }
+    pub mod checksum {
+        pub use crate::checksum::*;
+    }
+    pub mod compress {
+        pub use crate::compress::*;
+    }
+    pub mod compression_options {
+        pub use crate::compression_options::*;
+    }
+    pub mod deflate_state {
+        pub use crate::deflate_state::*;
+    }
+    pub mod encoder_state {
+        pub use crate::encoder_state::*;
+    }
+    pub mod huffman_lengths {
+        pub use crate::huffman_lengths::*;
+    }
+    pub mod huffman_table {
+        pub use crate::huffman_table::*;
+    }
+    pub mod input_buffer {
+        pub use crate::input_buffer::*;
+    }
+    pub mod length_encode {
+        pub use crate::length_encode::*;
+    }
+    pub mod lz77 {
+        pub use crate::lz77::*;
+    }
+    pub mod lzvalue {
+        pub use crate::lzvalue::*;
+    }
+    pub mod matching {
+        pub use crate::matching::*;
+    }
+    pub mod output_writer {
+        pub use crate::output_writer::*;
+    }
+    pub mod rle {
+        pub use crate::rle::*;
+    }
+    pub mod stored_block {
+        pub use crate::stored_block::*;
+    }
+    pub mod writer {
+        pub use crate::writer::*;
+    }
+    pub mod zlib {
+        pub use crate::zlib::*;
+    }
+}
+
 use std::io;
 use std::io::Write;
 
-- 
2.43.0


From d59812d876708a4a77a04b5b5785d7162df76a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 09/13] fix: use the fixed distance code lengths for the fixed
 block cost

The cost estimate used the literal code lengths (8 bits) for distances, which
made the encoder output dynamic or stored blocks longer than a fixed block.
---
 src/huffman_lengths.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index a5a153a..97a23b5 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -2,8 +2,8 @@ use crate::bitstream::LsbWriter;
 use crate::deflate_state::LengthBuffers;
 use crate::huffman_table::{
     create_codes_in_place, num_extra_bits_for_distance_code, num_extra_bits_for_length_code,
-    HuffmanTable, FIXED_CODE_LENGTHS, LENGTH_BITS_START, MAX_CODE_LENGTH, NUM_DISTANCE_CODES,
-    NUM_LITERALS_AND_LENGTHS,
+    HuffmanTable, FIXED_CODE_LENGTHS, FIXED_CODE_LENGTHS_DISTANCE, LENGTH_BITS_START,
+    MAX_CODE_LENGTH, NUM_DISTANCE_CODES, NUM_LITERALS_AND_LENGTHS,
 };
 use crate::length_encode::{
     encode_lengths_m, huffman_lengths_from_frequency_m, EncodedLength, COPY_PREVIOUS,
@@ -71,11 +71,12 @@ fn calculate_huffman_length(frequencies: &[FrequencyType], code_lengths: &[u8])
 /// code lengths (first return value) and static code lengths (second return value).
 ///
 /// Parameters:
-/// Frequencies, length of dynamic codes, and a function to get how many extra bits in addition
-/// to the length of the Huffman code the symbol will use.
+/// Frequencies, length of dynamic and static codes, and a function to get how many extra bits in
+/// addition to the length of the Huffman code the symbol will use.
 fn calculate_block_length<F>(
     frequencies: &[FrequencyType],
     dyn_code_lengths: &[u8],
+    static_code_lengths: &[u8],
     get_num_extra_bits: &F,
 ) -> (u64, u64)
 where
@@ -88,7 +89,7 @@ where
 
     let iter = frequencies
         .iter()
-        .zip(dyn_code_lengths.iter().zip(FIXED_CODE_LENGTHS.iter()))
+        .zip(dyn_code_lengths.iter().zip(static_code_lengths.iter()))
         .enumerate();
 
     // This could maybe be optimised a bit by splitting the iteration of codes using extra bits and
@@ -241,14 +242,17 @@ pub fn gen_huffman_lengths(
     // (excluding the 3-bit block header since it's used in all block types).
 
     // Total length of the compressed literals/lengths.
-    let (d_ll_length, s_ll_length) = calculate_block_length(l_freqs, l_lengths, &|c| {
-        num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8).into()
-    });
+    let (d_ll_length, s_ll_length) =
+        calculate_block_length(l_freqs, l_lengths, &FIXED_CODE_LENGTHS, &|c| {
+            num_extra_bits_for_length_code(c.saturating_sub(LENGTH_BITS_START as usize) as u8)
+                .into()
+        });
 
     // Total length of the compressed distances.
-    let (d_dist_length, s_dist_length) = calculate_block_length(d_freqs, d_lengths, &|c| {
-        num_extra_bits_for_distance_code(c as u8).into()
-    });
+    let (d_dist_length, s_dist_length) =
+        calculate_block_length(d_freqs, d_lengths, &FIXED_CODE_LENGTHS_DISTANCE, &|c| {
+            num_extra_bits_for_distance_code(c as u8).into()
+        });
 
     // Total length of the compressed huffman code lengths.
     let huff_table_length = calculate_huffman_length(&freqs, &huffman_table_lengths);
-- 
2.43.0


From 9629bef22618e18b7caffc44b1b897a8cd14b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 10/13] fix: count two extra bits for the copy-previous code
 length symbol

The cost estimate for dynamic blocks counted three, so a longer block type
could be chosen.
---
 src/huffman_lengths.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/huffman_lengths.rs b/src/huffman_lengths.rs
index 97a23b5..a716d20 100644
--- a/src/huffman_lengths.rs
+++ b/src/huffman_lengths.rs
@@ -49,7 +49,8 @@ pub fn remove_trailing_zeroes<T: From<u8> + PartialEq>(input: &[T], min_length:
 /// How many extra bits the Huffman length code uses to represent a value.
 fn extra_bits_for_huffman_length_code(code: u8) -> u8 {
     match code {
-        16..=17 => 3,
+        16 => 2,
+        17 => 3,
         18 => 7,
         _ => 0,
     }
-- 
2.43.0


From dd057b1615270d5d61652f49ecfe4157eb72d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 11/13] fix: count the bytes of a match past the window when it
 fills the buffer

When the last match before the end of the available data filled the lz77
buffer and extended one byte past the window, the position reported left
out that byte. If the block was then output as a stored block the byte was
lost from the output.
---
 src/lz77.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 49c712e..5864c88 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -461,7 +461,7 @@ fn process_chunk_lazy(
                 if let BufferStatus::Full = b_status {
                     // TODO: These bytes should be hashed when doing a sync flush.
                     // This can't be done here as the new input data does not exist yet.
-                    return (overlap, buffer_full(end));
+                    return (overlap, buffer_full(end + overlap));
                 } else {
                     return (overlap, ProcessStatus::Ok);
                 }
-- 
2.43.0


From 0a7bb79d5a39eb9ec68f1b962f9342b0264a2260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 12/13] fix: keep the data of a block in the input buffer until
 the block is output

When the lz77 buffer was filled by a match going past the end of the window
the input buffer was slid before the block was output. If the block was then
output as a stored block, this either panicked or output the wrong data.
---
 src/lz77.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/lz77.rs b/src/lz77.rs
index 5864c88..f76efab 100644
--- a/src/lz77.rs
+++ b/src/lz77.rs
@@ -616,6 +616,16 @@ pub fn lz77_compress_block(
     // Add data to the input buffer and keep a reference to the slice of data not added yet.
     let mut remaining_data = buffer.add_data(data);
 
+    // If the previous block ended with a match going past the end of the window, we still have to
+    // slide the buffer and the hash table.
+    if state.overlap > window_size {
+        if state.max_hash_checks > 0 {
+            state.hash_table.slide(window_size);
+        }
+        remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
+        state.overlap -= window_size;
+    }
+
     loop {
         // Note if there is a pending byte from the previous call to process_chunk,
         // so we get the block input size right.
@@ -676,19 +686,13 @@ pub fn lz77_compress_block(
                 // If overlap is non-zero, the buffer was full after outputting the last byte,
                 // otherwise we have to skip to the point in the buffer where we stopped in the
                 // next call.
-                state.overlap = if overlap > 0 {
-                    if !state.is_first_window {
-                        // If we are at the end of the window, make sure we slide the buffer and the
-                        // hash table.
-                        if state.max_hash_checks > 0 {
-                            state.hash_table.slide(window_size);
-                        }
-                        remaining_data = buffer.slide(remaining_data.unwrap_or(&[]));
-                    } else {
-                        state.is_first_window = false;
-                    }
+                state.overlap = if overlap > 0 && state.is_first_window {
+                    state.is_first_window = false;
                     overlap
                 } else {
+                    // If we are at the end of the window, the buffer and the hash table are not
+                    // slid until the next call, as the data of this block may still be needed
+                    // for a stored block.
                     written - window_start
                 };
 
-- 
2.43.0


From 7dba362c5c2f19fc3bf141d62f852c0ee2942489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:24 +0000
Subject: [PATCH 13/13] fix: write the zlib and gzip trailers through the
 output buffer

A writer error in the middle of the trailer made a retry (of reset, or the
finish attempted on drop) send bytes of the trailer that had been accepted
already a second time.
---
 src/writer.rs | 53 +++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 54c7003..e80a02b 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -184,6 +184,7 @@ pub struct ZlibEncoder<W: Write> {
     deflate_state: DeflateState<W>,
     checksum: Adler32Checksum,
     header_written: bool,
+    trailer_written: bool,
 }
 
 impl<W: Write> ZlibEncoder<W> {
@@ -193,6 +194,7 @@ impl<W: Write> ZlibEncoder<W> {
             deflate_state: DeflateState::new(options.into(), writer),
             checksum: Adler32Checksum::new(),
             header_written: false,
+            trailer_written: false,
         }
     }
 
@@ -218,6 +220,7 @@ impl<W: Write> ZlibEncoder<W> {
     pub fn reset(&mut self, writer: W) -> io::Result<W> {
         self.output_all()?;
         self.header_written = false;
+        self.trailer_written = false;
         self.checksum = Adler32Checksum::new();
         self.deflate_state.reset(writer)
     }
@@ -233,15 +236,16 @@ impl<W: Write> ZlibEncoder<W> {
 
     /// Write the trailer, which for zlib is the Adler32 checksum.
     fn write_trailer(&mut self) -> io::Result<()> {
-        let hash = self.checksum.current_hash();
-
-        self.deflate_state
-            .inner
-            .as_mut()
-            .expect(ERR_STR)
-            .write_all(&hash.to_be_bytes())?;
-
-        Ok(())
+        // The trailer goes through the output buffer, which keeps track of what the writer has
+        // accepted, so nothing is repeated if this fails and is tried again.
+        if !self.trailer_written {
+            let hash = self.checksum.current_hash();
+            self.deflate_state
+                .output_buf()
+                .extend_from_slice(&hash.to_be_bytes());
+            self.trailer_written = true;
+        }
+        compress_until_done(&[], &mut self.deflate_state, Flush::Finish)
     }
 
     /// Return the adler32 checksum of the currently consumed data.
@@ -290,7 +294,7 @@ impl<W: Write> Drop for ZlibEncoder<W> {
 #[cfg(feature = "gzip")]
 pub mod gzip {
 
-    use std::io::{Cursor, Write};
+    use std::io::Write;
     use std::{io, thread};
 
     use super::*;
@@ -330,6 +334,7 @@ pub mod gzip {
         inner: DeflateEncoder<W>,
         checksum: Crc,
         header: Vec<u8>,
+        trailer_written: bool,
     }
 
     impl<W: Write> GzEncoder<W> {
@@ -350,6 +355,7 @@ pub mod gzip {
                 inner: DeflateEncoder::new(writer, options),
                 checksum: Crc::new(),
                 header: builder.into_header(),
+                trailer_written: false,
             }
         }
 
@@ -383,6 +389,7 @@ pub mod gzip {
 
         fn reset_no_header(&mut self, writer: W) -> io::Result<W> {
             self.output_all()?;
+            self.trailer_written = false;
             self.checksum = Crc::new();
             self.inner.deflate_state.reset(writer)
         }
@@ -406,21 +413,17 @@ pub mod gzip {
 
         /// Write the checksum and number of bytes mod 2^32 to the output writer.
         fn write_trailer(&mut self) -> io::Result<()> {
-            let crc = self.checksum.sum();
-            let amount = self.checksum.amt_as_u32();
-
-            // We use a buffer here to make sure we don't end up writing only half the header if
-            // writing fails.
-            let mut buf = [0u8; 8];
-            let mut temp = Cursor::new(&mut buf[..]);
-            temp.write_all(&crc.to_le_bytes()).unwrap();
-            temp.write_all(&amount.to_le_bytes()).unwrap();
-            self.inner
-                .deflate_state
-                .inner
-                .as_mut()
-                .expect(ERR_STR)
-                .write_all(temp.into_inner())
+            // The trailer goes through the output buffer, which keeps track of what the writer has
+            // accepted, so nothing is repeated if this fails and is tried again.
+            if !self.trailer_written {
+                let crc = self.checksum.sum();
+                let amount = self.checksum.amt_as_u32();
+                let buf = self.inner.deflate_state.output_buf();
+                buf.extend_from_slice(&crc.to_le_bytes());
+                buf.extend_from_slice(&amount.to_le_bytes());
+                self.trailer_written = true;
+            }
+            self.inner.output_all()
         }
 
         /// Get the crc32 checksum of the data consumed so far.
-- 
2.43.0

