From e648df8e12346be9b21cf424f3dc7b4dc42b5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:06 +0000
Subject: [PATCH 01/37] fix: mark multi-sector files with an offset table as
 compressed and decrypt raw sectors individually

A file larger than one sector whose sectors were all stored raw was written with a
sector offset table but without the compressed flag, so it was read back as offset
table plus data. Encrypted uncompressed multi-sector files were decrypted as a single
unit although every sector has its own key.
---
 mopaq/src/archive.rs | 10 +++++++++-
 mopaq/src/builder.rs |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..0ff35b7 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1265,7 +1265,15 @@ impl Archive {
                 if data.len() <= 64 {
                     log::debug!("Before decrypt: {:02X?}", &data);
                 }
-                decrypt_file_data(&mut data, key);
+                if file_info.is_single_unit() {
+                    decrypt_file_data(&mut data, key);
+                } else {
+                    // Sectors are encrypted individually, each with its own key
+                    let sector_size = self.header.sector_size();
+                    for (i, sector) in data.chunks_mut(sector_size).enumerate() {
+                        decrypt_file_data(sector, key.wrapping_add(i as u32));
+                    }
+                }
                 if data.len() <= 64 {
                     log::debug!("After decrypt: {:02X?}", &data);
                 }
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..fe8c056 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -987,6 +987,11 @@ impl ArchiveBuilder {
             // Multi-sector file
             let sector_count = file_data.len().div_ceil(*sector_size);
 
+            // The file is laid out with a sector offset table, which readers only
+            // expect for files marked as compressed. Sectors that were not (or could
+            // not be) compressed are recognised by their size.
+            flags |= BlockEntry::FLAG_COMPRESS;
+
             // Set CRC flag early if enabled (needed for encryption key calculation)
             if self.generate_crcs {
                 flags |= BlockEntry::FLAG_SECTOR_CRC;
-- 
2.43.0


From 41d503bf0c0cbf7f109a22d04842fe7c389bc7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:49 +0000
Subject: [PATCH 02/37] fix: compress() must not return a prefixed stream as
 long as its input

Readers treat a sector whose stored size equals its content size as raw, so a stream
that only matched the input size after adding the method byte was returned undecoded.
---
 mopaq/src/compression/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..bf44e01 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -15,7 +15,8 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
 
     // MPQ format requires that compression saves at least 2 bytes
     // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // (the method byte counts: a sector that is not smaller than its content is read raw)
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 6e1a5fc6750139cd2c4265945bedc042de99772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 03/37] fix: sparse compression must not emit the end marker
 for a run of 127 zeros

---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..79b2893 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // A run of 0x7F would be encoded as 0xFF, which is the end marker
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From 73ce7a64ae6f33faa45dd8a713e63047d4b8eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 04/37] fix: never decode more than the declared size of a
 compressed stream

Output buffers were reserved from size fields of the archive and the streams were
decoded without limit, so a few bytes could exhaust memory or panic. The inner bzip2
stream of an ADPCM+bzip2 combination was rejected because an exact size was required.
---
 mopaq/src/compression/algorithms/adpcm.rs   |  4 +-
 mopaq/src/compression/algorithms/bzip2.rs   | 27 ++++++++++---
 mopaq/src/compression/algorithms/huffman.rs |  7 +++-
 mopaq/src/compression/algorithms/lzma.rs    | 45 ++++++++++++++++++---
 mopaq/src/compression/algorithms/mod.rs     | 11 +++++
 mopaq/src/compression/algorithms/sparse.rs  | 11 +++--
 mopaq/src/compression/algorithms/zlib.rs    | 11 ++++-
 mopaq/src/compression/decompress.rs         | 11 ++---
 8 files changed, 102 insertions(+), 25 deletions(-)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..add9222 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -219,7 +219,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
     let mut step_indexes = vec![INITIAL_ADPCM_STEP_INDEX; channel_count];
 
     // Allocate output buffer
-    let mut output = Vec::with_capacity(output_size);
+    let mut output = super::output_buffer(output_size);
 
     // Read initial samples for each channel
     for predicted_sample in predicted_samples.iter_mut().take(channel_count) {
@@ -265,7 +265,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
                 predicted_samples[channel_index] as i32,
                 encoded_sample,
                 step_size,
-                step_size >> bit_shift as i32,
+                step_size.checked_shr(bit_shift as u32).unwrap_or(0),
             ) as i16;
 
             write_sample(&mut output, predicted_samples[channel_index]);
diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..473760b 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -8,12 +8,7 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_up_to(data, expected_size)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -26,6 +21,26 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress an inner stream of which only the maximum size is known
+pub(crate) fn decompress_up_to(data: &[u8], max_size: usize) -> Result<Vec<u8>> {
+    // Never decode more than the maximum size (plus one byte to notice the excess)
+    let mut decoder = BzDecoder::new(data).take((max_size as u64).saturating_add(1));
+    let mut decompressed = super::output_buffer(max_size);
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    if decompressed.len() > max_size {
+        return Err(Error::compression(format!(
+            "BZip2 data exceeds the expected size of {} bytes",
+            max_size
+        )));
+    }
+
+    Ok(decompressed)
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 5b26581..eccb14c 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -375,7 +375,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     );
 
     let mut reader = BitReader::new(data);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = super::output_buffer(expected_size);
 
     // Get compression type from the first byte
     let compression_type = reader.get_8_bits()?;
@@ -415,6 +415,11 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
 
         output.push(decoded_value as u8);
 
+        // Every symbol takes at least one bit of input
+        if output.len() > data.len() * 8 {
+            return Err(Error::compression("Huffman data exceeds its input"));
+        }
+
         // Stop if we've reached expected size
         if output.len() >= expected_size {
             break;
diff --git a/mopaq/src/compression/algorithms/lzma.rs b/mopaq/src/compression/algorithms/lzma.rs
index 1537d3b..dd51e61 100644
--- a/mopaq/src/compression/algorithms/lzma.rs
+++ b/mopaq/src/compression/algorithms/lzma.rs
@@ -1,17 +1,52 @@
 //! LZMA compression and decompression
 
 use crate::{Error, Result};
-use std::io::{BufReader, Cursor};
+use std::io::{BufReader, Cursor, Write};
+
+/// Output buffer that refuses to grow beyond the declared size of the stream
+struct BoundedOutput {
+    data: Vec<u8>,
+    limit: usize,
+}
+
+impl BoundedOutput {
+    fn new(limit: usize) -> Self {
+        Self {
+            data: super::output_buffer(limit),
+            limit,
+        }
+    }
+}
+
+impl Write for BoundedOutput {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        if buf.len() > self.limit - self.data.len() {
+            return Err(std::io::Error::other("data exceeds the expected size"));
+        }
+        self.data.extend_from_slice(buf);
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
+}
 
 /// Decompress using LZMA
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let cursor = Cursor::new(data);
     let mut input = BufReader::new(cursor);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = BoundedOutput::new(expected_size);
+    let options = lzma_rs::decompress::Options {
+        // The dictionary grows with the decoded data
+        memlimit: Some(expected_size.max(1)),
+        ..Default::default()
+    };
 
     // Try LZMA format first
-    match lzma_rs::lzma_decompress(&mut input, &mut output) {
+    match lzma_rs::lzma_decompress_with_options(&mut input, &mut output, &options) {
         Ok(()) => {
+            let output = output.data;
             if expected_size > 0 && output.len() != expected_size {
                 log::warn!(
                     "LZMA decompressed size mismatch: expected {}, got {}",
@@ -25,10 +60,10 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
             // If LZMA fails, try XZ format
             let cursor = Cursor::new(data);
             let mut input = BufReader::new(cursor);
-            let mut output = Vec::with_capacity(expected_size);
+            let mut output = BoundedOutput::new(expected_size);
 
             match lzma_rs::xz_decompress(&mut input, &mut output) {
-                Ok(()) => Ok(output),
+                Ok(()) => Ok(output.data),
                 Err(xz_err) => {
                     log::error!("LZMA decompression failed: {:?}", e);
                     log::error!("XZ decompression also failed: {:?}", xz_err);
diff --git a/mopaq/src/compression/algorithms/mod.rs b/mopaq/src/compression/algorithms/mod.rs
index 4c67e04..99c9a28 100644
--- a/mopaq/src/compression/algorithms/mod.rs
+++ b/mopaq/src/compression/algorithms/mod.rs
@@ -8,3 +8,14 @@ pub(super) mod lzma;
 pub(super) mod pkware;
 pub(super) mod sparse;
 pub(super) mod zlib;
+
+/// Upper bound for buffers reserved up front on behalf of a size field
+///
+/// Sizes come from the archive and may be bogus, so buffers start out small and grow
+/// with the data that is actually decoded.
+const MAX_PREALLOCATION: usize = 1 << 20;
+
+/// Create an output buffer for a stream that is declared to decode to `expected_size`
+fn output_buffer(expected_size: usize) -> Vec<u8> {
+    Vec::with_capacity(expected_size.min(MAX_PREALLOCATION))
+}
diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 79b2893..14aba4f 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -5,7 +5,7 @@ use crate::{Error, Result};
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     // Sparse compression is a simple RLE format
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = super::output_buffer(expected_size);
     let mut pos = 0;
 
     while pos < data.len() && output.len() < expected_size {
@@ -35,10 +35,13 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
         }
     }
 
-    // Pad with zeros if needed
-    if output.len() < expected_size {
-        output.resize(expected_size, 0);
+    // Pad with zeros if needed, and drop whatever the last run decoded in excess
+    if let Some(missing) = expected_size.checked_sub(output.len()) {
+        output.try_reserve(missing).map_err(|_| {
+            Error::compression("Sparse decompression: not enough memory for expected size")
+        })?;
     }
+    output.resize(expected_size, 0);
 
     Ok(output)
 }
diff --git a/mopaq/src/compression/algorithms/zlib.rs b/mopaq/src/compression/algorithms/zlib.rs
index 19bd08c..1ad6d79 100644
--- a/mopaq/src/compression/algorithms/zlib.rs
+++ b/mopaq/src/compression/algorithms/zlib.rs
@@ -21,11 +21,18 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     }
 
     // ZlibDecoder can handle both zlib-wrapped and raw deflate data
-    let mut decoder = ZlibDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
+    // Never decode more than the declared size (plus one byte to notice the excess)
+    let mut decoder = ZlibDecoder::new(data).take((expected_size as u64).saturating_add(1));
+    let mut decompressed = super::output_buffer(expected_size);
 
     match decoder.read_to_end(&mut decompressed) {
         Ok(_) => {
+            if decompressed.len() > expected_size {
+                return Err(Error::compression(format!(
+                    "Zlib data exceeds the expected size of {} bytes",
+                    expected_size
+                )));
+            }
             if decompressed.len() != expected_size {
                 log::debug!(
                     "Decompressed size mismatch: expected {}, got {} (this is common in some MPQ files)",
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..69f8c3b 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -94,20 +94,21 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     if has_huffman {
         log::debug!("Decompressing Huffman");
         // For Huffman, we don't know the intermediate size, so we estimate conservatively
-        let huffman_output_size = std::cmp::max(expected_size * 2, current_data.len() * 2);
+        let huffman_output_size = std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
         current_data = algorithms::huffman::decompress(&current_data, huffman_output_size)?;
     } else if has_zlib {
         log::debug!("Decompressing Zlib");
-        current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::bzip2::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
-        current_data = algorithms::implode::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
     }
 
     // Step 2: Decompress PKWare if present
-- 
2.43.0


From 5667ee327a56810a6b659a42a9b085de5799adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 05/37] fix: verify sector checksums of multi-sector files

The builder checksums the data of each sector, but the reader compared the checksum
with the compressed bytes and merely logged the (inevitable) mismatch, so corruption
went unnoticed. Checksums of lossy (ADPCM) data now cover what is read back.
---
 mopaq/src/archive.rs                | 39 +++++++++++++++--------------
 mopaq/src/builder.rs                | 35 ++++++++++++++++++--------
 mopaq/src/compression/decompress.rs | 12 ++++++---
 3 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 0ff35b7..5729cc5 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1388,7 +1388,10 @@ impl Archive {
             let expected_crc_table_start = offset_table_size;
             let expected_crc_table_size = sector_count * 4;
 
-            if first_data_offset >= expected_crc_table_start + expected_crc_table_size {
+            // (a single sector leaves no room to tell a CRC table from an extra offset)
+            if sector_count > 1
+                && first_data_offset >= expected_crc_table_start + expected_crc_table_size
+            {
                 // CRC table follows the offset table
                 let mut crc_data = vec![0u8; expected_crc_table_size];
                 self.reader.read_exact(&mut crc_data)?;
@@ -1461,24 +1464,6 @@ impl Archive {
                 decrypt_file_data(&mut sector_data, sector_key);
             }
 
-            // Validate CRC if present - MUST be done AFTER decryption but BEFORE decompression
-            if let Some(ref crcs) = sector_crcs {
-                let expected_crc = crcs[i];
-                // MPQ uses ADLER32 for sector checksums, calculated on the raw (possibly compressed) data
-                let actual_crc = adler::adler32_slice(&sector_data);
-
-                if actual_crc != expected_crc {
-                    log::error!(
-                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
-                        i,
-                        expected_crc,
-                        actual_crc
-                    );
-                    // For now, just log the error and continue
-                    // Some MPQ files have incorrect CRCs
-                }
-            }
-
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
@@ -1496,6 +1481,22 @@ impl Archive {
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
                 };
 
+            // Validate CRC if present - like for single unit files, it covers the
+            // decompressed data
+            if let Some(ref crcs) = sector_crcs {
+                let expected_crc = crcs[i];
+                // MPQ uses ADLER32 for sector checksums, not CRC32 despite the name
+                let actual_crc = adler::adler32_slice(&decompressed_sector);
+
+                if actual_crc != expected_crc {
+                    return Err(Error::ChecksumMismatch {
+                        file: file_info.filename.clone(),
+                        expected: expected_crc,
+                        actual: actual_crc,
+                    });
+                }
+            }
+
             decompressed_data.extend_from_slice(&decompressed_sector);
         }
 
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index fe8c056..4d630f9 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1,7 +1,7 @@
 //! Archive builder for creating MPQ archives
 
 use crate::{
-    compression::{compress, flags as compression_flags},
+    compression::{compress, decompress, flags as compression_flags},
     crypto::{encrypt_block, hash_string, hash_type, jenkins_hash},
     header::{FormatVersion, MpqHeaderV4Data},
     tables::{BetHeader, BlockEntry, BlockTable, HashEntry, HashTable, HetHeader, HiBlockTable},
@@ -951,6 +951,8 @@ impl ArchiveBuilder {
                 file_data.to_vec()
             };
 
+            let stored_crc = self.calculate_crc(file_data, &compressed_data, *compression)?;
+
             // Encrypt if needed
             let final_data = if *encrypt {
                 flags |= BlockEntry::FLAG_ENCRYPTED;
@@ -971,8 +973,7 @@ impl ArchiveBuilder {
 
             // Write CRC if enabled
             if self.generate_crcs {
-                // MPQ uses ADLER32 for sector checksums
-                let crc = adler::adler32_slice(file_data);
+                let crc = stored_crc;
                 writer.write_u32_le(crc)?;
                 log::debug!(
                     "Generated CRC for single unit file {}: 0x{:08X}",
@@ -1022,13 +1023,6 @@ impl ArchiveBuilder {
 
                 *offset = (data_start + sector_data.len()) as u32;
 
-                // Calculate CRC for uncompressed sector if enabled
-                if self.generate_crcs {
-                    // MPQ uses ADLER32 for sector checksums
-                    let crc = adler::adler32_slice(sector_bytes);
-                    sector_crcs.push(crc);
-                }
-
                 // Compress sector if needed
                 let compressed_sector = if *compression != 0 && !sector_bytes.is_empty() {
                     // The compress function now handles the compression byte prefix
@@ -1046,6 +1040,12 @@ impl ArchiveBuilder {
                     sector_bytes.to_vec()
                 };
 
+                // Calculate CRC for uncompressed sector if enabled
+                if self.generate_crcs {
+                    let crc = self.calculate_crc(sector_bytes, &compressed_sector, *compression)?;
+                    sector_crcs.push(crc);
+                }
+
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
@@ -1114,6 +1114,21 @@ impl ArchiveBuilder {
         }
     }
 
+    /// Calculate the checksum of a sector or single unit file
+    ///
+    /// MPQ uses ADLER32 for sector checksums. It covers the data that reading the stored
+    /// bytes yields, which differs from the original if the compression is lossy.
+    fn calculate_crc(&self, original: &[u8], stored: &[u8], compression: u8) -> Result<u32> {
+        let lossy = compression & (compression_flags::ADPCM_MONO | compression_flags::ADPCM_STEREO);
+
+        if lossy != 0 && stored != original {
+            let decoded = decompress(&stored[1..], stored[0], original.len())?;
+            Ok(adler::adler32_slice(&decoded))
+        } else {
+            Ok(adler::adler32_slice(original))
+        }
+    }
+
     /// Add a file to the hash table
     fn add_to_hash_table(
         &self,
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 69f8c3b..71b8573 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -94,21 +94,25 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     if has_huffman {
         log::debug!("Decompressing Huffman");
         // For Huffman, we don't know the intermediate size, so we estimate conservatively
-        let huffman_output_size = std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
+        let huffman_output_size =
+            std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
         current_data = algorithms::huffman::decompress(&current_data, huffman_output_size)?;
     } else if has_zlib {
         log::debug!("Decompressing Zlib");
-        current_data = algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
+        current_data =
+            algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
         current_data =
             algorithms::bzip2::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
+        current_data =
+            algorithms::sparse::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
-        current_data = algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
+        current_data =
+            algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
     }
 
     // Step 2: Decompress PKWare if present
-- 
2.43.0


From 36f54f1545a4985238ca4b3be832ff2c4f8d3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:08 +0000
Subject: [PATCH 06/37] fix: pack and unpack BET entries wider than 64 bits and
 entries at the end of the table

Entries whose fields need more than 64 bits lost their upper fields, and entries
closer than 8 bytes to the end of the file table were reported as missing.
---
 mopaq/src/builder.rs    | 50 +++++++++------------------
 mopaq/src/tables/bet.rs | 76 ++++++++++++++++-------------------------
 2 files changed, 46 insertions(+), 80 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 4d630f9..24ea338 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1499,7 +1499,8 @@ impl ArchiveBuilder {
                     file_map[current_index] = Some(file_index as u32);
 
                     // Write hash entry (stores hash + file index in upper bits)
-                    let hash_entry = (hash & hash_mask) | ((file_index as u64) << hash_entry_size);
+                    let hash_entry =
+                        (hash & hash_mask) as u128 | ((file_index as u128) << hash_entry_size);
                     // The actual entry size is hash_entry_size for the hash + index_size for the file index
                     self.write_bit_entry(
                         &mut hash_table,
@@ -1554,7 +1555,7 @@ impl ArchiveBuilder {
         &self,
         data: &mut [u8],
         index: usize,
-        value: u64,
+        value: u128,
         bit_size: u32,
     ) -> Result<()> {
         let bit_offset = index * bit_size as usize;
@@ -1578,31 +1579,14 @@ impl ArchiveBuilder {
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
-            }
-        }
-
-        // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
-        } else {
-            (1u64 << bit_size) - 1
-        };
-        let mask = value_mask << bit_shift;
-        existing &= !mask;
-
-        // Write the new value
-        existing |= (value & value_mask) << bit_shift;
-
-        // Write back (limit to 8 bytes for u64)
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                data[byte_offset + i] = (existing >> (i * 8)) as u8;
+        // Write the value bit by bit: an entry may span more than 8 bytes
+        for bit in 0..bit_size as usize {
+            let position = bit_offset + bit;
+            let mask = 1u8 << (position % 8);
+            if (value >> bit) & 1 != 0 {
+                data[position / 8] |= mask;
+            } else {
+                data[position / 8] &= !mask;
             }
         }
 
@@ -1770,11 +1754,11 @@ impl ArchiveBuilder {
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
                 // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
+                let mut entry_bits = 0u128;
+                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (entry.file_size as u128) << bit_index_file_size;
+                entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
+                entry_bits |= (*flag_index as u128) << bit_index_flag_index;
 
                 // Write to file table
                 self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
@@ -1836,7 +1820,7 @@ impl ArchiveBuilder {
         // Write BET hashes (bit-packed)
         let mut hash_bytes = vec![0u8; bet_hash_array_size as usize];
         for (i, &hash) in bet_hashes.iter().enumerate() {
-            self.write_bit_entry(&mut hash_bytes, i, hash, bet_hash_size)?;
+            self.write_bit_entry(&mut hash_bytes, i, hash as u128, bet_hash_size)?;
         }
         result.extend_from_slice(&hash_bytes);
 
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..5bbd238 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -226,37 +226,34 @@ impl BetTable {
             return None;
         }
 
-        // Read bit-packed entry
-        let entry_bits = self.read_table_entry(index as usize)?;
-
-        // Extract fields
-        let file_pos = self.extract_bits(
-            entry_bits,
+        // Extract bit-packed fields
+        let file_pos = self.read_field(
+            index,
             self.header.bit_index_file_pos,
             self.header.bit_count_file_pos,
-        );
-        let file_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let file_size = self.read_field(
+            index,
             self.header.bit_index_file_size,
             self.header.bit_count_file_size,
-        );
-        let cmp_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let cmp_size = self.read_field(
+            index,
             self.header.bit_index_cmp_size,
             self.header.bit_count_cmp_size,
-        );
-        let flag_index = self.extract_bits(
-            entry_bits,
+        )?;
+        let flag_index = self.read_field(
+            index,
             self.header.bit_index_flag_index,
             self.header.bit_count_flag_index,
-        ) as u32;
+        )? as u32;
 
         // Get flags
-        let flags = if flag_index < self.header.flag_count {
-            self.file_flags[flag_index as usize]
-        } else {
-            0
-        };
+        let flags = self
+            .file_flags
+            .get(flag_index as usize)
+            .copied()
+            .unwrap_or(0);
 
         Some(BetFileInfo {
             file_pos,
@@ -266,37 +263,22 @@ impl BetTable {
         })
     }
 
-    /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        if byte_offset + 8 > self.file_table.len() {
+    /// Read a field of a table entry from bit-packed data
+    fn read_field(&self, index: u32, bit_offset: u32, bit_count: u32) -> Option<u64> {
+        if bit_count > 64 {
             return None;
         }
 
-        // Read enough bytes to get the full entry
-        let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
+        let first_bit =
+            index as usize * self.header.table_entry_size as usize + bit_offset as usize;
 
-        for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+        let mut value = 0u64;
+        for bit in 0..bit_count as usize {
+            let position = first_bit + bit;
+            let byte = *self.file_table.get(position / 8)?;
+            value |= ((byte >> (position % 8)) as u64 & 1) << bit;
         }
-
-        // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
-        Some(entry)
-    }
-
-    /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+        Some(value)
     }
 }
 
-- 
2.43.0


From b0ea021b4d55ea0ef45dd82260311ca703e93370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:28 +0000
Subject: [PATCH 07/37] fix: confirm HET matches with the full name hash

A HET entry holds only a few hash bits, so looking up a name could return another
file of a v3/v4 archive, or find files that do not exist.
---
 mopaq/src/archive.rs    | 7 ++++++-
 mopaq/src/tables/bet.rs | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 5729cc5..4e2e00a 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -876,7 +876,12 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // HET entries only hold a few bits of the name hash, so confirm the match
+                // with the full hash stored in the BET table
+                let candidate = het
+                    .find_file(filename)
+                    .filter(|&index| bet.matches_name(index, filename));
+                if let Some(file_index) = candidate {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 5bbd238..e036a78 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -2,6 +2,7 @@
 
 use super::common::{decrypt_table_data, ReadLittleEndian};
 use crate::compression::decompress;
+use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
 
@@ -220,6 +221,11 @@ impl BetTable {
         })
     }
 
+    /// Check whether the stored name hash of an entry belongs to a file name
+    pub(crate) fn matches_name(&self, index: u32, filename: &str) -> bool {
+        self.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename))
+    }
+
     /// Get file information by index
     pub fn get_file_info(&self, index: u32) -> Option<BetFileInfo> {
         if index >= self.header.file_count {
-- 
2.43.0


From 239e04627da94fcaf5aeb51c677177e67b0435d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:32 +0000
Subject: [PATCH 08/37] fix: treat blocks without the exists flag as absent,
 and count empty files

Lookup returned freed blocks that listing leaves out, and the file count of the
archive information left out files of size zero.
---
 mopaq/src/archive.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 4e2e00a..ba5e0dc 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -647,7 +647,7 @@ impl Archive {
             block_table
                 .entries()
                 .iter()
-                .filter(|entry| entry.file_size != 0)
+                .filter(|entry| entry.exists())
                 .count()
         } else {
             0
@@ -928,6 +928,11 @@ impl Archive {
                 .get(hash_entry.block_index as usize)
                 .ok_or_else(|| Error::block_table("Invalid block index"))?;
 
+            // The hash entry may still refer to a block that has been freed
+            if !block_entry.exists() {
+                return Ok(None);
+            }
+
             // Calculate full file position for v2+ archives
             let file_pos = if let Some(hi_block) = &self.hi_block_table {
                 let high_bits = hi_block.get_file_pos_high(hash_entry.block_index as usize);
-- 
2.43.0


From f2198beecd0f86d0d572f5bdc8212e5530a46c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:18 +0000
Subject: [PATCH 09/37] fix: write HET/BET tables that can be read back when
 compressed or not a multiple of 4 bytes

compress() already prefixes the method byte, so the tables carried it twice; the
declared HET data size left out part of the hash table; and the table tail was
encrypted although tables are decrypted in whole u32s.
---
 mopaq/src/builder.rs | 44 +++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 24ea338..528fb1c 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1521,7 +1521,7 @@ impl ArchiveBuilder {
 
         // Calculate sizes
         let het_header_size = std::mem::size_of::<HetHeader>();
-        let data_size = het_header_size as u32 + hash_table_size + file_indices_size as u32;
+        let data_size = het_header_size as u32 + actual_hash_table_size + file_indices_size as u32;
         let table_size = 12 + data_size; // Extended header (12 bytes) + data
 
         // Update header with final size
@@ -1623,25 +1623,22 @@ impl ArchiveBuilder {
 
         // Compress if enabled and this is a v3+ archive
         if self.compress_tables && matches!(self.version, FormatVersion::V3 | FormatVersion::V4) {
-            log::debug!("Compressing HET table data: {} -> ", processed_data.len());
-            let compressed = compress(&processed_data, self.table_compression)?;
+            // compress() prefixes its result with the compression type byte and returns the
+            // data unchanged, without a prefix, if compression would not make it smaller
+            processed_data = compress(table_data, self.table_compression)?;
             log::debug!(
-                "{} bytes ({}% reduction)",
-                compressed.len(),
-                (100 * (processed_data.len() - compressed.len()) / processed_data.len())
+                "HET table data: {} -> {} bytes",
+                table_data.len(),
+                processed_data.len()
             );
-
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
         }
 
         // Encrypt the data portion (after extended header)
         if encrypt {
             let key = hash_string("(hash table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            // Tables are encrypted in whole u32s, a shorter tail is stored as it is
+            let encrypted_len = processed_data.len() & !3;
+            self.encrypt_data(&mut processed_data[..encrypted_len], key);
         }
 
         // Combine extended header with processed data
@@ -1848,25 +1845,22 @@ impl ArchiveBuilder {
 
         // Compress if enabled and this is a v3+ archive
         if self.compress_tables && matches!(self.version, FormatVersion::V3 | FormatVersion::V4) {
-            log::debug!("Compressing BET table data: {} -> ", processed_data.len());
-            let compressed = compress(&processed_data, self.table_compression)?;
+            // compress() prefixes its result with the compression type byte and returns the
+            // data unchanged, without a prefix, if compression would not make it smaller
+            processed_data = compress(table_data, self.table_compression)?;
             log::debug!(
-                "{} bytes ({}% reduction)",
-                compressed.len(),
-                (100 * (processed_data.len() - compressed.len()) / processed_data.len())
+                "BET table data: {} -> {} bytes",
+                table_data.len(),
+                processed_data.len()
             );
-
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
         }
 
         // Encrypt the data portion (after extended header)
         if encrypt {
             let key = hash_string("(block table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            // Tables are encrypted in whole u32s, a shorter tail is stored as it is
+            let encrypted_len = processed_data.len() & !3;
+            self.encrypt_data(&mut processed_data[..encrypted_len], key);
         }
 
         // Combine extended header with processed data
-- 
2.43.0


From 42cbc2d8c37198e5a62b6e74a286019a3a59a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:42 +0000
Subject: [PATCH 10/37] fix: reject streams that decode to more than their
 declared size

---
 mopaq/src/compression/decompress.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 71b8573..76b2aef 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -26,7 +26,7 @@ pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> Result<V
 
     let compression = CompressionMethod::from_flags(method);
 
-    match compression {
+    let output = match compression {
         CompressionMethod::None => Ok(data.to_vec()),
         CompressionMethod::Zlib => algorithms::zlib::decompress(data, decompressed_size),
         CompressionMethod::BZip2 => algorithms::bzip2::decompress(data, decompressed_size),
@@ -43,7 +43,18 @@ pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> Result<V
             log::debug!("Multiple compression with flags 0x{:02X}", flags);
             decompress_multiple(data, flags, decompressed_size)
         }
+    }?;
+
+    // A stream that holds more than declared is damaged
+    if output.len() > decompressed_size {
+        return Err(Error::compression(format!(
+            "Decompressed data too large: {} bytes (expected {})",
+            output.len(),
+            decompressed_size
+        )));
     }
+
+    Ok(output)
 }
 
 /// Handle multiple compression methods
-- 
2.43.0


From e999098fab8e4bd3bb2b0df4f187235325eb30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:42 +0000
Subject: [PATCH 11/37] fix: reject damaged archives without panicking or
 allocating by declared sizes

---
 mopaq/src/archive.rs          | 67 ++++++++++++++++++-----------------
 mopaq/src/crypto/signature.rs |  2 +-
 mopaq/src/header.rs           |  2 +-
 mopaq/src/lib.rs              |  3 +-
 mopaq/src/tables/bet.rs       | 17 ++++-----
 mopaq/src/tables/block.rs     | 16 ++++-----
 mopaq/src/tables/common.rs    | 13 +++++++
 mopaq/src/tables/hash.rs      |  7 ++--
 mopaq/src/tables/het.rs       | 15 ++++----
 mopaq/src/tables/mod.rs       |  2 +-
 10 files changed, 81 insertions(+), 63 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index ba5e0dc..e701ec0 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -8,6 +8,7 @@
 //! - Encryption/decryption
 //! - Multi-sector and single-unit files
 
+use crate::tables::common::read_bytes;
 use crate::{
     builder::ArchiveBuilder,
     compression,
@@ -373,7 +374,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -429,7 +430,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -482,7 +483,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.archive_offset.saturating_add(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -540,9 +541,8 @@ impl Archive {
 
                 // Read raw table data
                 self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                    .seek(SeekFrom::Start(self.archive_offset.saturating_add(offset)))?;
+                let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -887,7 +887,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.archive_offset.saturating_add(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -1262,8 +1262,7 @@ impl Archive {
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes(&mut self.reader, file_info.compressed_size)?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1299,8 +1298,9 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
                     // We need to decompress first to check CRC
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
+                    let (&compression_type, compressed_data) = data
+                        .split_first()
+                        .ok_or_else(|| Error::compression("Empty compressed data"))?;
                     compression::decompress(
                         compressed_data,
                         compression_type,
@@ -1367,8 +1367,7 @@ impl Archive {
         // Read sector offset table
         self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let mut offset_data = read_bytes(&mut self.reader, offset_table_size as u64)?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1403,8 +1402,7 @@ impl Archive {
                 && first_data_offset >= expected_crc_table_start + expected_crc_table_size
             {
                 // CRC table follows the offset table
-                let mut crc_data = vec![0u8; expected_crc_table_size];
-                self.reader.read_exact(&mut crc_data)?;
+                let crc_data = read_bytes(&mut self.reader, expected_crc_table_size as u64)?;
 
                 // CRC table is not encrypted
                 let mut crcs = Vec::with_capacity(sector_count);
@@ -1432,7 +1430,7 @@ impl Archive {
         }
 
         // Read and decompress each sector
-        let mut decompressed_data = Vec::with_capacity(file_info.file_size as usize);
+        let mut decompressed_data = Vec::new();
 
         for i in 0..sector_count {
             let sector_start = sector_offsets[i] as u64;
@@ -1452,12 +1450,12 @@ impl Archive {
             let expected_size = remaining.min(sector_size);
 
             // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
+            self.reader.seek(SeekFrom::Start(
+                file_info.file_pos.saturating_add(sector_start),
+            ))?;
 
             // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
 
             if i == 0 {
                 log::debug!(
@@ -1609,18 +1607,15 @@ impl Archive {
         log::debug!("Determining HET table size from file structure");
 
         // Calculate the actual size based on what comes after HET table
-        let actual_size = if let Some(bet_pos) = self.header.bet_table_pos {
-            if bet_pos > het_pos {
-                // BET table comes after HET
-                bet_pos - het_pos
-            } else {
-                // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
-            }
-        } else {
+        let end_pos = match self.header.bet_table_pos {
+            // BET table comes after HET
+            Some(bet_pos) if bet_pos > het_pos => bet_pos,
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            _ => self.header.get_hash_table_pos(),
         };
+        let actual_size = end_pos
+            .checked_sub(het_pos)
+            .ok_or_else(|| Error::invalid_format("HET table is not followed by another table"))?;
 
         log::debug!(
             "HET table position: 0x{:X}, calculated size: {} bytes",
@@ -1637,7 +1632,11 @@ impl Archive {
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self
+            .header
+            .get_hash_table_pos()
+            .checked_sub(bet_pos)
+            .ok_or_else(|| Error::invalid_format("BET table is not followed by another table"))?;
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1720,10 +1719,12 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self
+            .archive_offset
+            .saturating_add(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..8cbfe65 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -71,7 +71,7 @@ impl SignatureInfo {
         Self {
             begin_mpq_data: archive_start,
             begin_exclude: signature_file_pos,
-            end_exclude: signature_file_pos + signature_file_size,
+            end_exclude: signature_file_pos.saturating_add(signature_file_size),
             end_mpq_data: archive_start + archive_size,
             end_of_file: archive_start + archive_size, // For weak signatures, no data after archive
             signature: signature_data,
diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..d783100 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -271,7 +271,7 @@ impl MpqHeader {
 
     /// Calculate the sector size from block size
     pub fn sector_size(&self) -> usize {
-        512 << self.block_size
+        crate::calculate_sector_size(self.block_size)
     }
 }
 
diff --git a/mopaq/src/lib.rs b/mopaq/src/lib.rs
index 4ae9b8c..ba398fc 100644
--- a/mopaq/src/lib.rs
+++ b/mopaq/src/lib.rs
@@ -97,7 +97,8 @@ pub mod signatures {
 /// Block size calculation
 #[inline]
 pub fn calculate_sector_size(block_size_shift: u16) -> usize {
-    512 << block_size_shift
+    // Larger shifts only occur in damaged headers
+    512 << block_size_shift.min(31)
 }
 
 /// Check if a value is a power of two
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index e036a78..73333f5 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,6 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -77,8 +77,7 @@ impl BetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -165,20 +164,22 @@ impl BetTable {
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
         // Read file flags
-        let mut file_flags = Vec::with_capacity(header.flag_count as usize);
+        let mut file_flags = Vec::new();
         for _ in 0..header.flag_count {
             file_flags.push(cursor.read_u32_le()?);
         }
 
         // Calculate sizes
+        if header.table_entry_size == 0 && header.file_count > 0 {
+            return Err(Error::invalid_format("BET table entries have no size"));
+        }
         let file_table_size =
-            (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
-        cursor.read_exact(&mut file_table)?;
+            (header.file_count as u64 * header.table_entry_size as u64).div_ceil(8);
+        let file_table = read_bytes(&mut cursor, file_table_size)?;
 
         // Read BET hashes
         let hash_count = header.bet_hash_array_size / 8; // Each hash is 8 bytes
-        let mut bet_hashes = Vec::with_capacity(hash_count as usize);
+        let mut bet_hashes = Vec::new();
         for _ in 0..hash_count {
             bet_hashes.push(cursor.read_u64_le()?);
         }
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..2e369db 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -1,6 +1,6 @@
 //! Block table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -113,9 +113,8 @@ impl BlockTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -207,10 +206,11 @@ impl HiBlockTable {
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
         reader.seek(SeekFrom::Start(offset))?;
 
-        let mut entries = Vec::with_capacity(size as usize);
-        for _ in 0..size {
-            entries.push(reader.read_u16_le()?);
-        }
+        // 2 bytes per entry
+        let entries = read_bytes(reader, size as u64 * 2)?
+            .chunks_exact(2)
+            .map(|chunk| u16::from_le_bytes([chunk[0], chunk[1]]))
+            .collect();
 
         Ok(Self { entries })
     }
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..8c264b8 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -26,6 +26,19 @@ pub(crate) trait ReadLittleEndian: Read {
 
 impl<R: Read> ReadLittleEndian for R {}
 
+/// Read exactly `size` bytes
+///
+/// The size usually comes from the archive itself, so memory is only allocated for data
+/// that is really there.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.by_ref().take(size).read_to_end(&mut data)?;
+    if (data.len() as u64) < size {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
     use crate::crypto::decrypt_block;
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..b9847e4 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -1,6 +1,6 @@
 //! Hash table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -99,9 +99,8 @@ impl HashTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..fb811c1 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,6 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -66,8 +66,7 @@ impl HetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -240,8 +239,9 @@ impl HetTable {
         };
 
         // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
+        let hash_table_entries = (self.header.hash_table_size as u64 * 8)
+            .checked_div(self.header.hash_entry_size as u64)?;
+        let hash_index = (hash & hash_table_entries.checked_sub(1)?) as usize;
 
         // Read hash entry
         let hash_entry = self.read_hash_entry(hash_index)?;
@@ -252,7 +252,10 @@ impl HetTable {
         }
 
         // Extract file index from hash entry
-        let file_index = (hash_entry >> self.header.hash_entry_size) & index_mask;
+        let file_index = hash_entry
+            .checked_shr(self.header.hash_entry_size)
+            .unwrap_or(0)
+            & index_mask;
 
         // Verify file index is valid
         if file_index >= self.header.max_file_count as u64 {
diff --git a/mopaq/src/tables/mod.rs b/mopaq/src/tables/mod.rs
index ac8ae00..8f6ed95 100644
--- a/mopaq/src/tables/mod.rs
+++ b/mopaq/src/tables/mod.rs
@@ -2,7 +2,7 @@
 
 mod bet;
 mod block;
-mod common;
+pub(crate) mod common;
 mod hash;
 mod het;
 
-- 
2.43.0


From 6ea9b6b99d0bdf19f2372d61467026a8b4fefe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:47 +0000
Subject: [PATCH 12/37] fix: keep the leading zero byte when checking a
 signature's padding

Weak signatures start with a zero byte, which the big integer conversion dropped, so
that no weak signature was ever accepted.
---
 mopaq/src/crypto/signature.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index 8cbfe65..2d1bee7 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,7 +273,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -359,7 +359,7 @@ pub fn verify_strong_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, STRONG_SIGNATURE_SIZE - 4);
 
     // Verify custom MPQ strong signature padding
     verify_mpq_strong_signature_padding(&decrypted_bytes, &hash)
@@ -465,6 +465,14 @@ fn verify_mpq_strong_signature_padding(decrypted: &[u8], expected_hash: &[u8]) -
     Ok(true)
 }
 
+/// Convert to big-endian bytes of a fixed size (leading zero bytes are part of the padding)
+fn to_padded_bytes_be(value: &BigUint, size: usize) -> Vec<u8> {
+    let bytes = value.to_bytes_be();
+    let mut padded = vec![0u8; size.saturating_sub(bytes.len())];
+    padded.extend_from_slice(&bytes);
+    padded
+}
+
 /// Reverse byte order (little-endian to big-endian conversion)
 fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
-- 
2.43.0


From 5f9e1fa6bee1159de4342ef98041557787de1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:00 +0000
Subject: [PATCH 13/37] fix: report strong signatures of archives without a
 signature file

---
 mopaq/src/archive.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index e701ec0..f68bb01 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -676,17 +676,17 @@ impl Archive {
             false
         };
 
-        // Verify signature if present
-        let signature_status = if has_signature {
-            match self.verify_signature() {
-                Ok(status) => status,
-                Err(e) => {
-                    log::warn!("Failed to verify signature: {}", e);
+        // Verify signature if present (a strong signature does not need a signature file)
+        let signature_status = match self.verify_signature() {
+            Ok(status) => status,
+            Err(e) => {
+                log::warn!("Failed to verify signature: {}", e);
+                if has_signature {
                     SignatureStatus::WeakInvalid
+                } else {
+                    SignatureStatus::None
                 }
             }
-        } else {
-            SignatureStatus::None
         };
 
         // Build table info
-- 
2.43.0


From b6d138f46a21d5cc455b043e242ed4a5b8554909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:42 +0000
Subject: [PATCH 14/37] fix: do not deadlock when verifying all files of an
 archive through the C API

---
 storm-ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..4dc816a 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1227,6 +1227,9 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             }
         };
 
+        // SFileVerifyFile takes the lock itself
+        drop(archives);
+
         // Verify each file individually
         for file_entry in file_list {
             // Skip special files and directories
-- 
2.43.0


From c8550abd70957a774052b290384b0a19d9ef0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:45 +0000
Subject: [PATCH 15/37] fix: reject seeks before the beginning of a file

---
 storm-ffi/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 4dc816a..0ac4e99 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -526,25 +526,31 @@ pub unsafe extern "C" fn SFileSetFilePointer(
     };
 
     // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        ((*file_pos_high as i64) << 32) | (file_pos as u32 as i64)
+    };
 
     // Calculate new position
-    let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+    let base = match move_method {
+        0 => 0,                             // FILE_BEGIN
+        1 => file_handle.position as i64,   // FILE_CURRENT
+        2 => file_handle.data.len() as i64, // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
+    let new_pos = base.saturating_add(offset);
+    if new_pos < 0 {
+        // Cannot move before the beginning of the file
+        set_last_error(ERROR_INVALID_PARAMETER);
+        return 0xFFFFFFFF;
+    }
 
     // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    file_handle.position = (new_pos as usize).min(file_handle.data.len());
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From dab6c47b2b2b72e4cc34ae8100a6ac97f330e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:48 +0000
Subject: [PATCH 16/37] fix: do not hold the archive lock while an enumeration
 callback runs

---
 storm-ffi/src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 0ac4e99..8d0507d 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -837,15 +837,18 @@ pub unsafe extern "C" fn SFileEnumFiles(
         }
     };
 
-    // Get archive
-    let mut archives = ARCHIVES.lock().unwrap();
-    let Some(archive_handle) = archives.get_mut(&archive_id) else {
-        set_last_error(ERROR_INVALID_HANDLE);
-        return false;
+    // List files - the archive must not stay locked while the callback runs, because the
+    // callback may use the archive itself
+    let file_list = {
+        let mut archives = ARCHIVES.lock().unwrap();
+        let Some(archive_handle) = archives.get_mut(&archive_id) else {
+            set_last_error(ERROR_INVALID_HANDLE);
+            return false;
+        };
+        archive_handle.archive.list()
     };
 
-    // List files
-    match archive_handle.archive.list() {
+    match file_list {
         Ok(entries) => {
             for entry in entries {
                 // Simple pattern matching (just * for now)
-- 
2.43.0


From 1bd1f0a153b353bb1029c93800c0fbaadad571a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:51 +0000
Subject: [PATCH 17/37] fix: closing an archive also closes files opened at the
 same time by another thread

---
 storm-ffi/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8d0507d..53a0e8e 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,14 +290,15 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
-        // Remove any open files from this archive
-        FILES
-            .lock()
-            .unwrap()
-            .retain(|_, file| file.archive_handle != handle_id);
-
         // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        let mut archives = ARCHIVES.lock().unwrap();
+        if archives.remove(&handle_id).is_some() {
+            // Remove any open files from this archive (no file of it can be opened any more)
+            FILES
+                .lock()
+                .unwrap()
+                .retain(|_, file| file.archive_handle != handle_id);
+
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From df6f8c6de8ba61cc8902693df995723b73ceda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:14 +0000
Subject: [PATCH 18/37] fix: never extract files outside of the target
 directory

---
 storm-cli/src/commands/file.rs | 43 +++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..292c49f 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -6,7 +6,7 @@ use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use crate::output::{
     print_file_info, print_file_list, print_file_list_verbose, print_file_list_with_hashes,
@@ -90,10 +90,8 @@ pub fn extract(
 
         let output_path = if let Some(out) = output {
             PathBuf::from(out)
-        } else if preserve_path {
-            PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            output_path_for(Path::new(""), filename, preserve_path)?
         };
 
         // Create parent directories if needed
@@ -121,10 +119,13 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
+            let output_path = match output_path_for(Path::new(output_dir), filename, preserve_path)
+            {
+                Ok(path) => path,
+                Err(e) => {
+                    eprintln!("Failed to extract {}: {}", filename, e);
+                    continue;
+                }
             };
 
             // Create parent directories if needed
@@ -147,6 +148,32 @@ pub fn extract(
     Ok(())
 }
 
+/// Determine where to write a file from an archive
+///
+/// File names are under control of whoever made the archive, so the result must not
+/// leave the output directory.
+fn output_path_for(output_dir: &Path, filename: &str, preserve_path: bool) -> Result<PathBuf> {
+    // Archives use backslashes as path separators, but may contain slashes as well
+    let mut relative_path = PathBuf::new();
+    for part in filename.split(['\\', '/']) {
+        match Path::new(part).components().next() {
+            None | Some(Component::CurDir) => {}
+            Some(Component::Normal(name)) if name == part => relative_path.push(name),
+            _ => anyhow::bail!("Unsafe file name: {}", filename),
+        }
+    }
+
+    let Some(name) = relative_path.file_name() else {
+        anyhow::bail!("Not a file name: {}", filename);
+    };
+
+    if preserve_path {
+        Ok(output_dir.join(&relative_path))
+    } else {
+        Ok(output_dir.join(name))
+    }
+}
+
 /// Add files to an existing archive
 pub fn add(
     _archive_path: &str,
-- 
2.43.0


From 7e411cc7e8f567d1d6bc345d89305c613f204f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:19 +0000
Subject: [PATCH 19/37] fix: fail the verify command on invalid checksums or
 signatures, not on a missing listfile

---
 storm-cli/src/commands/archive.rs | 79 ++++++++++++++++++++++++++++++-
 1 file changed, 77 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ce1c57f..e409df0 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -218,9 +218,18 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
     verification_results.header_checks.signature_status =
         Some(archive_info.signature_status.clone());
 
+    // Failed checks of the archive itself are errors like those of individual files
+    record_archive_errors(&mut verification_results);
+
     // Verify individual files
-    let file_entries = archive.list()?;
-    let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
+    let files: Vec<String> = if archive_info.has_listfile {
+        archive.list()?.into_iter().map(|e| e.name).collect()
+    } else {
+        verification_results
+            .warnings
+            .push("No (listfile) found - cannot verify individual files".to_string());
+        Vec::new()
+    };
     verification_results.total_files = files.len();
 
     for filename in &files {
@@ -301,6 +310,72 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
     Ok(())
 }
 
+fn record_archive_errors(results: &mut VerificationResults) {
+    let header = &results.header_checks;
+    let tables = &results.table_checks;
+    let md5_valid = |check: fn(&Md5Checks) -> bool| tables.md5_checksums.as_ref().is_none_or(check);
+
+    let checks = [
+        (
+            "(signature)",
+            "Digital signature is invalid",
+            !matches!(
+                header.signature_status,
+                Some(SignatureStatus::WeakInvalid | SignatureStatus::StrongInvalid)
+            ),
+        ),
+        ("(hash table)", "Failed to load", tables.hash_table_loaded),
+        ("(block table)", "Failed to load", tables.block_table_loaded),
+        (
+            "(HET table)",
+            "Failed to load",
+            tables.het_table_loaded.unwrap_or(true),
+        ),
+        (
+            "(BET table)",
+            "Failed to load",
+            tables.bet_table_loaded.unwrap_or(true),
+        ),
+        (
+            "(header)",
+            "MD5 mismatch",
+            md5_valid(|md5| md5.header_valid),
+        ),
+        (
+            "(hash table)",
+            "MD5 mismatch",
+            md5_valid(|md5| md5.hash_table_valid),
+        ),
+        (
+            "(block table)",
+            "MD5 mismatch",
+            md5_valid(|md5| md5.block_table_valid),
+        ),
+        (
+            "(hi-block table)",
+            "MD5 mismatch",
+            md5_valid(|md5| md5.hi_block_table_valid),
+        ),
+        (
+            "(HET table)",
+            "MD5 mismatch",
+            md5_valid(|md5| md5.het_table_valid),
+        ),
+        (
+            "(BET table)",
+            "MD5 mismatch",
+            md5_valid(|md5| md5.bet_table_valid),
+        ),
+    ];
+
+    let errors: Vec<_> = checks
+        .iter()
+        .filter(|(_, _, passed)| !passed)
+        .map(|(name, error, _)| (name.to_string(), error.to_string()))
+        .collect();
+    results.errors.extend(errors);
+}
+
 #[derive(Debug)]
 struct VerificationResults {
     archive_path: String,
-- 
2.43.0


From 72c6fd14590e3c734350eab7014494ee7c513391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:22 +0000
Subject: [PATCH 20/37] fix: shorten long names at character boundaries in
 verbose listings

---
 storm-cli/src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index e2bb87c..091f1ca 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -451,8 +451,8 @@ pub fn print_file_list_verbose(files: &[FileEntry]) -> Result<(), io::Error> {
         };
 
         // Truncate long filenames
-        let display_name = if entry.name.len() > 39 {
-            format!("{}...", &entry.name[..36])
+        let display_name = if entry.name.chars().count() > 39 {
+            format!("{}...", entry.name.chars().take(36).collect::<String>())
         } else {
             entry.name.clone()
         };
-- 
2.43.0


From 3250a75ddd062692a4df09089c528afa1e90087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:51 +0000
Subject: [PATCH 21/37] fix: fail the extract command when files could not be
 extracted

---
 storm-cli/src/commands/file.rs | 50 ++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 292c49f..1fb3fac 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -110,34 +110,23 @@ pub fn extract(
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
 
+        let mut failed = 0;
         for filename in &files {
-            let data = match archive.read_file(filename) {
-                Ok(data) => data,
-                Err(e) => {
-                    eprintln!("Failed to extract {}: {}", filename, e);
-                    continue;
+            match extract_to_directory(&mut archive, filename, output_dir, preserve_path) {
+                Ok(()) => {
+                    if !global_opts.quiet {
+                        println!("Extracted: {}", filename);
+                    }
                 }
-            };
-
-            let output_path = match output_path_for(Path::new(output_dir), filename, preserve_path)
-            {
-                Ok(path) => path,
                 Err(e) => {
                     eprintln!("Failed to extract {}: {}", filename, e);
-                    continue;
+                    failed += 1;
                 }
-            };
-
-            // Create parent directories if needed
-            if let Some(parent) = output_path.parent() {
-                fs::create_dir_all(parent)?;
             }
+        }
 
-            fs::write(&output_path, data)?;
-
-            if !global_opts.quiet {
-                println!("Extracted: {}", filename);
-            }
+        if failed > 0 {
+            anyhow::bail!("Failed to extract {} of {} files", failed, files.len());
         }
 
         if !global_opts.quiet {
@@ -148,6 +137,25 @@ pub fn extract(
     Ok(())
 }
 
+/// Extract a file from an archive below an output directory
+fn extract_to_directory(
+    archive: &mut Archive,
+    filename: &str,
+    output_dir: &str,
+    preserve_path: bool,
+) -> Result<()> {
+    let data = archive.read_file(filename)?;
+    let output_path = output_path_for(Path::new(output_dir), filename, preserve_path)?;
+
+    // Create parent directories if needed
+    if let Some(parent) = output_path.parent() {
+        fs::create_dir_all(parent)?;
+    }
+
+    fs::write(&output_path, data)?;
+    Ok(())
+}
+
 /// Determine where to write a file from an archive
 ///
 /// File names are under control of whoever made the archive, so the result must not
-- 
2.43.0


From 5093ece4f0d3b5f5cf33428371eabdb89688692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 22/37] Add a guarded hook (cfg vp_hooks) to substitute the
 strong signature key

---
 mopaq/src/crypto/signature.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index 2d1bee7..d7119dc 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -82,9 +82,15 @@ impl SignatureInfo {
 }
 
 /// Blizzard public keys for signature verification
+#[allow(unexpected_cfgs)]
 pub mod public_keys {
     use super::*;
 
+    /// Modulus (hexadecimal) of a stand-in strong key, for verification harnesses that
+    /// have to make valid strong signatures
+    #[cfg(vp_hooks)]
+    pub static VP_STRONG_KEY_N: std::sync::OnceLock<String> = std::sync::OnceLock::new();
+
     /// Blizzard weak signature public key (512-bit)
     /// This is the well-known public key used for weak signatures
     pub const BLIZZARD_WEAK_PUBLIC_KEY_N: &str = "92627704BFB882CC0523B90CB1AC0459272175968D025EDA47DD7C49371BF8FAEB0E0A92167557AD51B78CCB68C5426290EE9FB14BC118E430349EA4ED6AD837";
@@ -111,7 +117,11 @@ pub mod public_keys {
 
     /// Get the strong signature public key
     pub fn strong_public_key() -> Result<RsaPublicKey> {
-        let n = RsaBigUint::from_str_radix(BLIZZARD_STRONG_PUBLIC_KEY_N, 16)
+        let modulus = BLIZZARD_STRONG_PUBLIC_KEY_N;
+        #[cfg(vp_hooks)]
+        let modulus = VP_STRONG_KEY_N.get().map_or(modulus, String::as_str);
+
+        let n = RsaBigUint::from_str_radix(modulus, 16)
             .map_err(|e| Error::invalid_format(format!("Invalid strong key modulus: {}", e)))?;
         let e = RsaBigUint::from(BLIZZARD_STRONG_PUBLIC_KEY_E);
 
-- 
2.43.0


From 6f043057b819a5b790708578d645bb93e4e8a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 23/37] fix: store data uncompressed when PKWARE compression
 cannot restore it

---
 mopaq/src/compression/algorithms/pkware.rs | 12 ++++++++++--
 mopaq/src/compression/compress.rs          | 11 +++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..e0112eb 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -12,8 +12,16 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
 
     // Use ASCII mode with 2KB dictionary as default for MPQ archives
     // This provides good compression ratio for most data types
-    implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
-        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))
+    let compressed = implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
+        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))?;
+
+    // pklib silently drops input that does not fit its work buffer
+    match explode_bytes(&compressed) {
+        Ok(restored) if restored == data => Ok(compressed),
+        _ => Err(Error::compression(
+            "PKWare compression failed: data cannot be restored",
+        )),
+    }
 }
 
 /// Decompress PKWare compressed data
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index bf44e01..e5b12cf 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -40,7 +40,10 @@ fn compress_internal(data: &[u8], method: u8) -> Result<Vec<u8>> {
         CompressionMethod::Sparse => algorithms::sparse::compress(data),
         CompressionMethod::AdpcmMono => algorithms::adpcm::compress_mono(data, 5), // Default compression level
         CompressionMethod::AdpcmStereo => algorithms::adpcm::compress_stereo(data, 5), // Default compression level
-        CompressionMethod::PKWare => algorithms::pkware::compress(data),
+        // Data that PKWare cannot handle is stored uncompressed
+        CompressionMethod::PKWare => {
+            Ok(algorithms::pkware::compress(data).unwrap_or_else(|_| data.to_vec()))
+        }
         CompressionMethod::Implode => algorithms::implode::compress(data),
         CompressionMethod::Huffman => algorithms::huffman::compress(data),
         CompressionMethod::Multiple(flags) => compress_multiple(data, flags),
@@ -97,7 +100,11 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     } else if has_sparse {
         current_data = algorithms::sparse::compress(&current_data)?;
     } else if has_pkware {
-        current_data = algorithms::pkware::compress(&current_data)?;
+        current_data = match algorithms::pkware::compress(&current_data) {
+            Ok(compressed) => compressed,
+            // Data that PKWare cannot handle is stored uncompressed
+            Err(_) => return Ok(data.to_vec()),
+        };
     }
 
     Ok(current_data)
-- 
2.43.0


From 1d5fa8788b4fcff14207b4154d2547338de6b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 24/37] fix: refuse to compress with method combinations that
 cannot be restored

---
 mopaq/src/compression/compress.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index e5b12cf..7af689b 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -61,6 +61,14 @@ fn compress_multiple(data: &[u8], flags: u8) -> Result<Vec<u8>> {
     let has_bzip2 = (flags & flags::BZIP2) != 0;
     let has_sparse = (flags & flags::SPARSE) != 0;
 
+    // Combinations that the decompression side would not undo
+    if (flags & flags::IMPLODE) != 0 || (has_adpcm_mono && has_adpcm_stereo) {
+        return Err(Error::compression(format!(
+            "Compression method combination 0x{:02X} not supported",
+            flags
+        )));
+    }
+
     // We apply compressions in order: ADPCM, then others
     let mut current_data = data.to_vec();
 
-- 
2.43.0


From 3f9c2d57fd650ef79d9ed60fcf4099ce0e695dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 25/37] fix: do not trust the declared size of compressed HET
 and BET tables

A few bytes of sparse-compressed table data declared to hold 4 GiB made opening the
archive allocate twice that.
---
 mopaq/src/tables/bet.rs    |  5 ++---
 mopaq/src/tables/common.rs | 22 +++++++++++++++++++++-
 mopaq/src/tables/het.rs    |  5 ++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 73333f5..d6a9cf3 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,7 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
-use crate::compression::decompress;
+use super::common::{decompress_table_data, decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -140,7 +139,7 @@ impl BetTable {
             // Decompress the data (skip extended header and compression byte)
             let compressed_data = &data[13..];
             let mut decompressed =
-                decompress(compressed_data, compression_type, ext_data_size as usize)?;
+                decompress_table_data(compressed_data, compression_type, ext_data_size as usize)?;
 
             // Reconstruct the full table with extended header
             let mut full_table = Vec::with_capacity(12 + decompressed.len());
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index 8c264b8..ae39e26 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -1,6 +1,7 @@
 //! Common utilities and traits for MPQ tables
 
-use crate::Result;
+use crate::compression::decompress;
+use crate::{Error, Result};
 use std::io::Read;
 
 /// Helper trait for reading little-endian integers
@@ -39,6 +40,25 @@ pub(crate) fn read_bytes<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>>
     Ok(data)
 }
 
+/// Upper bound for the expansion of a compressed table
+///
+/// Table entries are mostly hashes and positions, which hardly compress at all.
+const MAX_TABLE_EXPANSION: usize = 4096;
+
+/// Decompress the data of a HET or BET table
+///
+/// The size comes from the archive itself, so it is only believed within reason.
+pub(crate) fn decompress_table_data(data: &[u8], method: u8, size: usize) -> Result<Vec<u8>> {
+    if size > data.len().saturating_mul(MAX_TABLE_EXPANSION) {
+        return Err(Error::invalid_format(format!(
+            "Compressed table of {} bytes claims to hold {} bytes",
+            data.len(),
+            size
+        )));
+    }
+    decompress(data, method, size)
+}
+
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
     use crate::crypto::decrypt_block;
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index fb811c1..4a9660b 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,7 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, read_bytes, ReadLittleEndian};
-use crate::compression::decompress;
+use super::common::{decompress_table_data, decrypt_table_data, read_bytes, ReadLittleEndian};
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -129,7 +128,7 @@ impl HetTable {
             // Decompress the data (skip extended header and compression byte)
             let compressed_data = &data[13..];
             let mut decompressed =
-                decompress(compressed_data, compression_type, ext_data_size as usize)?;
+                decompress_table_data(compressed_data, compression_type, ext_data_size as usize)?;
 
             // Reconstruct the full table with extended header
             let mut full_table = Vec::with_capacity(12 + decompressed.len());
-- 
2.43.0


From 42b9ff71137d3c3708a20aa782819b1881926ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 26/37] fix: find the checksum table of a file whose first
 sector offset is damaged

---
 mopaq/src/archive.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index f68bb01..29dc933 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1397,10 +1397,15 @@ impl Archive {
             let expected_crc_table_start = offset_table_size;
             let expected_crc_table_size = sector_count * 4;
 
+            // The compressed size does not count the CRC table, so sectors that reach beyond
+            // it tell of one as well, should the first offset be damaged.
+            let last_data_offset = sector_offsets[sector_count] as u64;
+            let has_crc_table = first_data_offset
+                >= expected_crc_table_start + expected_crc_table_size
+                || last_data_offset > file_info.compressed_size;
+
             // (a single sector leaves no room to tell a CRC table from an extra offset)
-            if sector_count > 1
-                && first_data_offset >= expected_crc_table_start + expected_crc_table_size
-            {
+            if sector_count > 1 && has_crc_table {
                 // CRC table follows the offset table
                 let crc_data = read_bytes(&mut self.reader, expected_crc_table_size as u64)?;
 
-- 
2.43.0


From 832dd59bff0fec0c9ce39a099b4586fc8b7fbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:08 +0000
Subject: [PATCH 27/37] fix: keep searching when a user-data header points into
 the last bytes of the file

---
 mopaq/src/header.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index d783100..d428699 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -324,8 +324,9 @@ pub fn find_header<R: Read + Seek>(
                     reader.seek(SeekFrom::Start(mpq_offset))?;
 
                     // Verify there's an MPQ header at the calculated position
-                    let mpq_sig = reader.read_u32_le()?;
-                    if mpq_sig == MPQ_HEADER_SIGNATURE {
+                    // (a position in the last bytes of the file has none)
+                    let mpq_sig = reader.read_u32_le().ok();
+                    if mpq_sig == Some(MPQ_HEADER_SIGNATURE) {
                         reader.seek(SeekFrom::Start(mpq_offset))?;
                         let header = MpqHeader::read(reader)?;
                         return Ok((mpq_offset, Some(user_data), header));
-- 
2.43.0


From 10c7a8a73a930898cb96e8311f39a9e230fc316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:58 +0000
Subject: [PATCH 28/37] fix: write information to unaligned caller buffers

---
 storm-ffi/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 53a0e8e..5d59cd4 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -648,7 +648,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.size;
+                ptr::write_unaligned(buffer as *mut u64, file_handle.size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -662,7 +662,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.position as u64;
+                ptr::write_unaligned(buffer as *mut u64, file_handle.position as u64);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -694,7 +694,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = header.get_archive_size();
+                ptr::write_unaligned(buffer as *mut u64, header.get_archive_size());
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -708,7 +708,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.hash_table_size;
+                ptr::write_unaligned(buffer as *mut u32, header.hash_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -722,7 +722,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.block_table_size;
+                ptr::write_unaligned(buffer as *mut u32, header.block_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -736,7 +736,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.sector_size() as u32;
+                ptr::write_unaligned(buffer as *mut u32, header.sector_size() as u32);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
-- 
2.43.0


From ede29cb070edcdba3ed705879976b1452df06ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:11 +0000
Subject: [PATCH 29/37] fix: escape file names in the JSON output of hash
 generate

---
 storm-cli/src/commands/hash.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/commands/hash.rs b/storm-cli/src/commands/hash.rs
index 2beef7e..99d20c6 100644
--- a/storm-cli/src/commands/hash.rs
+++ b/storm-cli/src/commands/hash.rs
@@ -47,8 +47,12 @@ pub fn generate(filename: &str, hash_type: Option<HashType>, all: bool) -> Resul
 
         if global_opts.output == crate::OutputFormat::Json {
             println!(
-                r#"{{"filename":"{}","type":"{:?}","value":"0x{:08x}"}}"#,
-                filename, ht, value
+                "{}",
+                serde_json::json!({
+                    "filename": filename,
+                    "type": format!("{:?}", ht),
+                    "value": format!("0x{:08x}", value),
+                })
             );
         } else {
             println!("{:#010x}", value);
-- 
2.43.0


From 3371aa8977ab688830ddaf137c850beb1be6df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:55 +0000
Subject: [PATCH 30/37] fix: print a JSON or CSV report for the analysis of an
 empty archive

---
 storm-cli/src/commands/archive.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index e409df0..ed0af9b 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -705,10 +705,8 @@ pub fn analyze(
     // Get file entries with detailed info
     let file_entries = archive.list_with_hashes()?;
 
-    if file_entries.is_empty() {
-        if global_opts.output == OutputFormat::Text {
-            println!("No files found in archive");
-        }
+    if file_entries.is_empty() && global_opts.output == OutputFormat::Text {
+        println!("No files found in archive");
         return Ok(());
     }
 
-- 
2.43.0


From 13dd4fba81fc481b9a1ef08db52a2fbd6defebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:34 +0000
Subject: [PATCH 31/37] fix: refuse builds whose data exceed the 4 GiB limits
 of the format

---
 mopaq/src/builder.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 528fb1c..4776cee 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -710,6 +710,13 @@ impl ArchiveBuilder {
         // Calculate archive size
         let archive_size = writer.stream_position()?;
 
+        // Version 1 has no place for the high bits of positions
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::invalid_format(
+                "Archive too large for format version 1 (4 GiB limit)",
+            ));
+        }
+
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
         let header_params = HeaderWriteParams {
@@ -911,6 +918,13 @@ impl ArchiveBuilder {
         } = params;
         let mut flags = 0u32;
 
+        // Block tables and sector offset tables hold 32-bit sizes
+        if u32::try_from(file_data.len()).is_err() {
+            return Err(Error::invalid_format(format!(
+                "File too large for an MPQ archive: {archive_name}"
+            )));
+        }
+
         // For small files or if single unit is requested, write as single unit
         let is_single_unit = file_data.len() <= *sector_size;
 
@@ -1050,7 +1064,12 @@ impl ArchiveBuilder {
             }
 
             // Set last offset
-            sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
+            sector_offsets[sector_count] =
+                u32::try_from(data_start + sector_data.len()).map_err(|_| {
+                    Error::invalid_format(format!(
+                        "File too large for an MPQ archive: {archive_name}"
+                    ))
+                })?;
 
             // Log CRC generation if enabled
             if self.generate_crcs {
-- 
2.43.0


From 7e503263bf857971bd76f74d70138a3ca43884f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:02 +0000
Subject: [PATCH 32/37] fix: store complete file positions in the BET table of
 archives above 4 GiB

---
 mopaq/src/builder.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 4776cee..05a4cd6 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -805,7 +805,8 @@ impl ArchiveBuilder {
 
         // Create BET table
         let bet_table_pos = writer.stream_position()?;
-        let (bet_data, _bet_header) = self.create_bet_table(&block_table)?;
+        let (bet_data, _bet_header) =
+            self.create_bet_table(&block_table, hi_block_table.as_ref())?;
         let (bet_table_size, bet_table_md5) = self.write_bet_table(writer, &bet_data, true)?;
 
         // For compatibility, also write classic tables
@@ -1674,9 +1675,19 @@ impl ArchiveBuilder {
     }
 
     /// Create BET table data
-    fn create_bet_table(&self, block_table: &BlockTable) -> Result<(Vec<u8>, BetHeader)> {
+    fn create_bet_table(
+        &self,
+        block_table: &BlockTable,
+        hi_block_table: Option<&HiBlockTable>,
+    ) -> Result<(Vec<u8>, BetHeader)> {
         let file_count = self.pending_files.len() as u32;
 
+        // Unlike the block table, BET entries hold complete file positions
+        let file_pos_of = |index: usize, entry: &BlockEntry| {
+            (hi_block_table.map_or(0, |hi| hi.get_file_pos_high(index)) << 32)
+                | entry.file_pos as u64
+        };
+
         // Analyze block table to determine optimal bit widths
         let mut max_file_pos = 0u64;
         let mut max_file_size = 0u64;
@@ -1685,7 +1696,7 @@ impl ArchiveBuilder {
 
         for i in 0..file_count as usize {
             if let Some(entry) = block_table.get(i) {
-                max_file_pos = max_file_pos.max(entry.file_pos as u64);
+                max_file_pos = max_file_pos.max(file_pos_of(i, entry));
                 max_file_size = max_file_size.max(entry.file_size as u64);
                 max_compressed_size = max_compressed_size.max(entry.compressed_size as u64);
                 unique_flags.insert(entry.flags);
@@ -1771,7 +1782,7 @@ impl ArchiveBuilder {
 
                 // Pack entry data
                 let mut entry_bits = 0u128;
-                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (file_pos_of(i, entry) as u128) << bit_index_file_pos;
                 entry_bits |= (entry.file_size as u128) << bit_index_file_size;
                 entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
                 entry_bits |= (*flag_index as u128) << bit_index_flag_index;
-- 
2.43.0


From 5f4df4c7f157c6b2e73eb2345297a2ec84179baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 33/37] fix: let the hash table confirm HET/BET lookups of
 names sharing a Jenkins hash

---
 mopaq/src/archive.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 29dc933..c505132 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -877,10 +877,17 @@ impl Archive {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
                 // HET entries only hold a few bits of the name hash, so confirm the match
-                // with the full hash stored in the BET table
+                // with the full hash stored in the BET table. Different names can share that
+                // hash as well, so a hash table has to lead to the same file
                 let candidate = het
                     .find_file(filename)
-                    .filter(|&index| bet.matches_name(index, filename));
+                    .filter(|&index| bet.matches_name(index, filename))
+                    .filter(|&index| match &self.hash_table {
+                        Some(hash_table) => hash_table
+                            .find_file(filename, 0)
+                            .is_some_and(|(_, entry)| entry.block_index == index),
+                        None => true,
+                    });
                 if let Some(file_index) = candidate {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
-- 
2.43.0


From 78a33e2d00583f4c5caf5693954cdbcbd3bca55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:04 +0000
Subject: [PATCH 34/37] fix: report a failed enumeration instead of an empty
 one

---
 storm-ffi/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 5d59cd4..dc11f94 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -870,9 +870,9 @@ pub unsafe extern "C" fn SFileEnumFiles(
             true
         }
         Err(_) => {
-            // No listfile, but that's okay
-            set_last_error(ERROR_SUCCESS);
-            true
+            // A missing listfile is okay, but this is one that cannot be read
+            set_last_error(ERROR_FILE_CORRUPT);
+            false
         }
     }
 }
-- 
2.43.0


From fca1c6439a5d6e3314d57d3c218951c6f4f8cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:37 +0000
Subject: [PATCH 35/37] fix: undo sparse coding of sectors compressed with zlib
 or bzip2 on top

---
 mopaq/src/compression/decompress.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 76b2aef..f82bf54 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -153,7 +153,10 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
 
     // If no multi-compression was detected, try single method decompression
     if !has_adpcm && !has_pkware && (has_huffman || has_zlib || has_bzip2 || has_sparse) {
-        if has_huffman {
+        if has_sparse && (has_huffman || has_zlib || has_bzip2) {
+            // Sparse is the innermost method of a chain: undo it last
+            return algorithms::sparse::decompress(&current_data, expected_size);
+        } else if has_huffman {
             return algorithms::huffman::decompress(data, expected_size);
         } else if has_zlib {
             return algorithms::zlib::decompress(data, expected_size);
-- 
2.43.0


From 45e66772daac834d81dc326495842a55e30d5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 36/37] fix: treat ignore patterns of archive create as globs,
 inside the source only

---
 storm-cli/src/commands/archive.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ed0af9b..964622d 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -2,6 +2,7 @@
 
 use anyhow::{Context, Result};
 use colored::Colorize;
+use glob::Pattern;
 use mopaq::compression::CompressionMethod;
 use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption, OpenOptions, SignatureStatus};
 use serde_json;
@@ -108,24 +109,26 @@ fn add_directory_to_archive(
             continue;
         }
 
-        // Check ignore patterns
+        // Calculate relative path for archive
+        let relative_path = path
+            .strip_prefix(dir_path)
+            .context("Failed to calculate relative path")?;
+
+        // Check ignore patterns: part of the path inside the source directory, or a glob
         let should_ignore = options.ignore_patterns.iter().any(|pattern| {
-            path.to_string_lossy().contains(pattern)
-                || path
-                    .file_name()
-                    .map(|name| name.to_string_lossy().contains(pattern))
-                    .unwrap_or(false)
+            relative_path.to_string_lossy().contains(pattern)
+                || Pattern::new(pattern).is_ok_and(|glob| {
+                    glob.matches_path(relative_path)
+                        || relative_path
+                            .file_name()
+                            .is_some_and(|name| glob.matches(&name.to_string_lossy()))
+                })
         });
 
         if should_ignore {
             continue;
         }
 
-        // Calculate relative path for archive
-        let relative_path = path
-            .strip_prefix(dir_path)
-            .context("Failed to calculate relative path")?;
-
         let archive_path = if archive_prefix.is_empty() {
             relative_path.to_string_lossy().to_string()
         } else {
-- 
2.43.0


From 2d8f7c9f99257bf5e2c73529b88b80932023a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 37/37] fix: refuse file names that are no UTF-8 instead of
 panicking in archive create

---
 storm-cli/src/commands/archive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 964622d..e9f5b23 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -138,7 +138,10 @@ fn add_directory_to_archive(
         // Normalize path separators
         let archive_path = archive_path.replace('\\', "/");
 
-        builder = builder.add_file(path.to_str().unwrap(), &archive_path);
+        let file = path
+            .to_str()
+            .with_context(|| format!("File name is not valid UTF-8: {}", path.display()))?;
+        builder = builder.add_file(file, &archive_path);
 
         if !quiet {
             println!("Added: {}", archive_path);
-- 
2.43.0

