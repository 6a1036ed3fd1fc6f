From 6d77fb03ace884f3ce65f93e338b460d8984e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 01/44] Let ebi build without the ffi_alp feature (cfg-gate the
 remaining FFIAlp uses)

---
 ebi/src/compressor.rs | 13 ++++++++-----
 ebi/src/format.rs     |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebi/src/compressor.rs b/ebi/src/compressor.rs
index 2025644..59c2479 100644
--- a/ebi/src/compressor.rs
+++ b/ebi/src/compressor.rs
@@ -26,7 +26,7 @@ pub mod buff;
 pub mod chimp;
 pub mod chimp_n;
 pub mod elf;
-// #[cfg(feature = "ffi_alp")]
+#[cfg(feature = "ffi_alp")]
 pub mod ffi_alp;
 pub mod general_xor;
 pub mod gorilla;
@@ -302,8 +302,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => {}
+            | CompressorConfig::Snappy(_) => {}
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => {}
         }
     }
 
@@ -320,8 +321,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => None,
+            | CompressorConfig::Snappy(_) => None,
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => None,
         }
     }
 
@@ -358,6 +360,7 @@ impl CompressorConfig {
             CompressorConfig::Zstd(mut c) => just_write!(c, w),
             CompressorConfig::Gzip(mut c) => just_write!(c, w),
             CompressorConfig::Snappy(mut c) => just_write!(c, w),
+            #[cfg(feature = "ffi_alp")]
             CompressorConfig::FFIAlp(mut c) => just_write!(c, w),
         }
 
diff --git a/ebi/src/format.rs b/ebi/src/format.rs
index f4b9ca3..d42d00f 100644
--- a/ebi/src/format.rs
+++ b/ebi/src/format.rs
@@ -195,6 +195,7 @@ pub enum CompressionScheme {
     Zstd = 9,
     Gzip = 10,
     Snappy = 11,
+    #[cfg(feature = "ffi_alp")]
     FFIAlp = 12,
 }
 
-- 
2.43.0


From 76d7ae3cb20d38df77af82a0b76cee954579a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 02/44] Add a simulated clock behind --cfg ebi_sim

---
 ebi/src/encoder.rs |  3 +--
 ebi/src/time.rs    | 57 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..2627445 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -12,7 +12,7 @@ use crate::{
         ChunkFooter, FieldType, FileConfig, FileFooter0, FileFooter3, FileHeader,
         GeneralChunkHeader,
     },
-    time::{SegmentKind, SegmentedExecutionTimes},
+    time::{Instant, SegmentKind, SegmentedExecutionTimes},
 };
 use core::slice;
 #[cfg(feature = "serde")]
@@ -20,7 +20,6 @@ use serde::{Deserialize, Serialize};
 use std::{
     io::{self, Read, Write},
     mem::{offset_of, size_of},
-    time::Instant,
 };
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index e3a034e..b20e60c 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -1,13 +1,60 @@
+// `ebi_sim` is a plain `--cfg` flag, not a Cargo feature.
+#![allow(unexpected_cfgs)]
+
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
-use std::{
-    marker::PhantomData,
-    ops::AddAssign,
-    time::{Duration, Instant},
-};
+use std::{marker::PhantomData, ops::AddAssign, time::Duration};
 
 use crate::format::{deserialize::FromLeBytes, serialize};
 
+/// The monotonic clock every measurement of this crate reads.
+#[cfg(not(ebi_sim))]
+pub(crate) use std::time::Instant;
+
+#[cfg(ebi_sim)]
+pub(crate) use sim_clock::Instant;
+
+/// Simulated clock for deterministic simulation, compiled only with `--cfg ebi_sim`.
+#[cfg(ebi_sim)]
+pub mod sim_clock {
+    use std::{cell::Cell, time::Duration};
+
+    thread_local! {
+        static NOW_NANOS: Cell<u64> = const { Cell::new(0) };
+        static TICK_NANOS: Cell<u64> = const { Cell::new(0) };
+    }
+
+    /// Restart the clock of this thread at `now`; every later reading first moves it on by `tick`.
+    pub fn reset(now: Duration, tick: Duration) {
+        NOW_NANOS.set(now.as_nanos() as u64);
+        TICK_NANOS.set(tick.as_nanos() as u64);
+    }
+
+    /// Let simulated time pass.
+    pub fn advance(by: Duration) {
+        NOW_NANOS.set(NOW_NANOS.get() + by.as_nanos() as u64);
+    }
+
+    /// Peek at the simulated time without moving it on.
+    pub fn now() -> Duration {
+        Duration::from_nanos(NOW_NANOS.get())
+    }
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub struct Instant(u64);
+
+    impl Instant {
+        pub fn now() -> Self {
+            NOW_NANOS.set(NOW_NANOS.get() + TICK_NANOS.get());
+            Self(NOW_NANOS.get())
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Duration::from_nanos(Self::now().0 - self.0)
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy, Hash, Eq, PartialEq, Ord, PartialOrd)]
 pub enum SegmentKind {
     IORead = 0,
-- 
2.43.0


From 567dac55e6056204f2fc0c0e3a180a3b9f23bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 03/44] fix: retry interrupted input reads and report input
 errors in the middle of a chunk

read_less_or_equal treated EINTR and UnexpectedEof as the end of a chunk: the
chunk was cut short at an arbitrary byte, a partially read record was dropped
and the following records were read misaligned. An interrupt at the beginning
of a chunk failed the whole encoding.
---
 ebi/src/encoder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 2627445..94c5bbd 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -279,15 +279,7 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
-                if n_read == 0 {
-                    return Err(e.into());
-                }
-                break;
-            }
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
             Err(e) => return Err(e.into()),
         }
     }
-- 
2.43.0


From 08081bd94e7ff983c477bcc92f33234fbc88f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 04/44] fix: read the footer of a file without chunks

An encoded empty input has no chunk footers, and fetch_footer then indexed an
empty buffer and panicked.
---
 ebi/src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..aaccd44 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,7 +196,8 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
+        buf.resize(1, 0);
+        input.read_exact(&mut buf[..])?;
         let config_size = buf[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
-- 
2.43.0


From 3ecdd0d692af41350bafd118a75fc73a855a3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 05/44] fix: flush the footer before publishing its offset in
 the header

Without the flush the header's footer offset can reach the device before the
footer it points to; after a crash such a file opens as some other dataset.
---
 ebi/src/api/encoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebi/src/api/encoder.rs b/ebi/src/api/encoder.rs
index 3442bc1..1005583 100644
--- a/ebi/src/api/encoder.rs
+++ b/ebi/src/api/encoder.rs
@@ -160,6 +160,8 @@ impl<R: Read, W: Write + Seek> Encoder<R, W> {
         }
 
         file_writer.write_footer(output.writer_mut(), self.timer)?;
+        // The footer must be complete before the header points to it.
+        output.writer_mut().flush()?;
         let footer_offset_slot_offset = file_writer.footer_offset_slot_offset();
         output
             .writer_mut()
-- 
2.43.0


From 6ebd2fbabc091a236302ecb6de2538b4c1df15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:04 +0000
Subject: [PATCH 06/44] fix: refuse files whose header is not a finished EBI
 header

The footer offset is blank until encoding has finished. Opening such a file
seeked to offset 0 and parsed the header as a footer: it panicked, allocated
without bound or produced a bogus dataset. Check the magic number and that the
footer offset lies behind the header.
---
 ebi/src/decoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index aaccd44..99c35c9 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -137,6 +137,13 @@ impl FileReader {
         let mut buf = [0u8; size_of::<FileHeader>()];
         input.read_exact(&mut buf)?;
         let header = FileHeader::try_from_le_bytes(&buf)?;
+        // The footer offset stays blank until the whole file has been written.
+        if header.magic_number != *b"EBI1"
+            || header.footer_offset < size_of::<FileHeader>() as u64
+        {
+            #[allow(clippy::useless_conversion)]
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         self.header = Some(NativeFileHeader::from(&header));
 
-- 
2.43.0


From e17a8500ae711a3309043a0f9935b1db1e20cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 07/44] fix: keep Elf lossless when erased bits cannot be
 recovered

The Elf encoders erase mantissa bits whenever the estimated number of
significant digits allows it, but for some values (e.g. 2.6764042711626004e-119)
the decoder's rounding does not give the same value back. Check the recovery
while encoding and store such values unmodified.
---
 ebi/src/compression_common/elf.rs   | 16 ++++++++++++++++
 ebi/src/compressor/elf.rs           |  7 ++++++-
 ebi/src/decoder/chunk_reader/elf.rs | 12 +-----------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..1e23db7 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -57,6 +57,22 @@ pub fn round_up(v: f64, alpha: u32) -> f64 {
     }
 }
 
+/// Recovers the original value from the value with erased bits.
+pub fn recover(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        let alpha = beta_star - sp - 1;
+        round_up(v_prime, alpha as u32)
+    }
+}
+
 fn get_significant_count(v: f64, sp: i32, last_beta_star: i32) -> i32 {
     let mut i = if last_beta_star != i32::MAX && last_beta_star != 0 {
         std::cmp::max(last_beta_star - sp - 1, 1)
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..73150ac 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -122,7 +122,12 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // Erase bits only if the decoder can recover exactly the same value.
+            if beta_star < 16
+                && erase_bits > 4
+                && delta != 0
+                && elf::recover(f64::from_bits(mask & v_bits), beta_star).to_bits() == v_bits
+            {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..9737c46 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,17 +66,7 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
+        let v = compression_common::elf::recover(v_prime, self.last_beta_star);
         Ok(Some(v))
     }
 
-- 
2.43.0


From 94509e09744c8427753e2150535f64d17bac0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:52 +0000
Subject: [PATCH 08/44] fix: report, rather than panic on, a read error while
 loading a BUFF or Chimp128 chunk

---
 ebi/src/decoder/chunk_reader.rs         | 4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 8 ++++----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..4c23d0b 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..180732f 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -37,20 +37,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..234402d 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> decoder::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 27ca20b9141f77f6b2fb49921e31ab1b25d57987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:20 +0000
Subject: [PATCH 09/44] fix: BUFF filters keep to the given bitmask and to the
 stored bit width

---
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 9 ++++++---
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..635dcae 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -318,10 +318,13 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         fractional_part_bits_length as i32,
     );
 
+    // Every candidate record: the selected ones if a bitmask is given, otherwise the whole chunk
     let all = || {
-        let mut all = RoaringBitmap::new();
-        all.insert_range(logical_offset..(number_of_records + logical_offset));
-        all
+        bitmask.clone().unwrap_or_else(|| {
+            let mut all = RoaringBitmap::new();
+            all.insert_range(logical_offset..(number_of_records + logical_offset));
+            all
+        })
     };
     let none = RoaringBitmap::new;
     // First Skip all the evaluation based on delta base
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..4d57d36 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -105,13 +105,17 @@ pub(crate) fn buff_simd256_equal_filter(
     }
     if fixed_representation_bits_length == 0 {
         return if fixed_pred == fixed_base64 {
-            all()
+            bitmask.unwrap_or_else(all)
         } else {
             none()
         };
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    // A predicate too wide for the stored representation cannot be equal to any record
+    if fixed_representation_bits_length < 64 - delta_fixed_pred.leading_zeros() {
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0


From 0db09bbf6e07b58fef0b5b66b9ce01b11a2d8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 10/44] fix: BUFF sum over a constant chunk counts only the
 selected records

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..0fb1de7 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -80,7 +80,8 @@ pub(super) fn sum_with_bitmask(
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        let accumulated_len = bitmask.map_or(number_of_records as u64, |bitmask| bitmask.len());
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
-- 
2.43.0


From 076cae5ce0d5d0fbd45970761e2eafb0f1792bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 11/44] fix: knn1 resumes after, and across, chunk boundaries
 and refuses an empty target

---
 ebi/src/api/decoder.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..d40d1d8 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,9 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
@@ -495,17 +498,21 @@ impl<R: Read + Seek> Decoder<R> {
             if remaining_records != 0 {
                 // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
                 let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
+                processing_vector.distance += chunk_reader.distance_squared(
+                    0,
+                    &target[remaining_target_start..remaining_target_start + n_records_in_vector],
+                )?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                offset += n_records_in_vector;
+                remaining_records -= n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance < min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From a1502d8c747ee4ed22e38902e00e59ece90f8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 12/44] fix: matmul multiplies rows that span chunks and
 refuses shapes that do not fit

---
 ebi/src/api/decoder.rs | 51 +++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index d40d1d8..044fba3 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -622,9 +622,11 @@ impl<R: Read + Seek> Decoder<R> {
         let (target_rows, target_columns) = target_matrix_shape;
         let (data_rows, data_columns) = data_matrix_shape;
 
-        let is_matrix_shape_invalid = data_columns != target_rows;
+        let is_matrix_shape_invalid = data_columns != target_rows
+            || target_matrix.len() != target_rows * target_columns
+            || data_rows * data_columns == 0;
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % (data_rows * data_columns) != 0;
+            !is_matrix_shape_invalid && number_of_records % (data_rows * data_columns) != 0;
         if is_matrix_shape_invalid || is_data_matrix_shape_aligned_to_number_of_records_invalid {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
@@ -633,26 +635,45 @@ impl<R: Read + Seek> Decoder<R> {
 
         let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
 
+        if batch_size == 0 {
+            self.timer = timer;
+            return Ok(result_matrices.into_boxed_slice());
+        }
+
         let mut offset_in_chunk = 0;
         let mut chunk_index = 0;
         let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
 
-        for _ in 0..batch_size {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-            }
-            for row_index in 0..data_rows {
-                for target_column in target_matrix.chunks_exact(target_rows) {
-                    let result = chunk_reader
-                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;
+        for _ in 0..batch_size * data_rows {
+            let result_row_start = result_matrices.len();
+            result_matrices.resize(result_row_start + target_columns, 0.0);
+
+            // A row may continue in the following chunks
+            let mut offset_in_row = 0;
+            while offset_in_row < data_columns {
+                let chunk_number_of_records = chunk_reader.number_of_records() as usize;
+                if offset_in_chunk >= chunk_number_of_records {
+                    offset_in_chunk = 0;
+                    chunk_index += 1;
+                    timer += chunk_reader.segmented_execution_times();
+                    chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+                    continue;
+                }
 
-                    result_matrices.push(result);
+                let n_columns =
+                    (data_columns - offset_in_row).min(chunk_number_of_records - offset_in_chunk);
+                for (result, target_column) in result_matrices[result_row_start..]
+                    .iter_mut()
+                    .zip(target_matrix.chunks_exact(target_rows))
+                {
+                    *result += chunk_reader.dot_product(
+                        offset_in_chunk,
+                        &target_column[offset_in_row..offset_in_row + n_columns],
+                    )?;
                 }
+                offset_in_row += n_columns;
+                offset_in_chunk += n_columns;
             }
-            offset_in_chunk += data_rows * data_columns;
         }
         debug_assert!(chunk_reader.is_last_chunk());
         timer += chunk_reader.segmented_execution_times();
-- 
2.43.0


From 0f155ad179369984e35122fecb17504abfb165e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 13/44] fix: return the values of a bare column instead of
 panicking for AggregationKind::None

---
 ebi/src/api/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 044fba3..72a2ad3 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -843,7 +843,17 @@ impl AggregationKind {
         bitmask: Option<&RoaringBitmap>,
     ) -> decoder::Result<AggregationResult> {
         Ok(match self {
-            AggregationKind::None => todo!(),
+            AggregationKind::None => {
+                let mut output = DecoderOutput::from_vec(Vec::new());
+                decoder.materialize(&mut output, bitmask, None)?;
+                output
+                    .writer()
+                    .get_ref()
+                    .chunks_exact(size_of::<f64>())
+                    .map(|bytes| f64::from_ne_bytes(bytes.try_into().unwrap()))
+                    .collect::<Vec<f64>>()
+                    .into()
+            }
             AggregationKind::Max => decoder.max(bitmask, None)?.into(),
             AggregationKind::Min => decoder.min(bitmask, None)?.into(),
             AggregationKind::Sum => decoder.sum(bitmask, None)?.into(),
-- 
2.43.0


From 9262e703139af68f335fcc3513e3c6f4f77827d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:10 +0000
Subject: [PATCH 14/44] fix: DeltaSprintz min of a chunk that is already
 decompressed is the minimum

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..3a8edce 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -210,7 +211,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From 86fee30b3d4c66e8094899ced8219cdfb1cb65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:10 +0000
Subject: [PATCH 15/44] fix: iterate over a bit-packed chunk from its start,
 whatever was read before

---
 ebi/src/decoder/chunk_reader/chimp_n.rs     | 1 +
 ebi/src/decoder/chunk_reader/general_xor.rs | 1 +
 ebi/src/decoder/chunk_reader/sprintz.rs     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 234402d..0fe284d 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 3a8edce..fea6113 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -59,6 +59,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
-- 
2.43.0


From 180c41bebdfb98330d2789680b00c8accb727611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:10 +0000
Subject: [PATCH 16/44] fix: chunk aggregates over no records agree between
 schemes and with the decompressed chunk

---
 ebi/src/decoder/chunk_reader/buff.rs    |  4 ++--
 ebi/src/decoder/chunk_reader/sprintz.rs | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 180732f..22479d6 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -259,7 +259,7 @@ impl QueryExecutor for BUFFReader {
         let bitpacking_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
         let max_fp = if let Some(bitmask) = bitmask {
             if bitmask.is_empty() {
-                return Ok(f64::NAN);
+                return Ok(f64::NEG_INFINITY);
             }
 
             min_max::max_with_bitmask::<false>(&self.bytes, bitmask, logical_offset)?
@@ -290,7 +290,7 @@ impl QueryExecutor for BUFFReader {
         let bitpacking_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
         let min_fp = if let Some(bitmask) = bitmask {
             if bitmask.is_empty() {
-                return Ok(f64::NAN);
+                return Ok(f64::INFINITY);
             }
 
             min_max::max_with_bitmask::<true>(&self.bytes, bitmask, logical_offset)?
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index fea6113..843b838 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -187,7 +187,7 @@ impl QueryExecutor for DeltaSprintzReader {
 
         if let Some(bitmask) = bitmask {
             if bitmask.is_empty() {
-                return Ok(f64::NAN);
+                return Ok(f64::NEG_INFINITY);
             }
             let bitmask = bitmask.iter().filter(|&x| {
                 x >= logical_offset as u32
@@ -217,7 +217,7 @@ impl QueryExecutor for DeltaSprintzReader {
 
         if let Some(bitmask) = bitmask {
             if bitmask.is_empty() {
-                return Ok(f64::NAN);
+                return Ok(f64::INFINITY);
             }
             let bitmask = bitmask.iter().filter(|&x| {
                 x >= logical_offset as u32
@@ -290,7 +290,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
@@ -376,7 +376,11 @@ fn min_max<const IS_MIN: bool>(
     let mut max_quantized = if IS_MIN { i64::MAX } else { i64::MIN };
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(if IS_MIN {
+            f64::INFINITY
+        } else {
+            f64::NEG_INFINITY
+        });
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 95969ad8e204466fa403ec37b9f4af1df65372b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:37 +0000
Subject: [PATCH 17/44] fix: iterate and decompress run-length and uncompressed
 chunks from their first record

---
 ebi/src/decoder/chunk_reader/run_length.rs   | 17 ++++++++++++++---
 ebi/src/decoder/chunk_reader/uncompressed.rs |  9 ++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..2a2972a 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,15 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> RunLengthReaderImpl<R> {
+    fn seek_to_first_field(&mut self) -> io::Result<()> {
+        self.reader.seek(SeekFrom::Start(self.header_size() as u64))?;
+
+        Ok(())
+    }
+}
+
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -73,6 +81,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
+        self.seek_to_first_field()?;
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
             self.reader.read_exact(&mut buf)?;
@@ -99,6 +108,8 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.seek_to_first_field()?;
+
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +168,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..aeaaa26 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +80,8 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader.rewind()?;
+
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +126,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From a58e0ab0bec3f0dceaa6f242f83398b3694ea020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:33 +0000
Subject: [PATCH 18/44] fix: BUFF and Zstd count only the chunk being
 compressed, like the other codecs

---
 ebi/src/compressor/buff.rs | 1 +
 ebi/src/compressor/zstd.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 8c62872..08d3ac7 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -45,6 +45,7 @@ impl BUFFCompressor {
 
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
         let precalculated = Precalculated::precalculate(self.scale as usize, data);
         quantization_timer.stop();
diff --git a/ebi/src/compressor/zstd.rs b/ebi/src/compressor/zstd.rs
index aafe28f..4a6f1fa 100644
--- a/ebi/src/compressor/zstd.rs
+++ b/ebi/src/compressor/zstd.rs
@@ -47,6 +47,7 @@ impl From<ZstdCompressorConfig> for ZstdCompressor {
 
 impl Compressor for ZstdCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let bytes =
             unsafe { std::slice::from_raw_parts(input.as_ptr().cast::<u8>(), size_of_val(input)) };
         self.total_bytes_in += bytes.len();
-- 
2.43.0


From c260b02ebd12b8fd166eab059782c0b1f75f737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 19/44] fix: rewinding uncompressed records takes them off the
 byte count

---
 ebi/src/compressor/uncompressed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..db0c81d 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -1,4 +1,7 @@
-use std::{mem::size_of_val, slice};
+use std::{
+    mem::{size_of, size_of_val},
+    slice,
+};
 
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
@@ -87,6 +90,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From baba2728d2526e9dcd045a298f2c77b2de6841e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:56 +0000
Subject: [PATCH 20/44] fix: release the column buffer when reading a chunk of
 an expression fails

---
 ebi/src/decoder/expr.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ebi/src/decoder/expr.rs b/ebi/src/decoder/expr.rs
index 4011c73..4e76e2b 100644
--- a/ebi/src/decoder/expr.rs
+++ b/ebi/src/decoder/expr.rs
@@ -96,8 +96,6 @@ impl Expr {
                 let number_of_records = readers[*i].number_of_records() as usize;
                 let mut raw_buffer = Vec::<f64>::with_capacity(number_of_records);
                 let raw_buffer_ptr = raw_buffer.as_mut_ptr();
-                let raw_buffer_capacity = raw_buffer.capacity();
-                std::mem::forget(raw_buffer);
                 let len = {
                     // Lifetime of `&mut [u8]`
                     let raw_buffer_byte_slice = unsafe {
@@ -115,9 +113,9 @@ impl Expr {
                     writer.position() as usize
                 };
 
-                let buffer_written =
-                    unsafe { Vec::from_raw_parts(raw_buffer_ptr, len / 8, raw_buffer_capacity) };
-                Ok(buffer_written)
+                // The first `len` bytes have been written
+                unsafe { raw_buffer.set_len(len / 8) };
+                Ok(raw_buffer)
             }
         }
     }
-- 
2.43.0


From ccf3952c46b0c5a67aef6ba5b6792e5e45fa1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:44 +0000
Subject: [PATCH 21/44] fix: csv2bin reports a failure to write the last
 records of a file

---
 tools/src/csv2bin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/src/csv2bin.rs b/tools/src/csv2bin.rs
index ae1a61b..d25b32b 100644
--- a/tools/src/csv2bin.rs
+++ b/tools/src/csv2bin.rs
@@ -102,6 +102,8 @@ fn process_file(path: &Path) -> Result<()> {
             }
         }
 
+        writer.flush().context("Failed to write to output file")?;
+
         Ok(())
     };
 
-- 
2.43.0


From c1bdfedd384f38fe95d5e164682a27d922d194c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:23 +0000
Subject: [PATCH 22/44] hook: the simulated instant offers what std's does

---
 ebi/src/time.rs | 64 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index b20e60c..48a8715 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -17,7 +17,11 @@ pub(crate) use sim_clock::Instant;
 /// Simulated clock for deterministic simulation, compiled only with `--cfg ebi_sim`.
 #[cfg(ebi_sim)]
 pub mod sim_clock {
-    use std::{cell::Cell, time::Duration};
+    use std::{
+        cell::Cell,
+        ops::{Add, AddAssign, Sub, SubAssign},
+        time::Duration,
+    };
 
     thread_local! {
         static NOW_NANOS: Cell<u64> = const { Cell::new(0) };
@@ -40,7 +44,8 @@ pub mod sim_clock {
         Duration::from_nanos(NOW_NANOS.get())
     }
 
-    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    /// Stands in for `std::time::Instant`.
+    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
     pub struct Instant(u64);
 
     impl Instant {
@@ -50,7 +55,60 @@ pub mod sim_clock {
         }
 
         pub fn elapsed(&self) -> Duration {
-            Duration::from_nanos(Self::now().0 - self.0)
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            Duration::from_nanos(self.0.saturating_sub(earlier.0))
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.duration_since(earlier)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0).map(Duration::from_nanos)
+        }
+
+        pub fn checked_add(&self, by: Duration) -> Option<Self> {
+            self.0.checked_add(by.as_nanos() as u64).map(Self)
+        }
+
+        pub fn checked_sub(&self, by: Duration) -> Option<Self> {
+            self.0.checked_sub(by.as_nanos() as u64).map(Self)
+        }
+    }
+
+    impl Sub for Instant {
+        type Output = Duration;
+        fn sub(self, earlier: Self) -> Duration {
+            self.duration_since(earlier)
+        }
+    }
+
+    impl Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, by: Duration) -> Self {
+            Self(self.0 + by.as_nanos() as u64)
+        }
+    }
+
+    impl Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, by: Duration) -> Self {
+            Self(self.0 - by.as_nanos() as u64)
+        }
+    }
+
+    impl AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, by: Duration) {
+            *self = *self + by;
+        }
+    }
+
+    impl SubAssign<Duration> for Instant {
+        fn sub_assign(&mut self, by: Duration) {
+            *self = *self - by;
         }
     }
 }
-- 
2.43.0


From caafd1f3d79f5c5ea57e2e113106fcb19578d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:29 +0000
Subject: [PATCH 23/44] hook: stand-in for the missing ALP library in
 simulations of the programs

---
 ebi/src/compressor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebi/src/compressor.rs b/ebi/src/compressor.rs
index 59c2479..6632215 100644
--- a/ebi/src/compressor.rs
+++ b/ebi/src/compressor.rs
@@ -458,6 +458,12 @@ impl CompressorConfig {
     pub fn ffi_alp() -> ffi_alp::FFIAlpCompressorConfigBuilder {
         ffi_alp::FFIAlpCompressorConfigBuilder::default()
     }
+
+    /// Stand-in that lets the programs of this workspace be simulated where the ALP library is missing.
+    #[cfg(all(ebi_sim, not(feature = "ffi_alp")))]
+    pub fn ffi_alp() -> uncompressed::UncompressedCompressorConfigBuilder {
+        uncompressed::UncompressedCompressorConfigBuilder::default()
+    }
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
-- 
2.43.0


From 147592f29cc8b37e2510a2376eb73edd51108609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:29 +0000
Subject: [PATCH 24/44] fix: experimenter reports a failure to write a result
 file

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4a0d53a..b9ac8a8 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -455,10 +455,9 @@ fn main() -> anyhow::Result<()> {
                         .collect::<anyhow::Result<Vec<_>>>()?
                 };
 
-                serde_json::to_writer(
-                    BufWriter::new(File::create(output_dir.join(filename))?),
-                    &output,
-                )?;
+                let mut writer = BufWriter::new(File::create(output_dir.join(filename))?);
+                serde_json::to_writer(&mut writer, &output)?;
+                writer.flush()?;
             }
         }
 
@@ -811,6 +810,7 @@ fn write_output_json(
     let mut writer = std::io::BufWriter::new(output_file);
     let write_result = writer
         .write_all(output_json.as_bytes())
+        .and_then(|()| writer.flush())
         .context("Failed to write output");
     if let Err(e) = write_result {
         eprintln!("{}\n", output_filename.as_ref().display());
-- 
2.43.0


From e1fb2cc64236c367bd19454a997c2d0b51b488a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:58 +0000
Subject: [PATCH 25/44] fix: all-patch can read the results it is to patch

---
 experimenter/src/main.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index b9ac8a8..116099e 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -528,12 +528,16 @@ fn main() -> anyhow::Result<()> {
             "Patched dataset is not a file: {}",
             patched.display()
         );
-        let Output::All(patched) =
-            serde_json::from_reader::<_, Output>(&mut BufReader::new(File::open(&patched)?))
-                .context("Failed to read results being patched")?
-        else {
-            anyhow::bail!("Patched dataset is not an AllOutput");
-        };
+        // An internally tagged enum cannot hold the u128 execution times: take the tag off by hand
+        let mut patched: serde_json::Map<String, serde_json::Value> =
+            serde_json::from_reader(&mut BufReader::new(File::open(&patched)?))
+                .context("Failed to read results being patched")?;
+        anyhow::ensure!(
+            patched.remove("command_type") == Some("All".into()),
+            "Patched dataset is not an AllOutput"
+        );
+        let patched: AllOutput = serde_json::from_value(patched.into())
+            .context("Failed to read results being patched")?;
         let save_dir = args
             .binary_dir
             .parent()
-- 
2.43.0


From af51cc50bb8a61c4bd1c4badb5a7c26af4a42283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:58 +0000
Subject: [PATCH 26/44] fix: patching a compressor's results replaces its max
 and sum results too

---
 experimenter/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 844c315..877d009 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -209,6 +209,8 @@ impl AllOutputInner {
         self.compress.clear();
         self.filters.clear();
         self.materialize.clear();
+        self.max.clear();
+        self.sum.clear();
     }
 }
 
-- 
2.43.0


From d2a3867bf8e595393bb6516e384a3ecd3acae70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:29 +0000
Subject: [PATCH 27/44] fix: the largest record of a data set is found whatever
 lengths its file is read in

---
 experimenter/src/main.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 116099e..a67ded4 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -1030,10 +1030,7 @@ fn process_experiment_for_dataset(
             let mut max_value: f64 = 0.0;
             let mut reader = BufReader::new(File::open(&binary_file)?);
             let mut buffer = [0; 8];
-            while let Ok(n) = reader.read(&mut buffer) {
-                if n == 0 {
-                    break;
-                }
+            while reader.read_exact(&mut buffer).is_ok() {
                 let value = u64::from_le_bytes(buffer);
                 max_value = max_value.max(f64::from_bits(value));
             }
-- 
2.43.0


From 4d8d4ccd6662cacab6bddf92bebf9eba54ef301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:29 +0000
Subject: [PATCH 28/44] fix: a directory of an experiment that cannot be listed
 fails instead of counting as empty

---
 experimenter/src/main.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index a67ded4..d38960c 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -239,15 +239,25 @@ fn entry_file_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item =
         "Failed to read directory: {}",
         dir.as_ref().display()
     ))?;
-    Ok(entries.filter_map(|e| {
-        let e = e.ok()?;
-        let path = e.path();
-        if path.is_file() {
-            Some(path)
-        } else {
-            None
+    let mut files = Vec::new();
+    for entry in entries {
+        let path = entry
+            .context(format!(
+                "Failed to read directory: {}",
+                dir.as_ref().display()
+            ))?
+            .path();
+        match fs::metadata(&path) {
+            Ok(metadata) if metadata.is_file() => files.push(path),
+            Ok(_) => {}
+            // e.g. a dangling link
+            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+            Err(e) => {
+                return Err(e).context(format!("Failed to look at: {}", path.display()));
+            }
         }
-    }))
+    }
+    Ok(files.into_iter())
 }
 
 fn entry_dir_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item = PathBuf>> {
-- 
2.43.0


From de7d41f27765e9e176dab15d5482e486e1309991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:29 +0000
Subject: [PATCH 29/44] fix: an earlier result that cannot be looked at is not
 overwritten

---
 experimenter/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index d38960c..4a5e8a0 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -754,7 +754,12 @@ fn save_output_json(output: Output, save_dir: impl AsRef<Path>) -> anyhow::Resul
     let mut file_number = 0;
     let output_file = loop {
         let output_filename = save_dir.as_ref().join(format!("{:03}.json", file_number));
-        if !output_filename.exists() {
+        // An earlier result must not be taken for missing when it cannot be looked at
+        let exists = output_filename.try_exists().context(format!(
+            "Failed to look at: {}",
+            output_filename.display()
+        ))?;
+        if !exists {
             break output_filename;
         }
         file_number += 1;
-- 
2.43.0


From 27ade9b08f9de55e4302d9751c80a4a64851a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:45 +0000
Subject: [PATCH 30/44] fix: tpch saves the averages of query 1 in the order of
 the query and of their names

---
 experimenter/src/tpch.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/tpch.rs b/experimenter/src/tpch.rs
index fd2d683..e00ec5c 100644
--- a/experimenter/src/tpch.rs
+++ b/experimenter/src/tpch.rs
@@ -308,9 +308,8 @@ pub fn process_h01(path: impl AsRef<Path>) -> anyhow::Result<HashMap<String, Tpc
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
-        // swap the order of the result for the consistency with SQL
-        result.swap(4, 6);
-        query_names.swap(4 - 3, 6 - 3);
+        // reorder the result for the consistency with SQL: AVG(l_quantity), AVG(l_extendedprice), AVG(l_discount)
+        result[4..7].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01".to_string(),
-- 
2.43.0


From fa61f830bd229f89f19fce11df03cac0f6fcc150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 31/44] fix: ucr2018 fails when a data set cannot be looked at
 instead of leaving it out

---
 experimenter/src/main.rs | 45 +++++++++++++---------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4a5e8a0..3f50e9f 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -235,11 +235,22 @@ fn binary_entries(binary_dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<
 }
 
 fn entry_file_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item = PathBuf>> {
+    entry_iter(dir, |metadata| metadata.is_file())
+}
+
+fn entry_dir_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item = PathBuf>> {
+    entry_iter(dir, |metadata| metadata.is_dir())
+}
+
+fn entry_iter(
+    dir: impl AsRef<Path>,
+    wanted: impl Fn(&fs::Metadata) -> bool,
+) -> anyhow::Result<impl Iterator<Item = PathBuf>> {
     let entries = fs::read_dir(dir.as_ref()).context(format!(
         "Failed to read directory: {}",
         dir.as_ref().display()
     ))?;
-    let mut files = Vec::new();
+    let mut paths = Vec::new();
     for entry in entries {
         let path = entry
             .context(format!(
@@ -248,7 +259,7 @@ fn entry_file_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item =
             ))?
             .path();
         match fs::metadata(&path) {
-            Ok(metadata) if metadata.is_file() => files.push(path),
+            Ok(metadata) if wanted(&metadata) => paths.push(path),
             Ok(_) => {}
             // e.g. a dangling link
             Err(e) if e.kind() == io::ErrorKind::NotFound => {}
@@ -257,23 +268,7 @@ fn entry_file_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item =
             }
         }
     }
-    Ok(files.into_iter())
-}
-
-fn entry_dir_iter(dir: impl AsRef<Path>) -> anyhow::Result<impl Iterator<Item = PathBuf>> {
-    let entries = fs::read_dir(dir.as_ref()).context(format!(
-        "Failed to read directory: {}",
-        dir.as_ref().display()
-    ))?;
-    Ok(entries.filter_map(|e| {
-        let e = e.ok()?;
-        let path = e.path();
-        if path.is_dir() {
-            Some(path)
-        } else {
-            None
-        }
-    }))
+    Ok(paths.into_iter())
 }
 
 #[derive(Subcommand, Debug, Clone)]
@@ -2165,10 +2160,6 @@ fn ucr2018_command(
     let mut dataset_scales = HashMap::new();
     let scale_fallbacked_datasets = Vec::new();
     for dataset_entry in tqdm(dataset_entries.iter()) {
-        if !dataset_entry.is_dir() {
-            continue;
-        }
-
         let dataset_name = dataset_entry
             .file_name()
             .unwrap()
@@ -2219,10 +2210,6 @@ fn ucr2018_command(
     let mut dataset_to_vector_length = HashMap::new();
 
     for dataset_entry in tqdm(dataset_entries.iter()).desc(Some("dataset")) {
-        if !dataset_entry.is_dir() {
-            continue;
-        }
-
         let dataset_name = dataset_entry
             .file_name()
             .unwrap()
@@ -2242,10 +2229,6 @@ fn ucr2018_command(
         let start_time = chrono::Utc::now();
         let mut results = HashMap::new();
         for dataset_entry in tqdm(dataset_entries.iter()).desc(Some("dataset")) {
-            if !dataset_entry.is_dir() {
-                continue;
-            }
-
             let dataset_name = dataset_entry
                 .file_name()
                 .unwrap()
-- 
2.43.0


From 345946dc1fb86b25c32bf13b812ce15716c15e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 32/44] fix: a benchmark whose earlier results cannot be looked
 at fails instead of overwriting them

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 3f50e9f..d67d035 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -389,7 +389,7 @@ fn main() -> anyhow::Result<()> {
         let mut dir_number = 0;
         let output_dir = loop {
             let output_dirname = save_dir.join(format!("{:03}", dir_number));
-            if !output_dirname.exists() {
+            if !output_dirname.try_exists()? {
                 break output_dirname;
             }
             dir_number += 1;
@@ -487,7 +487,7 @@ fn main() -> anyhow::Result<()> {
         let mut dir_number = 0;
         let unique_output_dir = loop {
             let output_dirname = save_dir.join(format!("{:03}", dir_number));
-            if !output_dirname.exists() {
+            if !output_dirname.try_exists()? {
                 break output_dirname;
             }
             dir_number += 1;
@@ -580,7 +580,7 @@ fn main() -> anyhow::Result<()> {
         let mut dir_number = 0;
         let unique_output_dir = loop {
             let output_dirname = save_dir.join(format!("{:03}", dir_number));
-            if !output_dirname.exists() {
+            if !output_dirname.try_exists()? {
                 break output_dirname;
             }
             dir_number += 1;
@@ -614,7 +614,7 @@ fn main() -> anyhow::Result<()> {
         let mut dir_number = 0;
         let unique_output_dir = loop {
             let output_dirname = save_dir.join(format!("{:03}", dir_number));
-            if !output_dirname.exists() {
+            if !output_dirname.try_exists()? {
                 break output_dirname;
             }
             dir_number += 1;
-- 
2.43.0


From 28c10e3367cf619c84397678b5aa726c25f59cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:25 +0000
Subject: [PATCH 33/44] fix: ucr2018 notices when the first line of a data set
 cannot be read

---
 experimenter/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index d67d035..0554fd1 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2099,9 +2099,12 @@ pub fn slurp_file(file: impl AsRef<Path>, prec: i32) -> Vec<LabelPixel> {
         }
     }
     let file = file.as_ref();
-    BufReader::new(File::open(file).unwrap())
-        .lines()
-        .skip(1)
+    let mut lines = BufReader::new(File::open(file).unwrap()).lines();
+    // The first line is not used, but failing to read it must not go unnoticed
+    if let Some(line) = lines.next() {
+        line.unwrap();
+    }
+    lines
         .map(|line| {
             let line = line.unwrap();
             let mut iter = line.trim().split('\t').map(|x| x.parse::<f64>().unwrap());
-- 
2.43.0


From 8e91264b2ca0f539a913ce72321dfeeeb865d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:27 +0000
Subject: [PATCH 34/44] fix: collect-stats counts the decimals of numbers with
 an upper-case exponent

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 1235453..35d6b43 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
         if let Some(dot_pos) = base.find('.') {
-- 
2.43.0


From 4fd831fe530bbadba67f4ef5a82616766412bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:27 +0000
Subject: [PATCH 35/44] fix: collect-stats sums the exponents of large tables
 without overflow

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 35d6b43..9cb6f13 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -296,7 +296,7 @@ fn mean_i32(values: &[i32]) -> f64 {
     if values.is_empty() {
         0.0
     } else {
-        let sum: i32 = values.iter().sum();
+        let sum: i64 = values.iter().map(|&v| i64::from(v)).sum();
         sum as f64 / values.len() as f64
     }
 }
-- 
2.43.0


From dc99d75adb92dd5c990c506646aab1d91dee0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:27 +0000
Subject: [PATCH 36/44] fix: experimenter counts the decimals of numbers with
 an upper-case exponent

---
 experimenter/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 877d009..c1b886c 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -367,7 +367,7 @@ pub enum Output {
 /// assert_eq!(get_decimal_precision("-99"), 0);
 /// ```
 pub fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
 
-- 
2.43.0


From 2a0c9b12034654505492add3736c96b091841e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 37/44] fix: DeltaSprintz decodes chunks of a scale beyond 32
 bits with the whole scale

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 73 ++++++++++++++++++-------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 843b838..0f300a9 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -24,6 +24,7 @@ pub type BitReader = bit_read::BufferedBitReader<Vec<u8>>;
 pub struct DeltaSprintzReader {
     bit_reader: BitReader,
     number_of_records: u64,
+    scale: u64,
     decompressed: Option<Vec<f64>>,
 }
 
@@ -34,6 +35,11 @@ impl DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<Self> {
         let number_of_records = handle.number_of_records();
+        let scale = handle
+            .footer()
+            .compressor_config()
+            .scale()
+            .ok_or(DecoderError::PreconditionsNotMet)?;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
@@ -43,6 +49,7 @@ impl DeltaSprintzReader {
         Ok(Self {
             bit_reader,
             number_of_records,
+            scale,
             decompressed: None,
         })
     }
@@ -60,7 +67,7 @@ impl Reader for DeltaSprintzReader {
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
         self.bit_reader.reset();
-        Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
+        Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records, self.scale)
     }
 
     fn decompress(&mut self, timer: &mut SegmentedExecutionTimes) -> decoder::Result<&[f64]> {
@@ -107,10 +114,11 @@ impl QueryExecutor for DeltaSprintzReader {
             .read_bits(64)
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
         let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-        let scale = self
-            .bit_reader
+        let scale = self.scale;
+        // The low half of the scale
+        self.bit_reader
             .read_bits(32)
-            .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+            .ok_or(DecoderError::UnexpectedEndOfChunk)?;
         let number_of_bits_needed = self
             .bit_reader
             .read_byte()
@@ -195,13 +203,19 @@ impl QueryExecutor for DeltaSprintzReader {
             });
             min_max::<false>(
                 self.number_of_records,
+                self.scale,
                 &mut self.bit_reader,
                 bitmask,
                 logical_offset,
                 timer,
             )
         } else {
-            min_max_without_bitmask::<false>(self.number_of_records, &mut self.bit_reader, timer)
+            min_max_without_bitmask::<false>(
+                self.number_of_records,
+                self.scale,
+                &mut self.bit_reader,
+                timer,
+            )
         }
     }
 
@@ -225,13 +239,19 @@ impl QueryExecutor for DeltaSprintzReader {
             });
             min_max::<true>(
                 self.number_of_records,
+                self.scale,
                 &mut self.bit_reader,
                 bitmask,
                 logical_offset,
                 timer,
             )
         } else {
-            min_max_without_bitmask::<true>(self.number_of_records, &mut self.bit_reader, timer)
+            min_max_without_bitmask::<true>(
+                self.number_of_records,
+                self.scale,
+                &mut self.bit_reader,
+                timer,
+            )
         }
     }
 
@@ -255,19 +275,26 @@ impl QueryExecutor for DeltaSprintzReader {
             });
             sum(
                 self.number_of_records,
+                self.scale,
                 &mut self.bit_reader,
                 bitmask,
                 logical_offset,
                 timer,
             )
         } else {
-            sum_without_bitmask(self.number_of_records, &mut self.bit_reader, timer)
+            sum_without_bitmask(
+                self.number_of_records,
+                self.scale,
+                &mut self.bit_reader,
+                timer,
+            )
         }
     }
 }
 
 fn sum(
     number_of_records: u64,
+    scale: u64,
     bit_reader: &mut BitReader,
     mut bitmask: impl Iterator<Item = u32>,
     logical_offset: usize,
@@ -279,9 +306,10 @@ fn sum(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
+    // The low half of the scale
+    bit_reader
         .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+        .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -318,6 +346,7 @@ fn sum(
 
 fn sum_without_bitmask(
     number_of_records: u64,
+    scale: u64,
     bit_reader: &mut BitReader,
     timer: &mut SegmentedExecutionTimes,
 ) -> decoder::Result<f64> {
@@ -327,9 +356,10 @@ fn sum_without_bitmask(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
+    // The low half of the scale
+    bit_reader
         .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+        .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -354,6 +384,7 @@ fn sum_without_bitmask(
 
 fn min_max<const IS_MIN: bool>(
     number_of_records: u64,
+    scale: u64,
     bit_reader: &mut BitReader,
     mut bitmask: impl Iterator<Item = u32>,
     logical_offset: usize,
@@ -365,9 +396,10 @@ fn min_max<const IS_MIN: bool>(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
+    // The low half of the scale
+    bit_reader
         .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+        .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -413,6 +445,7 @@ fn min_max<const IS_MIN: bool>(
 
 fn min_max_without_bitmask<const IS_MIN: bool>(
     number_of_records: u64,
+    scale: u64,
     bit_reader: &mut BitReader,
     timer: &mut SegmentedExecutionTimes,
 ) -> decoder::Result<f64> {
@@ -422,9 +455,10 @@ fn min_max_without_bitmask<const IS_MIN: bool>(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
+    // The low half of the scale
+    bit_reader
         .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+        .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -454,21 +488,22 @@ fn min_max_without_bitmask<const IS_MIN: bool>(
 pub struct DeltaSprintzDecompressIteratorImpl<R: BitRead2> {
     bit_reader: R,
     previous_value_quantized: i64,
-    scale: u32,
+    scale: u64,
     number_of_bits_needed: u8,
     number_of_records: u64,
     record_index: u64,
 }
 
 impl<R: BitRead2> DeltaSprintzDecompressIteratorImpl<R> {
-    pub fn new(mut bit_reader: R, number_of_records: u64) -> decoder::Result<Self> {
+    pub fn new(mut bit_reader: R, number_of_records: u64, scale: u64) -> decoder::Result<Self> {
         let initial_value_bits = bit_reader
             .read_bits(64)
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
         let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-        let scale = bit_reader
+        // The low half of the scale
+        bit_reader
             .read_bits(32)
-            .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+            .ok_or(DecoderError::UnexpectedEndOfChunk)?;
         let number_of_bits_needed = bit_reader
             .read_byte()
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
-- 
2.43.0


From 64edb5456b21da151750b65b5273d622e156f7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 38/44] fix: BUFF filters compare with predicates beyond the
 fixed representation

---
 ebi/src/compression_common/buff.rs              | 7 +++++++
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 2 +-
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..23e7a2b 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -45,6 +45,13 @@ pub(crate) mod precision_bound {
         let exp = ((v_bits & EXP_MASK) >> 52) as i32 - 1023i32;
         if exp < -fractional_part_bits_length {
             0i64
+        } else if exp + fractional_part_bits_length >= 63 {
+            // further from zero than any fixed representation
+            if v.is_sign_negative() {
+                i64::MIN
+            } else {
+                i64::MAX
+            }
         } else {
             into_fixed_representation(v, fractional_part_bits_length)
         }
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index 635dcae..7dc5529 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -341,7 +341,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     {
         let pred_fixed_representation_bits_length = if delta_fixed_pred == 0 {
             0
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index 4d57d36..41493c2 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -111,7 +111,7 @@ pub(crate) fn buff_simd256_equal_filter(
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     // A predicate too wide for the stored representation cannot be equal to any record
     if fixed_representation_bits_length < 64 - delta_fixed_pred.leading_zeros() {
         return none();
-- 
2.43.0


From dfad96d94c42bfa9d5f0c759fdff495e6772c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 39/44] fix: sums of BUFF and DeltaSprintz chunks do not
 overflow 64 bits

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 13 +++++++------
 ebi/src/decoder/chunk_reader/sprintz.rs  |  8 ++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 0fb1de7..ccbc04e 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -84,7 +84,8 @@ pub(super) fn sum_with_bitmask(
         return Ok(fp * accumulated_len as f64);
     }
 
-    let mut sum = 0;
+    // Many records, or long ones, sum up to more than 64 bits
+    let mut sum = 0i128;
     let n_byte_subcolumns = fixed_representation_bits_length / 8;
     let bits_subcolumn_length = fixed_representation_bits_length % 8;
 
@@ -93,7 +94,7 @@ pub(super) fn sum_with_bitmask(
             .read_n_byte(number_of_records as usize)
             .map_err(|_| DecoderError::UnexpectedEndOfChunk)?;
         let subcolumn_sum = sum_byte_subcolumn(chunk, bitmask, logical_offset);
-        let subcolumn_sum_scaled = subcolumn_sum << ((i * 8 + bits_subcolumn_length) as u64);
+        let subcolumn_sum_scaled = (subcolumn_sum as i128) << (i * 8 + bits_subcolumn_length);
         sum += subcolumn_sum_scaled;
     }
     if bits_subcolumn_length != 0 {
@@ -106,15 +107,15 @@ pub(super) fn sum_with_bitmask(
         )?;
         // sum += subcolumn_sum as f64 / scale;
         // sum <<= bits_subcolumn_length;
-        sum += subcolumn_sum;
+        sum += subcolumn_sum as i128;
     }
 
     let accumulated_len = if let Some(bitmask) = bitmask {
-        bitmask.len() as i64
+        bitmask.len() as i128
     } else {
-        number_of_records as i64
+        number_of_records as i128
     };
-    let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
+    let sum = (sum + base_fixed64 as i128 * accumulated_len) as f64 / scale;
 
     Ok(sum)
 }
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 0f300a9..7cbf3bd 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -315,7 +315,7 @@ fn sum(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
         return Ok(0.0);
@@ -332,7 +332,7 @@ fn sum(
             continue;
         }
 
-        sum += quantized;
+        sum += quantized as i128;
         if let Some(next_logical_record_index) = bitmask.next() {
             next = next_logical_record_index;
         } else {
@@ -365,7 +365,7 @@ fn sum_without_bitmask(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
     for _ in 0..number_of_records {
         let zigzag_delta = bit_reader
@@ -375,7 +375,7 @@ fn sum_without_bitmask(
         let quantized = previous_value_quantized + delta;
         previous_value_quantized = quantized;
 
-        sum += quantized;
+        sum += quantized as i128;
     }
     comparison_timer.stop();
 
-- 
2.43.0


From ec6085885220191ec12f75cd9937f6d4518abdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 40/44] fix: ucr2018 rounds data sets of ten and more decimals
 to their own scale

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 0554fd1..40af80f 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2090,7 +2090,7 @@ pub struct LabelPixel {
     pub label: isize,
     pub pixels: Vec<f64>,
 }
-pub fn slurp_file(file: impl AsRef<Path>, prec: i32) -> Vec<LabelPixel> {
+pub fn slurp_file(file: impl AsRef<Path>, prec: i64) -> Vec<LabelPixel> {
     fn nan_to_zero(x: f64) -> f64 {
         if x.is_nan() {
             0.0
@@ -2219,7 +2219,7 @@ fn ucr2018_command(
             .to_string_lossy()
             .to_string();
         let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
-        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
         let test_vectors = test_data
             .iter()
             .map(|x| x.pixels.clone())
@@ -2251,8 +2251,8 @@ fn ucr2018_command(
             let train_file = dataset_entry.join(format!("{}_TRAIN.tsv", dataset_name));
             let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
 
-            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i32);
-            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i64);
+            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
             let train_vectors = train_data
                 .iter()
                 .flat_map(|x| x.pixels.clone())
-- 
2.43.0


From 65eb4f304d6f6a633c505b17983a02611123597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:20 +0000
Subject: [PATCH 41/44] fix: DeltaSprintz filters compare with predicates
 between two quantized values

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 7cbf3bd..2f7b0be 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -124,7 +124,12 @@ impl QueryExecutor for DeltaSprintzReader {
             .read_byte()
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
-        let predicate_encoded = predicate.map(|v| (v * scale as f64).round() as i64);
+        // In half steps, as a predicate may lie between two quantized values
+        let predicate_encoded = predicate.map(|v| {
+            let nearest = (v * scale as f64).round();
+            let dequantized = nearest / scale as f64;
+            2 * (nearest as i64 as i128) + (v > dequantized) as i128 - (v < dequantized) as i128
+        });
         let all = || {
             let mut all = roaring::RoaringBitmap::new();
             all.insert_range(
@@ -157,7 +162,7 @@ impl QueryExecutor for DeltaSprintzReader {
             let quantized = previous_value_quantized + delta;
             previous_value_quantized = quantized;
 
-            if predicate_encoded.eval(quantized) {
+            if predicate_encoded.eval(2 * quantized as i128) {
                 let record_offset = logical_offset as u32 + i as u32;
                 bm.insert(record_offset);
             }
-- 
2.43.0


From 4fcd5af6609cecb8eec2cc55d521014510ca5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 42/44] fix: BUFF accepts materialization precisions beyond the
 finest supported one

---
 ebi/src/decoder/chunk_reader/buff/controlled_precision.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
index 2e3a061..c1d512a 100644
--- a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
+++ b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
@@ -21,7 +21,10 @@ pub fn decode_with_precision(bytes: &[u8], precision: u32) -> Vec<f64> {
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
-    let controlled_fractional_part_bits_length = PRECISION_MAP[precision as usize] as u32;
+    // A precision finer than any supported one keeps every bit
+    let controlled_fractional_part_bits_length = PRECISION_MAP
+        .get(precision as usize)
+        .map_or(fractional_part_bits_length, |&bits| bits as u32);
     let bits_unnecessary =
         fractional_part_bits_length.saturating_sub(controlled_fractional_part_bits_length);
 
-- 
2.43.0


From 6a0052d54eddb15631db29fe90a7e479792acefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:35 +0000
Subject: [PATCH 43/44] fix: XOR codecs announce the size the closed chunk will
 have

---
 ebi/src/compressor/general_xor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/compressor/general_xor.rs b/ebi/src/compressor/general_xor.rs
index c7b79a0..351655c 100644
--- a/ebi/src/compressor/general_xor.rs
+++ b/ebi/src/compressor/general_xor.rs
@@ -148,7 +148,7 @@ impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T> {
 
     fn total_bytes_buffered(&self) -> usize {
         // EOF: f64::NAN + 1 bit
-        let n_bits = self.w.as_slice().len() * 8 + self.encoder.simulate_close();
+        let n_bits = self.w.number_of_bits_written() + self.encoder.simulate_close();
 
         n_bits.next_multiple_of(8) / 8
     }
-- 
2.43.0


From 904569dd75a75fff2e1d5b067ecd9c57ca6bb16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:36 +0000
Subject: [PATCH 44/44] fix: a chunk option without room for a record is
 refused instead of losing the input

---
 ebi/src/encoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 94c5bbd..e03d4a4 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -307,6 +307,17 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
 
     pub fn write<W: Write>(&mut self, mut f: W) -> Result<()> {
         let chunk_option = *self.file_writer.chunk_option();
+        if matches!(
+            chunk_option,
+            ChunkOption::RecordCount(0) | ChunkOption::ByteSizeBestEffort(0)
+        ) {
+            // No chunk would ever take a record of the input
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "the chunk option leaves no room for a record",
+            )
+            .into());
+        }
 
         match chunk_option {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
-- 
2.43.0

