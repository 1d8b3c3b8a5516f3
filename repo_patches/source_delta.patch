From a7c941b0495d241e44b4585c2b4df60ee1cd2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 01/33] fix: keep buffered bits adjacent when MSB32 bit pump
 refills from a short tail

The slow refill delivers 8, 16 or 24 bits, but the bits already buffered
were always moved up by 32.
---
 rawler/src/pumps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/pumps.rs b/rawler/src/pumps.rs
index f187554..f52a4c2 100644
--- a/rawler/src/pumps.rs
+++ b/rawler/src/pumps.rs
@@ -244,7 +244,7 @@ impl<'a> BitPump for BitPumpMSB32<'a> {
   fn peek_bits(&mut self, num: u32) -> u32 {
     if num > self.nbits {
       let (inbits, bit_cnt) = self.refill();
-      self.bits = (self.bits << 32) | inbits as u64;
+      self.bits = (self.bits << bit_cnt) | inbits as u64;
       self.nbits += bit_cnt;
       self.pos += bit_cnt as usize / 8;
     }
-- 
2.43.0


From 2aaf3f7ca7680d0876429c16a3b6c0bba978d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 02/33] fix: JPEG bit pump must not read past a buffer that
 ends in 0xFF

The data is finished then, as with any other marker; the rest is stuffed
with zeroes as documented.
---
 rawler/src/pumps.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/pumps.rs b/rawler/src/pumps.rs
index f52a4c2..fbeacd2 100644
--- a/rawler/src/pumps.rs
+++ b/rawler/src/pumps.rs
@@ -285,7 +285,7 @@ impl<'a> BitPump for BitPumpJPEG<'a> {
               let nextbyte = self.buffer[self.pos];
               if nextbyte != 0xff {
                 nextbyte
-              } else if self.buffer[self.pos + 1] == 0x00 {
+              } else if self.buffer.get(self.pos + 1) == Some(&0x00) {
                 self.pos += 1; // Skip the extra byte used to mark 255
                 nextbyte
               } else {
-- 
2.43.0


From 18ac00a68050b435030a42252349eca4d31029b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 03/33] fix: report a missing marker instead of reading past
 the stream's end

skip_to_marker() looked at the byte after a final 0xFF, and at the
current byte of an exhausted stream.
---
 rawler/src/pumps.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rawler/src/pumps.rs b/rawler/src/pumps.rs
index fbeacd2..29b8970 100644
--- a/rawler/src/pumps.rs
+++ b/rawler/src/pumps.rs
@@ -421,10 +421,13 @@ impl<'a> ByteStream<'a> {
   #[inline(always)]
   pub fn skip_to_marker(&mut self) -> Result<usize, String> {
     let mut skip_count = 0;
+    if self.remaining_bytes() < 2 {
+      return Err("No marker found inside rest of buffer".to_string());
+    }
     while !(self.buffer[self.pos] == 0xFF && self.buffer[self.pos + 1] != 0 && self.buffer[self.pos + 1] != 0xFF) {
       self.pos += 1;
       skip_count += 1;
-      if self.pos >= self.buffer.len() {
+      if self.pos + 1 >= self.buffer.len() {
         return Err("No marker found inside rest of buffer".to_string());
       }
     }
-- 
2.43.0


From 2c693b5be766e3fd37d9affba6b8a72605ae6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:38 +0000
Subject: [PATCH 04/33] fix: skip into the first byte of a row when unpacking
 odd bit depths

consume_bits() needs the bits to be buffered already; on a fresh pump it
underflowed whenever a row did not start on a byte boundary.
---
 rawler/src/decompressors/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/decompressors/packed.rs b/rawler/src/decompressors/packed.rs
index 53fcd7e..a68372a 100644
--- a/rawler/src/decompressors/packed.rs
+++ b/rawler/src/decompressors/packed.rs
@@ -182,7 +182,7 @@ fn unpack_generic_msb<'a>(lines: impl LineIteratorMut<'a, u16>, src: &[u8], skip
   let offset = skip_bits / 8;
   let bias = skip_bits % 8;
   let mut pump = BitPumpMSB::new(&src[offset..]);
-  pump.consume_bits(bias as u32);
+  pump.get_bits(bias as u32);
   for line in lines {
     for p in line {
       *p = pump.get_bits(bits) as u16;
-- 
2.43.0


From f766bdaeaa2b7594b1f0f544983ec06e196d937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:10 +0000
Subject: [PATCH 05/33] verif: guarded hooks to private unpackers (cfg
 dnglab_verif)

---
 rawler/src/lib.rs         |  4 +++
 rawler/src/verif_hooks.rs | 60 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)
 create mode 100644 rawler/src/verif_hooks.rs

diff --git a/rawler/src/lib.rs b/rawler/src/lib.rs
index 3e0534a..940b9a0 100644
--- a/rawler/src/lib.rs
+++ b/rawler/src/lib.rs
@@ -41,6 +41,8 @@
     //unused_import_braces,
     //unused_qualifications
   )]
+// cfg(dnglab_verif) guards hooks for the verification harnesses
+#![allow(unexpected_cfgs)]
 // Clippy configuration
 #![allow(
   clippy::needless_doctest_main,
@@ -91,6 +93,8 @@ pub mod rawimage;
 pub mod rawsource;
 pub mod tags;
 pub mod tiles;
+#[cfg(dnglab_verif)]
+pub mod verif_hooks;
 
 #[doc(hidden)]
 pub use cfa::CFA;
diff --git a/rawler/src/verif_hooks.rs b/rawler/src/verif_hooks.rs
new file mode 100644
index 0000000..43875ff
--- /dev/null
+++ b/rawler/src/verif_hooks.rs
@@ -0,0 +1,60 @@
+//! Access to private items for the verification harnesses.
+//!
+//! Only compiled with `RUSTFLAGS="--cfg dnglab_verif"`; never part of a normal build.
+#![allow(missing_docs)]
+
+pub mod packed {
+  use crate::bits::LookupTable;
+  use crate::decompressors::packed as p;
+  use crate::pixarray::PixU16;
+
+  type R = std::result::Result<PixU16, String>;
+
+  macro_rules! plain {
+    ($($name:ident),* $(,)?) => { $(pub fn $name(buf: &[u8], width: usize, height: usize, dummy: bool) -> R { p::$name(buf, width, height, dummy) })* };
+  }
+  macro_rules! padded {
+    ($($name:ident),* $(,)?) => { $(pub fn $name(buf: &[u8], width: usize, height: usize, stride: usize, dummy: bool) -> R { p::$name(buf, width, height, stride, dummy) })* };
+  }
+  plain!(
+    decompress_8bit,
+    decompress_10le_lsb16,
+    decompress_10be,
+    decompress_12be,
+    decompress_12be_msb16,
+    decompress_12le_16bitaligned,
+    decompress_12be_msb32,
+    decompress_14be_msb32,
+    decompress_12le_wcontrol,
+    decompress_12be_wcontrol,
+    decompress_12be_interlaced,
+    decompress_12be_interlaced_unaligned,
+    decompress_12le,
+    decompress_12le_unpacked,
+    decompress_12be_unpacked,
+    decompress_12be_unpacked_left_aligned,
+    decompress_12le_unpacked_left_aligned,
+    decompress_14le_unpacked,
+    decompress_14be_unpacked,
+    decompress_16le,
+    decompress_16le_skiplines,
+    decompress_16be,
+  );
+  padded!(decompress_12le_padded, decompress_14le_padded, decompress_14le_unpacked_padded);
+  pub fn decompress_8bit_wtable(buf: &[u8], tbl: &LookupTable, width: usize, height: usize, dummy: bool) -> R {
+    p::decompress_8bit_wtable(buf, tbl, width, height, dummy)
+  }
+  pub fn decompress_generic_msb(buf: &[u8], width: usize, height: usize, bits: u32, dummy: bool) -> R {
+    p::decompress_generic_msb(buf, width, height, bits, dummy)
+  }
+  pub fn decompress_generic_lsb(buf: &[u8], width: usize, height: usize, bits: u32, dummy: bool) -> R {
+    p::decompress_generic_lsb(buf, width, height, bits, dummy)
+  }
+}
+
+pub mod pix {
+  use crate::pixarray::Pix2D;
+  pub fn deinterleave2x2(pix: &Pix2D<u16>) -> std::result::Result<Pix2D<u16>, String> {
+    crate::pixarray::deinterleave2x2(pix)
+  }
+}
-- 
2.43.0


From 2bf49683ca03caa78df905afe1fed861e892bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:28 +0000
Subject: [PATCH 06/33] verif: in-place contracts on clampbits, clamp, log2ceil
 (cfg kani + dnglab_verif)

---
 rawler/src/bits.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index bf2a1de..d0c96c7 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -13,6 +13,8 @@ use std::iter::repeat;
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use serde::{Deserialize, Serialize};
 
+#[cfg_attr(all(kani, dnglab_verif), kani::requires(bits <= 16))]
+#[cfg_attr(all(kani, dnglab_verif), kani::ensures(|r: &u16| *r as i32 == val.max(0).min((1i32 << bits) - 1)))]
 #[inline(always)]
 pub fn clampbits(val: i32, bits: u32) -> u16 {
   let max = (1 << bits) - 1;
@@ -25,6 +27,8 @@ pub fn clampbits(val: i32, bits: u32) -> u16 {
   }
 }
 
+#[cfg_attr(all(kani, dnglab_verif), kani::requires(min <= max))]
+#[cfg_attr(all(kani, dnglab_verif), kani::ensures(|r: &i32| *r >= min && *r <= max && (val < min || val > max || *r == val) && (val >= min || *r == min) && (val <= max || *r == max)))]
 pub fn clamp(val: i32, min: i32, max: i32) -> i32 {
   let mut res = val;
   if res < min {
@@ -37,6 +41,7 @@ pub fn clamp(val: i32, min: i32, max: i32) -> i32 {
 }
 
 /// Calculate the required bits to encode as many states.
+#[cfg_attr(all(kani, dnglab_verif), kani::ensures(|r: &usize| if old(states) == 0 { *r == 0 } else { *r >= 1 && *r <= 64 && (*r == 64 || old(states) <= 1usize << *r) && (*r == 1 || old(states) > 1usize << (*r - 1)) }))]
 pub fn log2ceil(mut states: usize) -> usize {
   let mut bits = 0;
   if states > 0 {
-- 
2.43.0


From f096dc19e03a024347ebac2431b07173fbbafe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:23 +0000
Subject: [PATCH 07/33] fix: dithered curve lookup must not wrap around at the
 ends of the sample range

---
 rawler/src/bits.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index d0c96c7..f14c1c5 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -224,8 +224,8 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 { table[i - 1] } else { center };
       let upper = if i < (table.len() - 1) { table[i + 1] } else { center };
-      let base = if center == 0 { 0 } else { center - ((upper - lower + 2) / 4) };
-      let delta = upper - lower;
+      let delta = upper.saturating_sub(lower);
+      let base = if center == 0 { 0 } else { center.saturating_sub(((delta as u32 + 2) / 4) as u16) };
       tbl[i] = (center, base, delta);
     }
     LookupTable { table: tbl }
@@ -255,7 +255,7 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    pixel.min(u16::MAX as u32) as u16
   }
 }
 
-- 
2.43.0


From cc4d3e90b2acba790e7e0c55c2c7125b4d3e4fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:11 +0000
Subject: [PATCH 08/33] fix: embed signed and float TIFF values with their
 exact bit pattern

---
 rawler/src/formats/tiff/value.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index ec5e4c4..e39a15c 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -861,10 +861,10 @@ impl Value {
         Self::Short(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
         Self::Long(v) => Ok(v[0]),
         Self::SByte(v) => Ok(
-          (*v.get(0).unwrap_or(&0) as u32)
-            | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-            | ((*v.get(2).unwrap_or(&0) as u32) << 16)
-            | ((*v.get(3).unwrap_or(&0) as u32) << 24),
+          (*v.get(0).unwrap_or(&0) as u8 as u32)
+            | ((*v.get(1).unwrap_or(&0) as u8 as u32) << 8)
+            | ((*v.get(2).unwrap_or(&0) as u8 as u32) << 16)
+            | ((*v.get(3).unwrap_or(&0) as u8 as u32) << 24),
         ),
         Self::Undefined(v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
@@ -872,9 +872,9 @@ impl Value {
             | ((*v.get(2).unwrap_or(&0) as u32) << 16)
             | ((*v.get(3).unwrap_or(&0) as u32) << 24),
         ),
-        Self::SShort(v) => Ok((v[0] as u32) | ((*v.get(1).unwrap_or(&0) as u32) << 16)),
+        Self::SShort(v) => Ok((v[0] as u16 as u32) | ((*v.get(1).unwrap_or(&0) as u16 as u32) << 16)),
         Self::SLong(v) => Ok(v[0] as u32),
-        Self::Float(v) => Ok(v[0] as u32),
+        Self::Float(v) => Ok(v[0].to_bits()),
         Self::Unknown(_, v) => Ok(
           (*v.get(0).unwrap_or(&0) as u32)
             | ((*v.get(1).unwrap_or(&0) as u32) << 8)
-- 
2.43.0


From f85bcd87492019720e50c7bb2b79fd9dd117aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:43 +0000
Subject: [PATCH 09/33] fix: tiler must not read image rows past the given
 height

---
 rawler/src/tiles.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rawler/src/tiles.rs b/rawler/src/tiles.rs
index 707ee23..88aa7df 100644
--- a/rawler/src/tiles.rs
+++ b/rawler/src/tiles.rs
@@ -12,7 +12,6 @@ pub struct ErrorNotTileable;
 pub struct ImageTiler<'a, T> {
   data: &'a [T],
   width: usize,
-  #[allow(dead_code)]
   height: usize,
   cpp: usize,
   tiles: Range<usize>,
@@ -76,7 +75,7 @@ where
       let off_row = (tile_row * self.th) + row;
       let offset = off_row * self.width * self.cpp + (tile_col * self.tw * self.cpp);
 
-      if offset < self.data.len() {
+      if off_row < self.height {
         if tile_col < self.tcols - 1 || !self.needs_padding() {
           let sub = &self.data[offset..offset + self.tw * self.cpp];
           buf.extend_from_slice(sub);
-- 
2.43.0


From 15a728fa9ff301ee24a6be446c65d52abe19775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:43 +0000
Subject: [PATCH 10/33] fix: refuse buffers that are not a whole number of
 tiles wide and high

---
 rawler/src/tiles.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/tiles.rs b/rawler/src/tiles.rs
index 88aa7df..052c3ab 100644
--- a/rawler/src/tiles.rs
+++ b/rawler/src/tiles.rs
@@ -140,7 +140,8 @@ where
     assert!(width > 0, "Width and height must be greater than zero");
     assert!(tile_width * tile_height > 0, "Tile width and height must be greater than zero");
     assert!(cpp > 0, "cpp must be greater than zero");
-    if !self.len().is_multiple_of(tile_width * cpp * tile_height) {
+    // The image must be a whole number of tiles wide and high.
+    if !width.is_multiple_of(tile_width) || !self.len().is_multiple_of(width * cpp * tile_height) {
       return Err(ErrorNotTileable);
     }
     Ok(IntoTilesIter {
-- 
2.43.0


From b2755aa2d610ccfbed257a0a0c5a6022cf3a307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:36 +0000
Subject: [PATCH 11/33] fix: undo the active area shift of the CFA pattern when
 reading a DNG

The pattern stored in a DNG starts at the active area. Shifting it by the
same amount again only undoes that for 2x2 patterns; for X-Trans (6x6) the
colours came out wrong unless the offset is a multiple of 3.
---
 rawler/src/cfa.rs          | 6 ++++++
 rawler/src/decoders/dng.rs | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rawler/src/cfa.rs b/rawler/src/cfa.rs
index 1629410..74e397f 100644
--- a/rawler/src/cfa.rs
+++ b/rawler/src/cfa.rs
@@ -263,6 +263,12 @@ impl CFA {
     }
   }
 
+  /// Undo [`CFA::shift`]: get the pattern of the full image from the pattern
+  /// of a crop whose top left pixel is at the given position.
+  pub fn shift_back(&self, x: usize, y: usize) -> CFA {
+    self.shift((self.width - x % self.width) % self.width, (self.height - y % self.height) % self.height)
+  }
+
   /// Test if this is actually a valid CFA pattern
   ///
   /// # Example
diff --git a/rawler/src/decoders/dng.rs b/rawler/src/decoders/dng.rs
index 0003314..c6f3267 100644
--- a/rawler/src/decoders/dng.rs
+++ b/rawler/src/decoders/dng.rs
@@ -355,7 +355,7 @@ impl<'a> DngDecoder<'a> {
     if let Some(active_area) = self.get_active_area_borders(raw) {
       let top = active_area[0];
       let left = active_area[1];
-      Ok(cfa.shift(left % cfa.width, top % cfa.height))
+      Ok(cfa.shift_back(left, top))
     } else {
       Ok(cfa)
     }
-- 
2.43.0


From ff52bc4f2e86d12fe61ed236e9343c4ad0bf9905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:36 +0000
Subject: [PATCH 12/33] verif: guarded constructor for arbitrary CFA patterns

---
 rawler/src/cfa.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rawler/src/cfa.rs b/rawler/src/cfa.rs
index 74e397f..478e42e 100644
--- a/rawler/src/cfa.rs
+++ b/rawler/src/cfa.rs
@@ -285,6 +285,24 @@ impl CFA {
   }
 }
 
+#[cfg(dnglab_verif)]
+impl CFA {
+  /// Any pattern of the given size, for the verification harnesses.
+  pub fn verif_from_parts(name: String, width: usize, height: usize, color: impl Fn(usize, usize) -> u8) -> CFA {
+    let mut pattern = [[0; 48]; 48];
+    let mut i = 0;
+    while i < 48 {
+      let mut k = 0;
+      while k < 48 {
+        pattern[i][k] = color(i, k);
+        k += 1;
+      }
+      i += 1;
+    }
+    CFA { name, width, height, pattern }
+  }
+}
+
 impl fmt::Display for CFA {
   /// Convert the CFA back into a pattern string
   ///
-- 
2.43.0


From 68e061bfe8aecaaa8421b5a977ec5ec50de331f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:47 +0000
Subject: [PATCH 13/33] verif: guarded access to the lossless JPEG coder's
 parts

---
 rawler/src/decompressors/ljpeg/huffman.rs | 20 ++++++++
 rawler/src/decompressors/ljpeg/mod.rs     | 26 ++++++++++
 rawler/src/ljpeg92.rs                     | 60 +++++++++++++++++++++++
 3 files changed, 106 insertions(+)

diff --git a/rawler/src/decompressors/ljpeg/huffman.rs b/rawler/src/decompressors/ljpeg/huffman.rs
index 17b35fc..eeb4232 100644
--- a/rawler/src/decompressors/ljpeg/huffman.rs
+++ b/rawler/src/decompressors/ljpeg/huffman.rs
@@ -242,3 +242,23 @@ impl fmt::Debug for HuffTable {
     }
   }
 }
+
+/// Access to private items for the verification harnesses, see `crate::verif_hooks`.
+#[cfg(dnglab_verif)]
+#[allow(missing_docs)]
+impl HuffTable {
+  /// A table whose decode cache holds `entry` for the peeked bits `code` and nothing else.
+  pub fn verif_set_cache(&mut self, code: usize, entry: Option<(u8, i16)>) {
+    self.decodecache[code] = entry;
+  }
+  pub fn verif_cached(&self, code: usize) -> Option<(u8, i16)> {
+    self.decodecache[code]
+  }
+  /// What the slow path makes of `code`, and how many of the 13 bits it left.
+  pub fn verif_mock_decode(&self, code: u32) -> (u8, i32, i32) {
+    let mut pump = MockPump::empty();
+    pump.set(code, DECODE_CACHE_BITS);
+    let (bits, decode) = self.huff_decode_slow(&mut pump);
+    (bits, decode, pump.validbits())
+  }
+}
diff --git a/rawler/src/decompressors/ljpeg/mod.rs b/rawler/src/decompressors/ljpeg/mod.rs
index c1b9178..2588d2b 100644
--- a/rawler/src/decompressors/ljpeg/mod.rs
+++ b/rawler/src/decompressors/ljpeg/mod.rs
@@ -405,3 +405,29 @@ impl<'a> LjpegDecompressor<'a> {
     self.sof.components.len()
   }
 }
+
+/// Access to private items for the verification harnesses, see `crate::verif_hooks`.
+#[cfg(dnglab_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+  use super::*;
+
+  /// Decoder for an entropy coded segment whose headers have been read.
+  pub fn decoder(buffer: &[u8], width: usize, height: usize, cps: usize, precision: usize, predictor: usize, dhts: Vec<HuffTable>) -> LjpegDecompressor<'_> {
+    let mut components = Vec::with_capacity(4);
+    for i in 0..cps {
+      components.push(JpegComponentInfo { id: i, index: i, dc_tbl_num: i.min(dhts.len() - 1), super_h: 1, super_v: 1 });
+    }
+    LjpegDecompressor { buffer, sof: SOFInfo { width, height, cps, precision, components, csfix: false }, predictor, point_transform: 0, dhts }
+  }
+  /// Frame and scan parameters: width, height, components, precision, predictor, point transform.
+  pub fn frame(d: &LjpegDecompressor<'_>) -> (usize, usize, usize, usize, usize, usize) {
+    (d.sof.width, d.sof.height, d.sof.cps, d.sof.precision, d.predictor, d.point_transform)
+  }
+  pub fn table<'a>(d: &'a LjpegDecompressor<'_>, comp: usize) -> &'a HuffTable {
+    &d.dhts[d.sof.components[comp].dc_tbl_num]
+  }
+  pub fn body<'a>(d: &LjpegDecompressor<'a>) -> &'a [u8] {
+    d.buffer
+  }
+}
diff --git a/rawler/src/ljpeg92.rs b/rawler/src/ljpeg92.rs
index f052d92..9f88c90 100644
--- a/rawler/src/ljpeg92.rs
+++ b/rawler/src/ljpeg92.rs
@@ -1484,3 +1484,63 @@ mod tests {
     Ok(())
   }
 }
+
+/// Access to private items for the verification harnesses, see `crate::verif_hooks`.
+#[cfg(dnglab_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+  use super::*;
+
+  pub fn ssss(diff: i16) -> u16 {
+    lookup_ssss(diff)
+  }
+  pub fn diff<const NCOMP: usize, const PX: u8>(prev: &[u16], curr: &[u16], diffs: &mut [i16], linesize: usize, pt: u8, bitdepth: u8) {
+    ljpeg92_diff::<NCOMP, PX>(prev, curr, diffs, linesize, pt, bitdepth)
+  }
+  pub fn table(histogram: [usize; 17]) -> [BitArray16; 17] {
+    HuffTableBuilder::new(histogram).build()
+  }
+  /// Code sizes of the 17 classes and the reserved code point (Figure K.1).
+  pub fn codesizes(histogram: [usize; 17]) -> [usize; 18] {
+    let mut b = HuffTableBuilder::new(histogram);
+    b.gen_codesizes();
+    b.codesize
+  }
+  /// Code table for given code sizes (everything after Figure K.1).
+  pub fn table_from_sizes(codesize: [usize; 18]) -> [BitArray16; 17] {
+    let mut b = HuffTableBuilder::new([0; 17]);
+    b.codesize = codesize;
+    b.count_bits();
+    b.sort_input();
+    let lastk = b.gen_size_table();
+    b.gen_code_table();
+    b.order_codes(lastk);
+    let mut table = [BitArray16::default(); 17];
+    for ssss in 0..=16 {
+      if let Some(code) = b.huffsym[ssss] {
+        table[ssss] = BitArray16::from_lsb(b.huffcode[code].bits as usize, b.huffcode[code].enc);
+      }
+    }
+    table
+  }
+  /// Differences and histograms of an image.
+  pub fn scan(mut c: LjpegCompressor<'_>) -> Result<(Vec<i16>, Vec<[usize; 17]>)> {
+    c.scan_frequency()?;
+    Ok((c.cache, c.comp_state.into_iter().map(|s| s.histogram).collect()))
+  }
+  pub fn header(mut c: LjpegCompressor<'_>, tables: &[[BitArray16; 17]], out: &mut dyn Write) -> Result<()> {
+    c.comp_state.iter_mut().zip(tables).for_each(|(s, t)| s.hufftable = *t);
+    c.write_header(out)
+  }
+  pub fn body(mut c: LjpegCompressor<'_>, tables: &[[BitArray16; 17]], diffs: Vec<i16>, out: &mut dyn Write) -> Result<()> {
+    c.comp_state.iter_mut().zip(tables).for_each(|(s, t)| s.hufftable = *t);
+    c.cache = diffs;
+    c.write_body(out)
+  }
+  pub fn bitstream<'a>(inner: &'a mut dyn Write, next: u8, used: usize) -> BitstreamJPEG<'a> {
+    BitstreamJPEG { inner, next, used }
+  }
+  pub fn pending(b: &BitstreamJPEG<'_>) -> (u8, usize) {
+    (b.next, b.used)
+  }
+}
-- 
2.43.0


From 846ea2fe5c774d20f28f0f1a1b206d11bc4b18a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:46 +0000
Subject: [PATCH 14/33] verif: small decode cache under the verifier, fewer
 hooks

---
 rawler/src/decompressors/ljpeg/huffman.rs | 24 ++++----------------
 rawler/src/decompressors/ljpeg/mod.rs     | 10 ---------
 rawler/src/ljpeg92.rs                     | 27 -----------------------
 3 files changed, 4 insertions(+), 57 deletions(-)

diff --git a/rawler/src/decompressors/ljpeg/huffman.rs b/rawler/src/decompressors/ljpeg/huffman.rs
index eeb4232..90fe3d6 100644
--- a/rawler/src/decompressors/ljpeg/huffman.rs
+++ b/rawler/src/decompressors/ljpeg/huffman.rs
@@ -1,7 +1,11 @@
 use crate::pumps::BitPump;
 use std::fmt;
 
+#[cfg(not(all(kani, dnglab_verif)))]
 const DECODE_CACHE_BITS: u32 = 13;
+/// The verifier works with a small decode cache: the code is uniform in its size.
+#[cfg(all(kani, dnglab_verif))]
+const DECODE_CACHE_BITS: u32 = 4;
 
 pub struct HuffTable {
   // These two fields directly represent the contents of a JPEG DHT marker
@@ -242,23 +246,3 @@ impl fmt::Debug for HuffTable {
     }
   }
 }
-
-/// Access to private items for the verification harnesses, see `crate::verif_hooks`.
-#[cfg(dnglab_verif)]
-#[allow(missing_docs)]
-impl HuffTable {
-  /// A table whose decode cache holds `entry` for the peeked bits `code` and nothing else.
-  pub fn verif_set_cache(&mut self, code: usize, entry: Option<(u8, i16)>) {
-    self.decodecache[code] = entry;
-  }
-  pub fn verif_cached(&self, code: usize) -> Option<(u8, i16)> {
-    self.decodecache[code]
-  }
-  /// What the slow path makes of `code`, and how many of the 13 bits it left.
-  pub fn verif_mock_decode(&self, code: u32) -> (u8, i32, i32) {
-    let mut pump = MockPump::empty();
-    pump.set(code, DECODE_CACHE_BITS);
-    let (bits, decode) = self.huff_decode_slow(&mut pump);
-    (bits, decode, pump.validbits())
-  }
-}
diff --git a/rawler/src/decompressors/ljpeg/mod.rs b/rawler/src/decompressors/ljpeg/mod.rs
index 2588d2b..28a8324 100644
--- a/rawler/src/decompressors/ljpeg/mod.rs
+++ b/rawler/src/decompressors/ljpeg/mod.rs
@@ -420,14 +420,4 @@ pub mod verif {
     }
     LjpegDecompressor { buffer, sof: SOFInfo { width, height, cps, precision, components, csfix: false }, predictor, point_transform: 0, dhts }
   }
-  /// Frame and scan parameters: width, height, components, precision, predictor, point transform.
-  pub fn frame(d: &LjpegDecompressor<'_>) -> (usize, usize, usize, usize, usize, usize) {
-    (d.sof.width, d.sof.height, d.sof.cps, d.sof.precision, d.predictor, d.point_transform)
-  }
-  pub fn table<'a>(d: &'a LjpegDecompressor<'_>, comp: usize) -> &'a HuffTable {
-    &d.dhts[d.sof.components[comp].dc_tbl_num]
-  }
-  pub fn body<'a>(d: &LjpegDecompressor<'a>) -> &'a [u8] {
-    d.buffer
-  }
 }
diff --git a/rawler/src/ljpeg92.rs b/rawler/src/ljpeg92.rs
index 9f88c90..2a9601f 100644
--- a/rawler/src/ljpeg92.rs
+++ b/rawler/src/ljpeg92.rs
@@ -1500,38 +1500,11 @@ pub mod verif {
   pub fn table(histogram: [usize; 17]) -> [BitArray16; 17] {
     HuffTableBuilder::new(histogram).build()
   }
-  /// Code sizes of the 17 classes and the reserved code point (Figure K.1).
-  pub fn codesizes(histogram: [usize; 17]) -> [usize; 18] {
-    let mut b = HuffTableBuilder::new(histogram);
-    b.gen_codesizes();
-    b.codesize
-  }
-  /// Code table for given code sizes (everything after Figure K.1).
-  pub fn table_from_sizes(codesize: [usize; 18]) -> [BitArray16; 17] {
-    let mut b = HuffTableBuilder::new([0; 17]);
-    b.codesize = codesize;
-    b.count_bits();
-    b.sort_input();
-    let lastk = b.gen_size_table();
-    b.gen_code_table();
-    b.order_codes(lastk);
-    let mut table = [BitArray16::default(); 17];
-    for ssss in 0..=16 {
-      if let Some(code) = b.huffsym[ssss] {
-        table[ssss] = BitArray16::from_lsb(b.huffcode[code].bits as usize, b.huffcode[code].enc);
-      }
-    }
-    table
-  }
   /// Differences and histograms of an image.
   pub fn scan(mut c: LjpegCompressor<'_>) -> Result<(Vec<i16>, Vec<[usize; 17]>)> {
     c.scan_frequency()?;
     Ok((c.cache, c.comp_state.into_iter().map(|s| s.histogram).collect()))
   }
-  pub fn header(mut c: LjpegCompressor<'_>, tables: &[[BitArray16; 17]], out: &mut dyn Write) -> Result<()> {
-    c.comp_state.iter_mut().zip(tables).for_each(|(s, t)| s.hufftable = *t);
-    c.write_header(out)
-  }
   pub fn body(mut c: LjpegCompressor<'_>, tables: &[[BitArray16; 17]], diffs: Vec<i16>, out: &mut dyn Write) -> Result<()> {
     c.comp_state.iter_mut().zip(tables).for_each(|(s, t)| s.hufftable = *t);
     c.cache = diffs;
-- 
2.43.0


From c6370602bbda950eb051b9c10b1ce1de64af3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 15/33] fix: map each colour of a CFA pattern once

---
 rawler/src/cfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/cfa.rs b/rawler/src/cfa.rs
index 478e42e..51d106f 100644
--- a/rawler/src/cfa.rs
+++ b/rawler/src/cfa.rs
@@ -156,7 +156,7 @@ impl CFA {
     let mut copy = self.clone();
     for row in 0..48 {
       for col in 0..48 {
-        copy.pattern[row][col] = op(row % self.height, col % self.width, copy.pattern[row % self.height][col % self.width]);
+        copy.pattern[row][col] = op(row % self.height, col % self.width, self.pattern[row % self.height][col % self.width]);
       }
     }
     copy
-- 
2.43.0


From ef6213ec5d0403c3b9cae7088e8eb3b303ead0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:01 +0000
Subject: [PATCH 16/33] fix: refuse subviews whose end overflows

---
 rawler/src/rawsource.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rawler/src/rawsource.rs b/rawler/src/rawsource.rs
index 06bd3c7..2f04384 100644
--- a/rawler/src/rawsource.rs
+++ b/rawler/src/rawsource.rs
@@ -72,14 +72,17 @@ impl RawSource {
   }
 
   pub fn subview(&self, offset: u64, size: u64) -> std::io::Result<&[u8]> {
-    self.buf().get(offset as usize..(offset + size) as usize).ok_or(std::io::Error::new(
-      std::io::ErrorKind::UnexpectedEof,
-      format!("subview(): Offset {}+{} is behind EOF", offset, size),
-    ))
+    offset
+      .checked_add(size)
+      .and_then(|end| self.buf().get(offset as usize..end as usize))
+      .ok_or(std::io::Error::new(
+        std::io::ErrorKind::UnexpectedEof,
+        format!("subview(): Offset {}+{} is behind EOF", offset, size),
+      ))
   }
 
   pub fn subview_padded(&self, offset: u64, size: u64) -> std::io::Result<PaddedBuf<'_>> {
-    if offset + size <= self.len() as u64 {
+    if offset.checked_add(size).is_some_and(|end| end <= self.len() as u64) {
       if offset + size + 16 <= self.len() as u64 {
         self.subview(offset, size + 16).map(|buf| PaddedBuf::new_ref(buf, size as usize))
       } else {
-- 
2.43.0


From a42b6ad382b95ce7e6125de394746875dc12716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:01 +0000
Subject: [PATCH 17/33] fix: strips of an empty directory or with wrapping
 offsets are errors

---
 rawler/src/formats/tiff/ifd.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 5b5239a..66f0ed5 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -498,7 +498,7 @@ impl IFD {
       .value
       .force_usize(0);
 
-    Ok(rawsource.subview((self.base + offset) as u64, len as u64)?)
+    Ok(rawsource.subview(self.base as u64 + offset as u64, len as u64)?)
   }
 
   /// Return byte slices to strip data.
@@ -527,22 +527,26 @@ impl IFD {
       )));
     }
 
+    if offsets.is_empty() {
+      return Err(TiffError::General("IFD contains no strip data".into()));
+    }
+
     // Check if all slices are continous
-    let (is_continous, end_off) =
-      offsets.iter().zip(sizes.iter()).fold(
-        (true, offsets[0]),
-        |acc, val| {
-          if acc.0 && acc.1 == *val.0 { (true, acc.1 + *val.1) } else { (false, 0) }
-        },
-      );
+    let (is_continous, end_off) = offsets.iter().zip(sizes.iter()).fold((true, offsets[0] as u64), |acc, val| {
+      if acc.0 && acc.1 == *val.0 as u64 {
+        (true, acc.1 + *val.1 as u64)
+      } else {
+        (false, 0)
+      }
+    });
 
     let mut subviews = Vec::with_capacity(offsets.len());
     for (offset, size) in offsets.iter().zip(sizes.iter()) {
-      subviews.push(rawsource.subview((self.base + *offset) as u64, *size as u64)?);
+      subviews.push(rawsource.subview(self.base as u64 + *offset as u64, *size as u64)?);
     }
 
     let continous = if is_continous {
-      Some(rawsource.subview((self.base + offsets[0]) as u64, (end_off - offsets[0]) as u64)?)
+      Some(rawsource.subview(self.base as u64 + offsets[0] as u64, end_off - offsets[0] as u64)?)
     } else {
       None
     };
-- 
2.43.0


From 1ae5738b7aaee1299fccb369aa9fce007a3fbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:01 +0000
Subject: [PATCH 18/33] fix: tile offsets are relative to the directory's base,
 as strip offsets are

---
 rawler/src/formats/tiff/ifd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 66f0ed5..415f220 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -569,7 +569,7 @@ impl IFD {
 
     let mut tile_slices = Vec::with_capacity(offsets.len());
     offsets.iter().zip(byte_counts.iter()).for_each(|(offset, size)| {
-      tile_slices.push(rawsource.subview(*offset as u64, *size as u64).map_err(TiffError::Io));
+      tile_slices.push(rawsource.subview(self.base as u64 + *offset as u64, *size as u64).map_err(TiffError::Io));
     });
     Ok(tile_slices.into_iter().collect::<Result<Vec<_>>>()?)
   }
-- 
2.43.0


From 787a7cf81fa9b2486d9f68b84c4564a487f020ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 19/33] verif: small ordered map for directories under the
 verifier

---
 rawler/src/decoders/raf.rs        |  3 +
 rawler/src/formats/tiff/ifd.rs    |  9 +--
 rawler/src/formats/tiff/writer.rs |  9 +--
 rawler/src/verif_hooks.rs         | 93 +++++++++++++++++++++++++++++++
 4 files changed, 106 insertions(+), 8 deletions(-)

diff --git a/rawler/src/decoders/raf.rs b/rawler/src/decoders/raf.rs
index a51b467..429d6d0 100644
--- a/rawler/src/decoders/raf.rs
+++ b/rawler/src/decoders/raf.rs
@@ -2,6 +2,9 @@ use byteorder::BigEndian;
 use byteorder::LittleEndian;
 use byteorder::ReadBytesExt;
 use image::DynamicImage;
+#[cfg(all(kani, dnglab_verif))]
+use crate::verif_hooks::small_map::BTreeMap;
+#[cfg(not(all(kani, dnglab_verif)))]
 use std::collections::BTreeMap;
 use std::io::Cursor;
 use std::io::Seek;
diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 415f220..85601a2 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -15,10 +15,11 @@ use crate::{
 use byteorder::{LittleEndian, ReadBytesExt};
 use log::debug;
 use serde::{Deserialize, Serialize};
-use std::{
-  collections::{BTreeMap, HashMap},
-  io::{Read, Seek, SeekFrom},
-};
+#[cfg(all(kani, dnglab_verif))]
+use crate::verif_hooks::small_map::{BTreeMap, HashMap};
+#[cfg(not(all(kani, dnglab_verif)))]
+use std::collections::{BTreeMap, HashMap};
+use std::io::{Read, Seek, SeekFrom};
 
 const MAX_IFD_ENTRIES: usize = 4096;
 
diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index 2d738a7..c55e565 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -1,10 +1,11 @@
 // SPDX-License-Identifier: MIT
 // Copyright 2021 Daniel Vogelbacher <daniel@chaospixel.com>
 
-use std::{
-  collections::BTreeMap,
-  io::{Seek, SeekFrom, Write},
-};
+#[cfg(all(kani, dnglab_verif))]
+use crate::verif_hooks::small_map::BTreeMap;
+#[cfg(not(all(kani, dnglab_verif)))]
+use std::collections::BTreeMap;
+use std::io::{Seek, SeekFrom, Write};
 
 use byteorder::{LittleEndian, NativeEndian, WriteBytesExt};
 use image::EncodableLayout;
diff --git a/rawler/src/verif_hooks.rs b/rawler/src/verif_hooks.rs
index 43875ff..bd0200a 100644
--- a/rawler/src/verif_hooks.rs
+++ b/rawler/src/verif_hooks.rs
@@ -58,3 +58,96 @@ pub mod pix {
     crate::pixarray::deinterleave2x2(pix)
   }
 }
+
+/// Ordered map with the operations of `BTreeMap` and `HashMap` this crate uses, as a sorted
+/// array of at most six items: stands in for both under the verifier, which cannot follow
+/// std's tree and hash table internals.
+#[cfg(kani)]
+pub mod small_map {
+  use serde::{Deserialize, Serialize};
+  pub type BTreeMap<K, V> = SmallMap<K, V>;
+  pub type HashMap<K, V> = SmallMap<K, V>;
+  const SLOTS: usize = 6;
+
+  #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
+  pub struct SmallMap<K, V> {
+    items: [Option<(K, V)>; SLOTS],
+  }
+  impl<K, V> Default for SmallMap<K, V> {
+    fn default() -> Self {
+      Self { items: [const { None }; SLOTS] }
+    }
+  }
+  impl<K: Ord + Copy, V> SmallMap<K, V> {
+    pub fn new() -> Self {
+      Self::default()
+    }
+    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
+      let mut carry = (k, v);
+      for slot in self.items.iter_mut() {
+        match slot {
+          None => {
+            *slot = Some(carry);
+            return None;
+          }
+          Some(x) if x.0 == carry.0 => return Some(std::mem::replace(x, carry).1),
+          Some(x) if x.0 > carry.0 => std::mem::swap(x, &mut carry),
+          _ => {}
+        }
+      }
+      panic!("SmallMap is full");
+    }
+    pub fn remove(&mut self, k: &K) -> Option<V> {
+      let mut found = None;
+      for i in 0..SLOTS {
+        if found.is_none() && self.items[i].as_ref().is_some_and(|x| x.0 == *k) {
+          found = self.items[i].take();
+        } else if found.is_some() {
+          self.items.swap(i - 1, i);
+        }
+      }
+      found.map(|x| x.1)
+    }
+    pub fn get(&self, k: &K) -> Option<&V> {
+      for x in self.items.iter().flatten() {
+        if x.0 == *k {
+          return Some(&x.1);
+        }
+      }
+      None
+    }
+    pub fn contains_key(&self, k: &K) -> bool {
+      self.get(k).is_some()
+    }
+    pub fn len(&self) -> usize {
+      let mut n = 0;
+      for x in self.items.iter() {
+        n += x.is_some() as usize;
+      }
+      n
+    }
+    pub fn is_empty(&self) -> bool {
+      self.items[0].is_none()
+    }
+    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
+      self.items.iter().flatten().map(|x| (&x.0, &x.1))
+    }
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
+      self.items.iter_mut().flatten().map(|x| &mut x.1)
+    }
+  }
+  impl<K, V> IntoIterator for SmallMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, SLOTS>>;
+    fn into_iter(self) -> Self::IntoIter {
+      self.items.into_iter().flatten()
+    }
+  }
+  impl<'a, K, V> IntoIterator for &'a SmallMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = std::iter::Map<std::iter::Flatten<std::slice::Iter<'a, Option<(K, V)>>>, fn(&'a (K, V)) -> (&'a K, &'a V)>;
+    fn into_iter(self) -> Self::IntoIter {
+      self.items.iter().flatten().map(|x| (&x.0, &x.1))
+    }
+  }
+}
-- 
2.43.0


From 73f7c9ad6d2e38c383b7ec5763c0438ee9741054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 20/33] fix: whole numbers from rational tags are not rounded
 to 24 bits

---
 rawler/src/formats/tiff/value.rs | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index e39a15c..447a623 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -57,7 +57,7 @@ impl TryFrom<Rational> for usize {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as usize) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as usize) // TODO
   }
 }
 
@@ -65,7 +65,7 @@ impl TryFrom<Rational> for u8 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u8) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u8) // TODO
   }
 }
 
@@ -73,7 +73,7 @@ impl TryFrom<Rational> for u16 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u16) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u16) // TODO
   }
 }
 
@@ -81,7 +81,7 @@ impl TryFrom<Rational> for u32 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u32) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u32) // TODO
   }
 }
 
@@ -89,7 +89,7 @@ impl TryFrom<Rational> for u64 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u64) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u64) // TODO
   }
 }
 
@@ -97,7 +97,7 @@ impl TryFrom<Rational> for i8 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i8) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i8) // TODO
   }
 }
 
@@ -105,7 +105,7 @@ impl TryFrom<Rational> for i16 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i16) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i16) // TODO
   }
 }
 
@@ -113,7 +113,7 @@ impl TryFrom<Rational> for i32 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i32) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i32) // TODO
   }
 }
 
@@ -121,7 +121,7 @@ impl TryFrom<Rational> for i64 {
   type Error = TryFromIntError;
 
   fn try_from(value: Rational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i64) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i64) // TODO
   }
 }
 
@@ -137,7 +137,7 @@ impl TryFrom<SRational> for usize {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as usize) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as usize) // TODO
   }
 }
 
@@ -145,7 +145,7 @@ impl TryFrom<SRational> for u8 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u8) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u8) // TODO
   }
 }
 
@@ -153,7 +153,7 @@ impl TryFrom<SRational> for u16 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u16) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u16) // TODO
   }
 }
 
@@ -161,7 +161,7 @@ impl TryFrom<SRational> for u32 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u32) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u32) // TODO
   }
 }
 
@@ -169,7 +169,7 @@ impl TryFrom<SRational> for u64 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as u64) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as u64) // TODO
   }
 }
 
@@ -177,7 +177,7 @@ impl TryFrom<SRational> for i8 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i8) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i8) // TODO
   }
 }
 
@@ -185,7 +185,7 @@ impl TryFrom<SRational> for i16 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i16) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i16) // TODO
   }
 }
 
@@ -193,7 +193,7 @@ impl TryFrom<SRational> for i32 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i32) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i32) // TODO
   }
 }
 
@@ -201,7 +201,7 @@ impl TryFrom<SRational> for i64 {
   type Error = TryFromIntError;
 
   fn try_from(value: SRational) -> std::result::Result<Self, Self::Error> {
-    Ok(((value.n as f32) / (value.d as f32)) as i64) // TODO
+    Ok(((value.n as f64) / (value.d as f64)) as i64) // TODO
   }
 }
 
-- 
2.43.0


From be2334a859f7a0e421a1c33144315a4d04d08511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 21/33] fix: order of signed rationals with negative
 denominators

---
 rawler/src/formats/tiff/value.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rawler/src/formats/tiff/value.rs b/rawler/src/formats/tiff/value.rs
index 447a623..6c2e650 100644
--- a/rawler/src/formats/tiff/value.rs
+++ b/rawler/src/formats/tiff/value.rs
@@ -318,9 +318,7 @@ impl Eq for SRational {}
 #[allow(clippy::non_canonical_partial_ord_impl)]
 impl PartialOrd for SRational {
   fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-    let n1: i64 = self.n as i64 * other.d as i64;
-    let n2: i64 = self.d as i64 * other.n as i64;
-    n1.partial_cmp(&n2)
+    Some(self.cmp(other))
   }
 }
 
@@ -328,7 +326,8 @@ impl Ord for SRational {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
     let n1: i64 = self.n as i64 * other.d as i64;
     let n2: i64 = self.d as i64 * other.n as i64;
-    n1.cmp(&n2)
+    // A negative denominator turns the comparison around
+    if (self.d < 0) != (other.d < 0) { n2.cmp(&n1) } else { n1.cmp(&n2) }
   }
 }
 
-- 
2.43.0


From 12649709b6008f40e080b1503dae50221d6b9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 22/33] fix: report the whole size of a decompressed original

---
 rawler/src/dng/original.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 4e40ee5..c2ecd97 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -68,7 +68,7 @@ impl OriginalCompressed {
     for chunk in self.chunks.iter().map(ForkBlock::decompress) {
       let buf = chunk?;
       stream.write_all(&buf)?;
-      total = buf.len();
+      total += buf.len();
       ctx.consume(&buf);
     }
 
-- 
2.43.0


From 920ed0a10e39afa534137c5d1998612385d1bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 23/33] fix: an original's chunk that fails to compress is an
 error, not left out

---
 rawler/src/dng/original.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index c2ecd97..58e132c 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -117,7 +117,7 @@ impl OriginalCompressed {
       forks.push(buf);
       //chunks.push(ForkBlock::compress(&buf)?);
     }
-    let chunks = forks.par_iter().flat_map(ForkBlock::compress).collect();
+    let chunks = forks.par_iter().map(ForkBlock::compress).collect::<io::Result<Vec<_>>>()?;
     let digest = Some(ctx.finalize().into());
 
     Ok(Self { raw_fork_size, chunks, digest })
-- 
2.43.0


From 702cfdbc9d348bdce19f38bb794bffd90a6653ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 24/33] verif: small blocks for embedded originals under the
 verifier

---
 rawler/src/dng/original.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rawler/src/dng/original.rs b/rawler/src/dng/original.rs
index 58e132c..86216b8 100644
--- a/rawler/src/dng/original.rs
+++ b/rawler/src/dng/original.rs
@@ -12,7 +12,11 @@ use std::{
 };
 
 // DNG requires this block size
+#[cfg(not(all(kani, dnglab_verif)))]
 const COMPRESS_BLOCK_SIZE: u32 = 65536;
+// Small blocks under the verifier
+#[cfg(all(kani, dnglab_verif))]
+const COMPRESS_BLOCK_SIZE: u32 = 4;
 
 pub type OriginalDigest = [u8; 16];
 
-- 
2.43.0


From 764e4064e2902ec1d8c43093c43474f1d83c4cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 25/33] fix: subnormal 32 bit floats of deflated images keep
 their value

---
 rawler/src/bits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/bits.rs b/rawler/src/bits.rs
index f14c1c5..467a259 100644
--- a/rawler/src/bits.rs
+++ b/rawler/src/bits.rs
@@ -340,6 +340,9 @@ pub(crate) fn extend_binary_floating_point<NARROW: FloatingPointParameters, WIDE
       // +-Zero
       wide_exponent = 0;
       wide_fraction = 0;
+    } else if NARROW::EXPONENT_WIDTH == WIDE::EXPONENT_WIDTH {
+      // Subnormal numbers remain subnormal in a type with the same exponent range.
+      wide_exponent = 0;
     } else {
       // Subnormal numbers
       // We can represent it as a normalized value in wider type,
-- 
2.43.0


From 9283b0cb592b8c5d5d99cf766246363f84b196e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 26/33] fix: the next directory is found after a field that
 cannot be parsed

---
 rawler/src/formats/tiff/ifd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 85601a2..6dbe466 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -118,6 +118,7 @@ impl IFD {
     let mut entries = BTreeMap::new();
     let mut sub = HashMap::new();
     let mut next_pos = reader.position()?;
+    let next_ifd_pos = next_pos.saturating_add(entry_count as u32 * 12);
     debug!("Parse entries");
     let mut consecutive_errors = 0;
 
@@ -190,6 +191,8 @@ impl IFD {
 
     // Some TIFF writers skip the next ifd pointer
     // If we get an I/O error, we fallback to 0, signaling the end of IFD chains.
+    // The pointer follows the last entry, wherever parsing of the entries has left the reader.
+    reader.goto(next_ifd_pos)?;
     let next_ifd = match reader.read_u32() {
       Ok(ptr) => ptr,
       Err(e) => {
-- 
2.43.0


From c8c50604befb2c1f6ad2bd08127c5773887583f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 27/33] fix: directory offsets that overflow with the base are
 errors

---
 rawler/src/formats/tiff/ifd.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 6dbe466..24e1a61 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -55,7 +55,10 @@ impl IFD {
   }
 
   pub fn new_root_with_correction<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, max_chain: usize, sub_tags: &[u16]) -> Result<IFD> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    let start = base
+      .checked_add(offset)
+      .ok_or_else(|| TiffError::Overflow(format!("IFD offset {} is invalid for base {}", offset, base)))?;
+    reader.seek(SeekFrom::Start(start as u64))?;
     let endian = match reader.read_u16::<LittleEndian>()? {
       0x4949 => Endian::Little,
       0x4d4d => Endian::Big,
@@ -102,7 +105,10 @@ impl IFD {
   }
 
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<IFD> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    let start = base
+      .checked_add(offset)
+      .ok_or_else(|| TiffError::Overflow(format!("IFD offset {} is invalid for base {}", offset, base)))?;
+    reader.seek(SeekFrom::Start(start as u64))?;
     let mut sub_ifd_offsets = HashMap::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
@@ -244,7 +250,10 @@ impl IFD {
 
   /*
   pub fn new<R: Read + Seek>(reader: &mut R, offset: u32, base: u32, corr: i32, endian: Endian, sub_tags: &[u16]) -> Result<Self> {
-    reader.seek(SeekFrom::Start((base + offset) as u64))?;
+    let start = base
+      .checked_add(offset)
+      .ok_or_else(|| TiffError::Overflow(format!("IFD offset {} is invalid for base {}", offset, base)))?;
+    reader.seek(SeekFrom::Start(start as u64))?;
     let mut sub_ifd_offsets = Vec::new();
     let mut reader = EndianReader::new(reader, endian);
     let entry_count = reader.read_u16()?;
-- 
2.43.0


From a501992ece5c1c8241771bef43eed3b22c4211be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 28/33] fix: an empty sub-directory field of unknown type must
 not panic

---
 rawler/src/formats/tiff/ifd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 24e1a61..2608f35 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -161,7 +161,7 @@ impl IFD {
               Value::Long(offsets) => {
                 sub_ifd_offsets.insert(tag, offsets.clone());
               }
-              Value::Unknown(tag, offsets) => {
+              Value::Unknown(tag, offsets) if !offsets.is_empty() => {
                 sub_ifd_offsets.insert(*tag, vec![offsets[0] as u32]);
               }
               Value::Undefined(_) => {
-- 
2.43.0


From 0aa8939faeb06ee54fd272f42a92b6c3290d02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 29/33] fix: a chain of directories that points back to itself
 ends

---
 rawler/src/formats/tiff/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index dc6910c..75ddb61 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -166,8 +166,12 @@ pub trait TiffReader {
     let reader = reader.into_inner();
 
     next_ifd = apply_corr(next_ifd, self.file().corr);
-    let mut chain = Vec::new();
+    let mut chain: Vec<IFD> = Vec::new();
     while next_ifd != 0 {
+      if chain.iter().any(|ifd| ifd.offset == next_ifd) {
+        log::warn!("TIFF: IFD chain points back to offset {}, ignoring it", next_ifd);
+        break;
+      }
       // TODO: check if offset is in range
       let mut multi_sub_tags = self.wellknown_sub_ifd_tags();
       multi_sub_tags.extend_from_slice(sub_tags);
-- 
2.43.0


From 66eec51d20e658392f2186a0bd823199e81f726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 30/33] fix: refuse to write TIFF data beyond the addressable 4
 GiB

---
 rawler/src/formats/tiff/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rawler/src/formats/tiff/writer.rs b/rawler/src/formats/tiff/writer.rs
index c55e565..cfb2ac2 100644
--- a/rawler/src/formats/tiff/writer.rs
+++ b/rawler/src/formats/tiff/writer.rs
@@ -135,7 +135,8 @@ where
   W: Seek,
 {
   pub fn position(&mut self) -> Result<u32> {
-    Ok(self.writer.stream_position().map(|v| v as u32)?) // TODO: try_from?
+    let pos = self.writer.stream_position()?;
+    u32::try_from(pos).map_err(|_| TiffError::Overflow(format!("Position {} is beyond the 4 GiB a TIFF file can address", pos)))
   }
 }
 
-- 
2.43.0


From 29028bf734f918b45cd0cfd24cc4d76e53974620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 31/33] fix: a damaged count must not make the reader reserve
 gigabytes

---
 rawler/src/formats/tiff/entry.rs  | 4 ++++
 rawler/src/formats/tiff/reader.rs | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/rawler/src/formats/tiff/entry.rs b/rawler/src/formats/tiff/entry.rs
index 6d32e95..607afba 100644
--- a/rawler/src/formats/tiff/entry.rs
+++ b/rawler/src/formats/tiff/entry.rs
@@ -106,6 +106,10 @@ impl Entry {
     }
 
     reader.goto(base + offset)?;
+    // Large values must be present before memory is reserved for them.
+    if bytesize > 0xFFFF && reader.remaining()? < bytesize as u64 {
+      return Err(TiffError::Overflow(format!("Value of tag 0x{:X} is larger than the file", tag)));
+    }
     let entry = match typ {
       TYPE_BYTE => {
         let mut v = vec![0; count as usize];
diff --git a/rawler/src/formats/tiff/reader.rs b/rawler/src/formats/tiff/reader.rs
index 75ddb61..1d4afc3 100644
--- a/rawler/src/formats/tiff/reader.rs
+++ b/rawler/src/formats/tiff/reader.rs
@@ -303,6 +303,14 @@ impl<'a, R: Read + Seek + 'a> EndianReader<'a, R> {
 
     // TODO: try_from?
   }
+
+  /// Number of bytes between the current position and the end of the file.
+  pub fn remaining(&mut self) -> Result<u64> {
+    let pos = self.inner.stream_position()?;
+    let end = self.inner.seek(SeekFrom::End(0))?;
+    self.inner.seek(SeekFrom::Start(pos))?;
+    Ok(end.saturating_sub(pos))
+  }
 }
 
 impl<'a, R: Read + Seek + 'a> ReadByteOrder for EndianReader<'a, R> {
-- 
2.43.0


From 9b1cb1ba5fc440cf95b52664a25c64d796d79e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 32/33] fix: corrected offsets of chained directories are
 corrected once

---
 rawler/src/formats/tiff/ifd.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rawler/src/formats/tiff/ifd.rs b/rawler/src/formats/tiff/ifd.rs
index 2608f35..a5af823 100644
--- a/rawler/src/formats/tiff/ifd.rs
+++ b/rawler/src/formats/tiff/ifd.rs
@@ -88,7 +88,6 @@ impl IFD {
     next_ifd = root.next_ifd;
 
     while next_ifd != 0 {
-      next_ifd = apply_corr(next_ifd, corr);
       let ifd = IFD::new(reader, next_ifd, base, corr, endian, &multi_sub_tags)?;
       if ifd.entries.is_empty() {
         return Err(TiffError::General("TIFF is invalid, IFD must contain at least one entry".to_string()));
-- 
2.43.0


From 3eb0c80938260e5b35785c5f9d377d9b947a39bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:10 +0000
Subject: [PATCH 33/33] verif: leaner ordered map under the verifier

---
 rawler/src/verif_hooks.rs | 119 ++++++++++++++++++++++++++++----------
 1 file changed, 87 insertions(+), 32 deletions(-)

diff --git a/rawler/src/verif_hooks.rs b/rawler/src/verif_hooks.rs
index bd0200a..abbc978 100644
--- a/rawler/src/verif_hooks.rs
+++ b/rawler/src/verif_hooks.rs
@@ -70,12 +70,17 @@ pub mod small_map {
   const SLOTS: usize = 6;
 
   #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
+  #[serde(bound = "")]
   pub struct SmallMap<K, V> {
-    items: [Option<(K, V)>; SLOTS],
+    // items are leaked: dropping them is nothing the contracts are about
+    #[serde(skip)]
+    items: std::mem::ManuallyDrop<[Option<(K, V)>; SLOTS]>,
   }
   impl<K, V> Default for SmallMap<K, V> {
     fn default() -> Self {
-      Self { items: [const { None }; SLOTS] }
+      Self {
+        items: std::mem::ManuallyDrop::new([const { None }; SLOTS]),
+      }
     }
   }
   impl<K: Ord + Copy, V> SmallMap<K, V> {
@@ -83,19 +88,22 @@ pub mod small_map {
       Self::default()
     }
     pub fn insert(&mut self, k: K, v: V) -> Option<V> {
-      let mut carry = (k, v);
-      for slot in self.items.iter_mut() {
-        match slot {
-          None => {
-            *slot = Some(carry);
-            return None;
-          }
-          Some(x) if x.0 == carry.0 => return Some(std::mem::replace(x, carry).1),
-          Some(x) if x.0 > carry.0 => std::mem::swap(x, &mut carry),
-          _ => {}
-        }
+      let mut at = 0;
+      while at < SLOTS && self.items[at].as_ref().is_some_and(|x| x.0 < k) {
+        at += 1;
+      }
+      assert!(at < SLOTS, "SmallMap is full");
+      let mut carry = Some((k, v));
+      if self.items[at].as_ref().is_some_and(|x| x.0 == k) {
+        return std::mem::replace(&mut self.items[at], carry).map(|x| x.1);
       }
-      panic!("SmallMap is full");
+      while at < SLOTS && carry.is_some() {
+        carry = std::mem::replace(&mut self.items[at], carry);
+        at += 1;
+      }
+      assert!(carry.is_none(), "SmallMap is full");
+      std::mem::forget(carry);
+      None
     }
     pub fn remove(&mut self, k: &K) -> Option<V> {
       let mut found = None;
@@ -109,9 +117,11 @@ pub mod small_map {
       found.map(|x| x.1)
     }
     pub fn get(&self, k: &K) -> Option<&V> {
-      for x in self.items.iter().flatten() {
-        if x.0 == *k {
-          return Some(&x.1);
+      for i in 0..SLOTS {
+        match &self.items[i] {
+          Some(x) if x.0 == *k => return Some(&x.1),
+          Some(_) => {}
+          None => return None,
         }
       }
       None
@@ -120,34 +130,79 @@ pub mod small_map {
       self.get(k).is_some()
     }
     pub fn len(&self) -> usize {
-      let mut n = 0;
-      for x in self.items.iter() {
-        n += x.is_some() as usize;
+      for n in 0..SLOTS {
+        if self.items[n].is_none() {
+          return n;
+        }
       }
-      n
+      SLOTS
     }
     pub fn is_empty(&self) -> bool {
       self.items[0].is_none()
     }
-    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
-      self.items.iter().flatten().map(|x| (&x.0, &x.1))
+    pub fn iter(&self) -> Iter<'_, K, V> {
+      Iter { items: &self.items, at: 0 }
+    }
+    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
+      ValuesMut { items: self.items.iter_mut() }
+    }
+  }
+  pub struct Iter<'a, K, V> {
+    items: &'a [Option<(K, V)>; SLOTS],
+    at: usize,
+  }
+  impl<'a, K, V> Iterator for Iter<'a, K, V> {
+    type Item = (&'a K, &'a V);
+    fn next(&mut self) -> Option<Self::Item> {
+      if self.at >= SLOTS {
+        return None;
+      }
+      let x = self.items[self.at].as_ref()?;
+      self.at += 1;
+      Some((&x.0, &x.1))
+    }
+  }
+  pub struct ValuesMut<'a, K, V> {
+    items: std::slice::IterMut<'a, Option<(K, V)>>,
+  }
+  impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
+    type Item = &'a mut V;
+    fn next(&mut self) -> Option<Self::Item> {
+      match self.items.next() {
+        Some(Some(x)) => Some(&mut x.1),
+        _ => None,
+      }
     }
-    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
-      self.items.iter_mut().flatten().map(|x| &mut x.1)
+  }
+  pub struct IntoIter<K, V> {
+    items: std::mem::ManuallyDrop<[Option<(K, V)>; SLOTS]>,
+    at: usize,
+  }
+  impl<K, V> Iterator for IntoIter<K, V> {
+    type Item = (K, V);
+    fn next(&mut self) -> Option<(K, V)> {
+      if self.at >= SLOTS {
+        return None;
+      }
+      self.at += 1;
+      std::mem::replace(&mut self.items[self.at - 1], None)
     }
   }
   impl<K, V> IntoIterator for SmallMap<K, V> {
     type Item = (K, V);
-    type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, SLOTS>>;
-    fn into_iter(self) -> Self::IntoIter {
-      self.items.into_iter().flatten()
+    type IntoIter = IntoIter<K, V>;
+    fn into_iter(self) -> IntoIter<K, V> {
+      IntoIter {
+        items: self.items,
+        at: 0,
+      }
     }
   }
-  impl<'a, K, V> IntoIterator for &'a SmallMap<K, V> {
+  impl<'a, K: Ord + Copy, V> IntoIterator for &'a SmallMap<K, V> {
     type Item = (&'a K, &'a V);
-    type IntoIter = std::iter::Map<std::iter::Flatten<std::slice::Iter<'a, Option<(K, V)>>>, fn(&'a (K, V)) -> (&'a K, &'a V)>;
-    fn into_iter(self) -> Self::IntoIter {
-      self.items.iter().flatten().map(|x| (&x.0, &x.1))
+    type IntoIter = Iter<'a, K, V>;
+    fn into_iter(self) -> Iter<'a, K, V> {
+      self.iter()
     }
   }
 }
-- 
2.43.0

