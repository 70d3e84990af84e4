From de3c54e03ae3157e94def337ef67f37ccd765c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:10 +0000
Subject: [PATCH 01/43] fix: report the end of the buffer instead of panicking
 when aligning or reading past it

---
 codecs/src/aper/mod.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..a3878c5 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,17 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.decode_offset + remaining > self.bits.len() {
+            return Err(AperCodecError::new(
+                format!(
+                    "AperCodec:DecodeError:Requested Bits to align {}, Remaining bits {}",
+                    remaining,
+                    self.remaining()
+                )
+                .as_str(),
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
@@ -81,8 +92,13 @@ impl AperCodecData {
         }
     }
 
+    // Number of bits not decoded yet.
+    fn remaining(&self) -> usize {
+        self.bits.len().saturating_sub(self.decode_offset)
+    }
+
     fn decode_bool(&mut self) -> Result<bool, AperCodecError> {
-        if self.bits.len() == self.decode_offset {
+        if self.remaining() == 0 {
             return Err(AperCodecError::new(
                 "AperCodec:DecodeError:End of Bitstream reached while trying to decode bool.",
             ));
@@ -98,7 +114,7 @@ impl AperCodecData {
         bits: usize,
         signed: bool,
     ) -> Result<i128, AperCodecError> {
-        let remaining = self.bits.len() - self.decode_offset;
+        let remaining = self.remaining();
         if remaining < bits {
             Err(AperCodecError::new(
                 format!(
@@ -217,7 +233,7 @@ impl AperCodecData {
             if ignore {
                 self.decode_offset = self.bits.len()
             } else {
-                let remaining = self.bits.len() - self.decode_offset;
+                let remaining = self.remaining();
                 return Err(AperCodecError::new(
                     format!(
                         "AperCodec:DecodeError:Requested Bits to advance {}, Remaining bits {}",
@@ -238,7 +254,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
                     self.decode_offset,
-                    self.bits.len() - self.decode_offset
+                    self.remaining()
                 )
                 .as_str(),
             ));
@@ -253,7 +269,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
                     length,
-                    self.bits.len() - self.decode_offset
+                    self.remaining()
                 )
                 .as_str(),
             ));
@@ -271,7 +287,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bits {}, Remaining bits {}",
                     length,
-                    self.bits.len() - self.decode_offset
+                    self.remaining()
                 )
                 .as_str(),
             ));
-- 
2.43.0


From fddaff5a8724b34052cb3a4d1fd20032fe43bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:10 +0000
Subject: [PATCH 02/43] fix: encode and decode constrained integers with a
 range above 64K as X.691 says and reject values above the upper bound

---
 codecs/src/aper/decode/decode_internal.rs | 12 ++++++++++--
 codecs/src/aper/encode/encode_internal.rs |  7 ++++---
 codecs/src/aper/mod.rs                    |  9 +++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..8528bd4 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -1,6 +1,7 @@
 //! Internal decode functions.
 use std::convert::TryInto;
 
+use crate::aper::constrained_range;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 
@@ -165,7 +166,7 @@ pub(super) fn decode_constrained_whole_number(
 ) -> Result<i128, AperCodecError> {
     log::trace!("decode_constrained_whole_number: lb: {}, ub: {}", lb, ub,);
 
-    let range = ub - lb + 1;
+    let range = constrained_range(lb, ub)?;
     if range <= 0 {
         Err(AperCodecError::new(
             "Range for the Integer Constraint is negative.",
@@ -191,13 +192,20 @@ pub(super) fn decode_constrained_whole_number(
             let _ = data.decode_align()?;
             data.decode_bits_as_integer(16, false)?
         } else {
-            let bytes_needed = crate::aper::bytes_needed_for_range(range);
+            let bytes_needed = crate::aper::bytes_needed_for_range(range - 1);
             log::trace!("bytes_needed : {}", bytes_needed);
             let length = decode_constrained_length_determinent(data, 1, bytes_needed as usize)?;
             let _ = data.decode_align()?;
             data.decode_bits_as_integer(length * 8, false)?
         };
 
+        if value >= range {
+            return Err(AperCodecError::new(format!(
+                "Decoded value {} is greater than upper bound {}",
+                value, ub
+            )));
+        }
+
         Ok(value + lb)
     }
 }
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..98f2e68 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -1,4 +1,5 @@
 use crate::aper::encode::encode_length_determinent;
+use crate::aper::constrained_range;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 use bitvec::prelude::*;
@@ -64,7 +65,7 @@ pub(super) fn encode_constrained_whole_number(
         )));
     }
 
-    let range = ub - lb + 1;
+    let range = constrained_range(lb, ub)?;
     let value = value - lb;
 
     if range <= 256 {
@@ -91,9 +92,9 @@ pub(super) fn encode_constrained_whole_number(
         let bytes = (value as u16).to_be_bytes();
         data.append_bits(bytes.view_bits::<Msb0>());
     } else {
-        let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
+        let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range - 1) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index a3878c5..e029506 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -387,6 +387,15 @@ impl AperCodecData {
     }
 }
 
+// Number of values a constrained whole number can take.
+fn constrained_range(lb: i128, ub: i128) -> Result<i128, AperCodecError> {
+    ub.checked_sub(lb)
+        .and_then(|r| r.checked_add(1))
+        .ok_or_else(|| {
+            AperCodecError::new(format!("Range of {}..{} is not supported.", lb, ub))
+        })
+}
+
 fn bytes_needed_for_range(range: i128) -> u8 {
     let bits_needed: u8 = 128 - range.leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
-- 
2.43.0


From a6e3da91ce8b54aac9cb4433a6d7e99c695c9b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 03/43] fix: encode semi-constrained integers as unsigned
 numbers and check what is decoded for overflow

---
 codecs/src/aper/decode/decode_internal.rs | 17 +++++++++++++++--
 codecs/src/aper/encode/encode_internal.rs | 10 +++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 8528bd4..fc48659 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -151,9 +151,21 @@ pub(super) fn decode_semi_constrained_whole_number(
     let length = decode_length_determinent(data, None, None, false)?;
 
     let bits = length * 8;
+    if !(8..=128).contains(&bits) {
+        return Err(AperCodecError::new(format!(
+            "Integer of {} octets is not supported",
+            length
+        )));
+    }
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    // A value that needs all the 128 bits does not fit in an `i128`
+    if val < 0 {
+        None
+    } else {
+        val.checked_add(lb)
+    }
+    .ok_or_else(|| AperCodecError::new("Integer is too large"))
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
@@ -199,7 +211,8 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
-        if value >= range {
+        // 16 octets can also overflow an `i128`
+        if value < 0 || value >= range {
             return Err(AperCodecError::new(format!(
                 "Decoded value {} is greater than upper bound {}",
                 value, ub
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 98f2e68..fb32f0c 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -42,7 +42,15 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    // 10.7: non-negative-binary-integer in the minimum number of octets
+    let value = value
+        .checked_sub(lb)
+        .ok_or_else(|| AperCodecError::new("Integer is too large"))?;
+    let bytes = value.to_be_bytes();
+    let first = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first)?;
+    data.append_bits(bytes[first..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From ec5b583a5577309c6409ada612eabe15debb18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 04/43] fix: decode unconstrained integers of every length from
 1 to 16 octets

---
 codecs/src/aper/mod.rs | 93 +++++-------------------------------------
 1 file changed, 11 insertions(+), 82 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index e029506..ed8cba1 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -137,89 +137,18 @@ impl AperCodecData {
                         as i128
                 }
             } else {
-                match bits {
-                    8 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i8;
-                        inner as i128
-                    }
-                    16 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i16;
-                        inner as i128
-                    }
-                    24 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u32>() as u32;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFF000000
-                        } else {
-                            inner & 0x00FFFFFF
-                        };
-                        let inner = inner as i32;
-                        inner as i128
-                    }
-                    32 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i32;
-                        inner as i128
-                    }
-                    40 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFFFFFF0000000000
-                        } else {
-                            inner & 0x000000FFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    48 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFFFF000000000000
-                        } else {
-                            inner & 0x0000FFFFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    56 => {
-                        eprintln!("{}", self.decode_offset);
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFF00000000000000
-                        } else {
-                            inner & 0x00FFFFFFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    64 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i64;
-                        inner as i128
-                    }
-                    128 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i128;
-                        inner as i128
-                    }
-                    _ => {
-                        return Err(
-                            AperCodecError::new(
-                                format!(
-                                    "For a signed number in 2's compliment form, requested bits {} not supported!",
-                                    bits)));
-                    }
+                if bits == 0 || bits > 128 || bits % 8 != 0 {
+                    return Err(
+                        AperCodecError::new(
+                            format!(
+                                "For a signed number in 2's compliment form, requested bits {} not supported!",
+                                bits)));
                 }
+                let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                    .load_be::<u128>();
+                // Extend the sign
+                let unused = 128 - bits as u32;
+                ((inner << unused) as i128) >> unused
             };
             log::trace!("Decoded Value: {:?}", value);
             self.advance_maybe_err(bits, false)?;
-- 
2.43.0


From db6b32b68a945d5fe050b72823bb716112700b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 05/43] fix: return an error for lengths and bounds that can
 not be encoded or decoded, use the short form of normally small lengths up to
 64

---
 codecs/src/aper/decode/decode_internal.rs | 11 ++++++-----
 codecs/src/aper/encode/encode_internal.rs |  7 ++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index fc48659..36e047a 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -54,13 +54,16 @@ pub fn decode_length_determinent(
     }
 
     let lb = if let Some(l) = lb {
-        l.try_into().unwrap()
+        l.try_into()
+            .map_err(|_| AperCodecError::new(format!("Invalid lower bound {} of a size", l)))?
     } else {
         0usize
     };
 
     if let Some(ub) = ub {
-        let ub: usize = ub.try_into().unwrap();
+        let ub: usize = ub
+            .try_into()
+            .map_err(|_| AperCodecError::new(format!("Invalid upper bound {} of a size", ub)))?;
         if ub < 65_536 {
             if lb == ub {
                 return Ok(ub);
@@ -89,9 +92,7 @@ fn decode_constrained_length_determinent(
         ub
     );
 
-    let range = ub - lb + 1;
-
-    if range <= 65536 {
+    if ub < 65536 {
         // Almost always for our use cases, so let's just use it.
         let length = decode_constrained_whole_number(data, lb as i128, ub as i128)?;
         log::trace!("decoded length : {}", length);
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index fb32f0c..03f1e52 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -138,7 +138,12 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "A normally small length can not be zero",
+        ));
+    }
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From a5ca222b5738a0878dd619403b85947f33814f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 06/43] fix: octet-align strings of a variable size whatever
 their length

---
 codecs/src/aper/decode/decode_charstrings.rs |  3 ++-
 codecs/src/aper/decode/mod.rs                |  7 +++++--
 codecs/src/aper/encode/mod.rs                |  9 ++++++---
 codecs/src/aper/mod.rs                       | 20 ++++++++++++++++++++
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..e3bd277 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -1,6 +1,7 @@
 //! Functionality for decoding character strings
 use bitvec::field::BitField;
 
+use crate::aper::is_aligned_string;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 
@@ -78,7 +79,7 @@ fn decode_string(
 
     let num_bits = 8;
     let length = length * num_bits;
-    if length > 16 {
+    if length > 0 && (is_extended || is_aligned_string(lb, ub)) {
         data.decode_align()?;
     }
     let bits = data.get_bitvec(length)?;
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..f18f1c8 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -2,6 +2,7 @@
 use bitvec::prelude::*;
 
 use crate::aper::AperCodecData;
+use crate::aper::is_fixed_size;
 use crate::aper::AperCodecError;
 
 mod decode_internal;
@@ -219,7 +220,8 @@ pub fn decode_bitstring(
         };
 
         if length > 0 {
-            if length > 16 {
+            // 15.9 - 15.11: only a short string of a fixed size is not aligned
+            if is_extended || !is_fixed_size(lb, ub) || length > 16 {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -269,7 +271,8 @@ pub fn decode_octetstring(
         };
 
         if length > 0 {
-            if length > 2 {
+            // 16.6 - 16.8: only a short string of a fixed size is not aligned
+            if is_extended || !is_fixed_size(lb, ub) || length > 2 {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..a4345c0 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -2,6 +2,7 @@
 
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
+use crate::aper::{is_aligned_string, is_fixed_size};
 use bitvec::prelude::*;
 mod encode_internal;
 use bitvec::view::AsBits;
@@ -199,7 +200,8 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        // 15.9 - 15.11: only a short string of a fixed size is not aligned
+        if !is_fixed_size(lb, ub) || length > 16 {
             data.align();
         }
         data.append_bits(bit_string);
@@ -248,7 +250,8 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        // 16.6 - 16.8: only a short string of a fixed size is not aligned
+        if !is_fixed_size(lb, ub) || length > 2 {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
@@ -331,7 +334,7 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    if value.len() > 0 && is_aligned_string(lb, ub) {
         data.align();
     }
     data.append_bits(value.as_bits());
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index ed8cba1..6937846 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -325,6 +325,26 @@ fn constrained_range(lb: i128, ub: i128) -> Result<i128, AperCodecError> {
         })
 }
 
+// Are all the values of a type with this size constraint of the same (known) size?
+fn is_fixed_size(lb: Option<i128>, ub: Option<i128>) -> bool {
+    match ub {
+        Some(ub) => ub < 65_536 && lb.unwrap_or(0) == ub,
+        None => false,
+    }
+}
+
+// Are the characters (of 8 bits) of a string with this size constraint octet-aligned?
+//
+// 27.5.6 and 27.5.7: They are, unless a fixed size does not exceed 16 bits or the largest size is
+// less than 16 bits.
+fn is_aligned_string(lb: Option<i128>, ub: Option<i128>) -> bool {
+    match ub {
+        Some(ub) if is_fixed_size(lb, Some(ub)) => ub > 2,
+        Some(ub) => ub >= 2,
+        None => true,
+    }
+}
+
 fn bytes_needed_for_range(range: i128) -> u8 {
     let bits_needed: u8 = 128 - range.leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
-- 
2.43.0


From 377dd2177c87d9dcbd12af08d5fafd58533aef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 07/43] fix: the size constraint of a UTF8String is not PER
 visible

---
 codecs/src/aper/decode/decode_charstrings.rs | 12 +++++++++++-
 codecs/src/aper/encode/mod.rs                | 17 ++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index e3bd277..f98ab28 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -56,7 +56,17 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+
+    // The constraint counts characters and is not PER visible.
+    let value = decode_string(data, None, None, false)?;
+    let count = value.chars().count() as i128;
+    if !is_extensible && (count < lb.unwrap_or(0) || matches!(ub, Some(ub) if count > ub)) {
+        return Err(AperCodecError::new(format!(
+            "Decoded string of {} characters - outside the size constraint",
+            count
+        )));
+    }
+    Ok(value)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index a4345c0..f2131a4 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -403,7 +403,22 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    if extended {
+        return Err(AperCodecError::new(
+            "Encode of extended UTF8 string not yet implemented",
+        ));
+    }
+
+    // 27.6: The constraint counts characters and is not PER visible: there is no extension bit and
+    // the length (in octets) is always unconstrained.
+    let count = value.chars().count() as i128;
+    if count < lb.unwrap_or(0) || matches!(ub, Some(ub) if count > ub) {
+        return Err(AperCodecError::new(format!(
+            "Cannot encode string of {} characters - outside the size constraint",
+            count
+        )));
+    }
+    encode_string(data, None, None, false, value, false)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 7badfb3c67fe45f50f11c0023537c4ca3890e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 08/43] fix: tell fragments from lengths of 16K and above, read
 fragmented strings and check decoded sizes

---
 codecs/src/aper/decode/decode_charstrings.rs | 30 +++++++++++---------
 codecs/src/aper/decode/decode_internal.rs    | 27 ++++++++++++++++++
 codecs/src/aper/decode/mod.rs                | 30 ++++++++++----------
 3 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index f98ab28..2aaf7f9 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -5,7 +5,7 @@ use crate::aper::is_aligned_string;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 
-use super::decode_internal::decode_length_determinent;
+use super::decode_internal::{check_size, decode_length_determinent, is_fragment_length};
 
 // 27.5.3 and 27.5.4
 /// Decode a VisibleString CharacterString Type.
@@ -81,22 +81,24 @@ fn decode_string(
         false
     };
 
-    let length = if is_extended {
-        decode_length_determinent(data, None, None, false)?
-    } else {
-        decode_length_determinent(data, lb, ub, false)?
-    };
+    let (lb, ub) = if is_extended { (None, None) } else { (lb, ub) };
 
     let num_bits = 8;
-    let length = length * num_bits;
-    if length > 0 && (is_extended || is_aligned_string(lb, ub)) {
-        data.decode_align()?;
+    let mut bytes: Vec<u8> = Vec::new();
+    loop {
+        let length = decode_length_determinent(data, lb, ub, false)?;
+
+        if length > 0 && is_aligned_string(lb, ub) {
+            data.decode_align()?;
+        }
+        let bits = data.get_bitvec(length * num_bits)?;
+        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load::<u8>()));
+
+        if !is_fragment_length(ub, length) {
+            break;
+        }
     }
-    let bits = data.get_bitvec(length)?;
-    let bytes = bits
-        .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
-        .collect::<Vec<u8>>();
+    check_size(lb, ub, bytes.len())?;
 
     data.dump();
 
diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 36e047a..a504499 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -80,6 +80,33 @@ pub fn decode_length_determinent(
     }
 }
 
+/// Is a decoded length the length of a fragment, which is followed by (at least) another length?
+///
+/// That is the case when a general length determinent (10.9.3.8) is a multiple of 16K. A length that
+/// is a constrained whole number is always the length of the whole value.
+pub fn is_fragment_length(ub: Option<i128>, length: usize) -> bool {
+    length >= 16384 && !matches!(ub, Some(ub) if ub < 65_536)
+}
+
+/// Checks the size of a decoded value against the size constraint.
+///
+/// This is required, because a general length determinent does not imply the constraint.
+pub fn check_size(
+    lb: Option<i128>,
+    ub: Option<i128>,
+    size: usize,
+) -> Result<(), AperCodecError> {
+    let size = size as i128;
+    if size < lb.unwrap_or(0) || matches!(ub, Some(ub) if size > ub) {
+        Err(AperCodecError::new(format!(
+            "Decoded size {} is outside the size constraint {:?}..{:?}",
+            size, lb, ub
+        )))
+    } else {
+        Ok(())
+    }
+}
+
 // Called when `lb` and `ub` are known and the range is less than 64K
 fn decode_constrained_length_determinent(
     data: &mut AperCodecData,
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index f18f1c8..a530bf4 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -8,7 +8,7 @@ use crate::aper::AperCodecError;
 mod decode_internal;
 use decode_internal::*;
 
-pub use decode_internal::decode_length_determinent;
+pub use decode_internal::{check_size, decode_length_determinent, is_fragment_length};
 
 /// Decode a Choice Index.
 ///
@@ -211,30 +211,30 @@ pub fn decode_bitstring(
         false
     };
 
+    let (lb, ub) = if is_extended { (None, None) } else { (lb, ub) };
+
     let mut bv = BitVec::new();
     loop {
-        let length = if is_extended {
-            decode_length_determinent(data, None, None, false)?
-        } else {
-            decode_length_determinent(data, lb, ub, false)?
-        };
+        let length = decode_length_determinent(data, lb, ub, false)?;
 
         if length > 0 {
             // 15.9 - 15.11: only a short string of a fixed size is not aligned
-            if is_extended || !is_fixed_size(lb, ub) || length > 16 {
+            if !is_fixed_size(lb, ub) || length > 16 {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if is_fragment_length(ub, length) {
             continue;
         } else {
             break;
         }
     }
 
+    check_size(lb, ub, bv.len())?;
+
     data.dump();
 
     Ok(bv)
@@ -262,30 +262,30 @@ pub fn decode_octetstring(
         false
     };
 
+    let (lb, ub) = if is_extended { (None, None) } else { (lb, ub) };
+
     let mut octets = Vec::new();
     loop {
-        let length = if is_extended {
-            decode_length_determinent(data, None, None, false)?
-        } else {
-            decode_length_determinent(data, lb, ub, false)?
-        };
+        let length = decode_length_determinent(data, lb, ub, false)?;
 
         if length > 0 {
             // 16.6 - 16.8: only a short string of a fixed size is not aligned
-            if is_extended || !is_fixed_size(lb, ub) || length > 2 {
+            if !is_fixed_size(lb, ub) || length > 2 {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if is_fragment_length(ub, length) {
             continue;
         } else {
             break;
         }
     }
 
+    check_size(lb, ub, octets.len())?;
+
     data.dump();
 
     Ok(octets)
-- 
2.43.0


From b01d1ac47ca824eeaf80416c19c4787d08499243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:41 +0000
Subject: [PATCH 09/43] fix: encode strings of 16K and above whose length is a
 constrained number

---
 codecs/src/aper/encode/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index f2131a4..435754e 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -192,7 +192,7 @@ pub fn encode_bitstring(
     }
 
     let length = bit_string.len();
-    if length >= 16384 {
+    if length >= 16384 && !matches!(ub, Some(ub) if ub < 65_536) {
         return Err(AperCodecError::new(
             "Encode of fragmented bitstring not yet implemented",
         ));
@@ -241,7 +241,7 @@ pub fn encode_octetstring(
     }
 
     let length = octet_string.len();
-    if length >= 16384 {
+    if length >= 16384 && !matches!(ub, Some(ub) if ub < 65_536) {
         return Err(AperCodecError::new(
             "Encode of fragmented octetstring not yet implemented",
         ));
-- 
2.43.0


From 988d580b07e748e77b1f2e75c4cdad3394838863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:41 +0000
Subject: [PATCH 10/43] fix: SEQUENCE OF: decode empty and fragmented lists,
 encode the extension bit of the size and report sizes outside the constraint

---
 codecs_derive/src/aper/seqof.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..ecfc2f7 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,17 +43,25 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let (sz_lb, sz_ub): (Option<i128>, Option<i128>) = (#sz_lb, #sz_ub);
+                let is_extended = if #sz_ext {
+                    asn1_codecs::aper::decode::decode_bool(data)?
+                } else {
+                    false
+                };
+                let (sz_lb, sz_ub) = if is_extended { (None, None) } else { (sz_lb, sz_ub) };
 
                 let mut items = vec![];
-                let mut count = 0;
                 loop {
-                    items.push(#ty::decode(data)?);
-                    count += 1;
-                    if count == length {
+                    let length = asn1_codecs::aper::decode::decode_length_determinent(data, sz_lb, sz_ub, false)?;
+                    for _ in 0..length {
+                        items.push(#ty::decode(data)?);
+                    }
+                    if !asn1_codecs::aper::decode::is_fragment_length(sz_ub, length) {
                         break;
                     }
                 }
+                asn1_codecs::aper::decode::check_size(sz_lb, sz_ub, items.len())?;
 
                 Ok(Self(items))
             }
@@ -61,7 +69,11 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                if #sz_ext {
+                    // Only values in the extension root are encoded
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From c70aac0a948fe241f5c36de6fcc8679d3348ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:41 +0000
Subject: [PATCH 11/43] fix: never truncate decoded numbers, never take an
 addition of an ENUMERATED for an item of its root

---
 codecs_derive/src/aper/enumerated.rs | 8 +++++++-
 codecs_derive/src/aper/integer.rs    | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..cf3fd8c 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,7 +44,13 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                if decoded.1 {
+                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
+                }
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!("Value {} does not fit in {}", decoded.0, stringify!(#name)))
+                })?;
+                Ok(Self(value))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..46be3a7 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!("Value {} does not fit in {}", decoded.0, stringify!(#name)))
+                })?;
+                Ok(Self(value))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From 05528051f080dd0c8461b4f28bab6706b18fa25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:41 +0000
Subject: [PATCH 12/43] fix: bound open types by their declared length and
 encode at least one octet

---
 codecs/src/aper/mod.rs         |  2 +-
 codecs_derive/src/aper/open.rs | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 6937846..9bb6fcc 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -304,7 +304,7 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        (self.bits.len() + 7) / 8
     }
 
     /// Append one encoding to another preserving byte alignment.
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..b455554 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -22,6 +22,10 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 let _ = match self {
                     #(#variant_encode_tokens)*
                 };
+                if inner.length_in_bytes() == 0 {
+                    // 10.1.3: The encoding of an open type has at least one octet
+                    asn1_codecs::aper::encode::encode_integer(&mut inner, Some(0), Some(255), false, 0, false)?;
+                }
                 let length = inner.length_in_bytes();
                 let _ = asn1_codecs::aper::encode::encode_length_determinent(data, None, None, false, length)?;
                 data.append_aligned(&mut inner);
@@ -40,9 +44,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let bytes = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", bytes.len());
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
@@ -50,6 +54,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
 
                 let key = data.get_key().unwrap();
 
+                // The carried value can not read past its own octets
+                let data = &mut asn1_codecs::aper::AperCodecData::from_slice(&bytes);
+
                 match key {
                     #(#variant_decode_tokens)*
                     _ => Err(asn1_codecs::aper::AperCodecError::new(format!("Key {} Not Found", key).as_str()))
-- 
2.43.0


From df990d6e54cfe53749822287b748b2c7a2cba543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:42 +0000
Subject: [PATCH 13/43] fix: skip the extension additions of a SEQUENCE

---
 codecs/src/aper/decode/mod.rs | 23 +++++++++++++++++++++++
 codecs_derive/src/aper/seq.rs |  8 ++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index a530bf4..d8ee409 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -75,6 +75,29 @@ pub fn decode_sequence_header(
     Ok((bitmap, extended))
 }
 
+/// Skip the Extension Additions of a Sequence
+///
+/// When `extensions` are present, the components in the root of a SEQUENCE are followed by a bitmap
+/// of the additions that are present and each of these additions as an open type (18.7 - 18.9). They
+/// are unknown here, but whatever follows the SEQUENCE has to be decoded from after them.
+pub fn skip_sequence_additions(data: &mut AperCodecData) -> Result<(), AperCodecError> {
+    log::debug!("skip_sequence_additions:");
+
+    let count = decode_length_determinent(data, None, None, true)?;
+    if is_fragment_length(None, count) {
+        return Err(AperCodecError::new(
+            "Fragmented bitmap of additions is not supported",
+        ));
+    }
+    let present = data.get_bitvec(count)?.count_ones();
+    for _ in 0..present {
+        let _ = decode_octetstring(data, None, None, false)?;
+    }
+
+    data.dump();
+    Ok(())
+}
+
 /// Decode an Integer
 ///
 /// Given an Integer Specification with PER Visible Constraints, decode an Integer Value to obtain
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..37aec1b 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let decoded = Self{#(#fld_decode_tokens)*};
+                if extensions_present {
+                    asn1_codecs::aper::decode::skip_sequence_additions(data)?;
+                }
+                Ok(decoded)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 036959309a04972111e6fb27f050fc85f6dded80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 14/43] fix: a SEQUENCE inside another one does not change the
 key of the outer one's open types

---
 codecs/src/aper/mod.rs        | 5 +++++
 codecs_derive/src/aper/seq.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 9bb6fcc..20c11eb 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -250,6 +250,11 @@ impl AperCodecData {
         let _ = self.key.replace(key);
     }
 
+    /// Restores the `key` that `get_key` returned before another SEQUENCE was decoded.
+    pub fn restore_key(&mut self, key: Option<i128>) {
+        self.key = key;
+    }
+
     /// Dump current 'offset'.
     #[inline]
     pub fn dump(&self) {
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 37aec1b..81fd12a 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -31,7 +31,9 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let outer_key = data.get_key();
                 let decoded = Self{#(#fld_decode_tokens)*};
+                data.restore_key(outer_key);
                 if extensions_present {
                     asn1_codecs::aper::decode::skip_sequence_additions(data)?;
                 }
-- 
2.43.0


From 9aa1462b2752a06d588ba3c8da474fe2f29c57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 15/43] fix: decode the characters of a string that is not
 octet-aligned

---
 codecs/src/aper/decode/decode_charstrings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 2aaf7f9..8661ce2 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -92,7 +92,7 @@ fn decode_string(
             data.decode_align()?;
         }
         let bits = data.get_bitvec(length * num_bits)?;
-        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load::<u8>()));
+        bytes.extend(bits.chunks_exact(num_bits).map(|c| c.load_be::<u8>()));
 
         if !is_fragment_length(ub, length) {
             break;
-- 
2.43.0


From 54d684a36893d93125f1fb357bfa7be72d81687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 16/43] fix: check the upper bound of an INTEGER without a
 lower bound

---
 codecs/src/aper/decode/mod.rs | 9 ++++++++-
 codecs/src/aper/encode/mod.rs | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index d8ee409..db9d1c5 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -139,7 +139,14 @@ pub fn decode_integer(
             None =>
             // 12.2.4
             {
-                decode_unconstrained_whole_number(data)?
+                let value = decode_unconstrained_whole_number(data)?;
+                if matches!(ub, Some(ub) if value > ub) {
+                    return Err(AperCodecError::new(format!(
+                        "Decoded value {} is greater than the upper bound",
+                        value
+                    )));
+                }
+                value
             }
             Some(lb) => {
                 match ub {
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 435754e..25cba72 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -107,6 +107,12 @@ pub fn encode_integer(
     }
 
     let _ = match (lb, ub) {
+        (None, Some(ub)) if value > ub => {
+            return Err(AperCodecError::new(format!(
+                "Cannot encode integer {} - greater than upper bound {}",
+                value, ub,
+            )))
+        }
         (None, _) => encode_unconstrained_whole_number(data, value)?,
         (Some(lb), None) => encode_semi_constrained_whole_number(data, lb, value)?,
         (Some(lb), Some(ub)) => encode_constrained_whole_number(data, lb, ub, value)?,
-- 
2.43.0


From 26c9c84b0e927866ae4e72762581e73f7a710166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 17/43] fix: tokenize returns an error for input that can not
 be read, is not text or ends in the middle of a token

---
 asn-compiler/src/tokenizer/mod.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..90a6148 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -690,12 +690,12 @@ fn get_seq_extension_or_square_brackets_token(
     begin: usize,
 ) -> Result<(Token, usize), Error> {
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if chars.get(1) == Some(&'[') {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if chars.get(1) == Some(&']') {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
@@ -753,7 +753,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.get(1) != Some(&'-') {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
@@ -808,13 +808,16 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    let _ = input
+        .read_to_end(&mut buffer)
+        .map_err(|e| parse_error!("Unable to read the input: {}", e))?;
+    let buffer =
+        String::from_utf8(buffer).map_err(|e| parse_error!("Input is not valid UTF-8: {}", e))?;
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
             ' ' | '\t' => {
@@ -919,15 +922,14 @@ where
                 processed += 1;
             }
             _ => {
-                panic!(
+                return Err(parse_error!(
                     "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
+                    chars[processed],
+                    line,
+                    column
+                ));
             }
         }
-        if processed == total_read {
-            break;
-        }
     }
     Ok(tokens)
 }
-- 
2.43.0


From bb895ea9ac4ac510e09ed6b94c72297fc5cd61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:11 +0000
Subject: [PATCH 18/43] fix: carriage return, vertical tab and form feed are
 white space and end a comment

---
 asn-compiler/src/tokenizer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 90a6148..8a70605 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -759,9 +759,9 @@ fn get_maybe_comment_token(
     let mut consumed = 2; // initial "--"
     let mut last_idx: Option<usize> = None;
 
-    // Search for Either '\n' or "--"
+    // Search for Either a newline or "--"
     for (idx, window) in chars[2..].windows(2).enumerate() {
-        if window[0] == '\n' {
+        if matches!(window[0], '\n' | '\r' | '\u{b}' | '\u{c}') {
             last_idx = Some(idx);
             consumed += idx;
             break;
@@ -820,7 +820,7 @@ where
     while processed < total_read {
         let c = chars[processed];
         match c {
-            ' ' | '\t' => {
+            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' => {
                 processed += 1;
                 column += 1;
             }
-- 
2.43.0


From 28cc0b59cb79c0976012a32305b443dcad980074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:57 +0000
Subject: [PATCH 19/43] fix: report a token that fits nowhere instead of
 looking at it forever

---
 .../src/parser/asn/types/constructed/choice.rs         | 10 ++++++++++
 asn-compiler/src/parser/asn/types/constructed/seq.rs   |  5 +++++
 asn-compiler/src/parser/asn/types/int.rs               |  4 ++++
 asn-compiler/src/parser/asn/types/ioc.rs               |  5 +++++
 4 files changed, 24 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..395367d 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,6 +32,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
+        let begin = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -84,6 +85,10 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'Component' or '}'", tokens[consumed]));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,6 +135,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
+        let begin = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -148,6 +154,10 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'Component' or ']]'", tokens[consumed]));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..7edc3ee 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,6 +43,7 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
+        let begin = consumed;
         let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
             Ok(result) => result,
             Err(_) => (None, 0),
@@ -83,6 +84,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'Component' or '}'", tokens[consumed]));
+        }
     }
 
     let extensible = ext_marker_found > 0;
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..f6a3a15 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -194,6 +194,7 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
+        let begin = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -229,6 +230,9 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             consumed += 1;
             break;
         }
+        if consumed == begin {
+            return Err(unexpected_token!("'Parameter' or '}'", tokens[consumed]));
+        }
     }
     Ok((params, consumed))
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..88f3dce 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -314,6 +314,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        let begin = consumed;
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -371,6 +372,10 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             consumed += 1;
             break;
         }
+
+        if consumed == begin {
+            return Err(unexpected_token!("'Object' or '}'", tokens[consumed]));
+        }
     }
     Ok((
         ObjectSet {
-- 
2.43.0


From 4a0fde96103e116b260a7e958838ede196392abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 20/43] fix: circular definitions and circular imports are an
 error, they were left out silently

---
 asn-compiler/src/compiler.rs                  |  9 ++++++---
 asn-compiler/src/parser/asn/structs/module.rs | 14 +++++++++++---
 asn-compiler/src/resolver/int.rs              | 19 +++++--------------
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..37e82ab 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -136,7 +136,7 @@ impl Asn1Compiler {
         Ok(())
     }
 
-    fn sorted_modules(&self) -> Vec<String> {
+    fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for module in self.modules.values() {
@@ -156,11 +156,14 @@ impl Asn1Compiler {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!("Modules import from each other in a circle!"));
+        }
+        Ok(out_vec)
     }
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
-        let module_names = self.sorted_modules();
+        let module_names = self.sorted_modules()?;
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index a2325c6..71eda8e 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -4,6 +4,7 @@ use std::collections::{hash_map::Iter, HashMap};
 
 use topological_sort::TopologicalSort;
 
+use crate::error::Error;
 use crate::parser::asn::structs::{defs::Asn1Definition, oid::ObjectIdentifier};
 
 #[derive(Debug, PartialEq)]
@@ -87,8 +88,9 @@ impl Asn1Module {
     // definition (ie. those that are 'Referenced' in a given definition (like a Referenced Type in
     // a Type definition or a Class Name in an object definition and so on. We don't include the
     // 'import'ed definitions in these because, they will already be 'Resolved' because the modules
-    // are already in a Topologically sorted order!
-    pub(crate) fn definitions_sorted(&mut self) -> Vec<String> {
+    // are already in a Topologically sorted order! Definitions that refer to each other in a circle
+    // have no such order, it is an Error.
+    pub(crate) fn definitions_sorted(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for (k, v) in self.definitions.iter() {
@@ -109,7 +111,13 @@ impl Asn1Module {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!(
+                "Circular definitions in Module '{}'!",
+                self.get_module_name()
+            ));
+        }
+        Ok(out_vec)
     }
 
     #[inline(always)]
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..9760257 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -51,7 +51,7 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
-        let definitions_sorted = module.definitions_sorted();
+        let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
             if parsed_def.is_none() {
@@ -76,22 +76,13 @@ impl Resolver {
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
+        for (k, parsed_def) in module.get_definitions() {
             if !parsed_def.resolved {
-                println!(
-                    "UNRESOLVED: Definition: {} in module : {} not resolved!",
+                return Err(resolve_error!(
+                    "Definition: {} in module : {} not resolved!",
                     k,
                     module.get_module_name()
-                );
+                ));
             }
         }
 
-- 
2.43.0


From 881d962b9ed5ad70cdb531ccebccd81714fbefc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 21/43] fix: sort definitions by everything they refer to,
 compilation depended on the hash seed

---
 asn-compiler/src/parser/asn/structs/defs.rs       | 15 +++++++++++++--
 .../src/parser/asn/structs/types/constructed.rs   |  6 +++++-
 asn-compiler/src/parser/asn/structs/types/ioc.rs  | 14 +++++++++++++-
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 32637d8..f9f4ca9 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -81,6 +81,17 @@ pub(crate) struct Asn1ValueAssignment {
     pub(crate) value: String,
 }
 
+impl Asn1ValueAssignment {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let mut output = self.typeref.dependent_references();
+        // The value can be a reference to another value.
+        if self.value != self.id {
+            output.push(self.value.clone());
+        }
+        output
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1AssignmentKind {
     Value(Asn1ValueAssignment),
@@ -103,9 +114,9 @@ impl Asn1AssignmentKind {
 
     pub fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Value(ref v) => v.typeref.dependent_references(),
+            Self::Value(ref v) => v.dependent_references(),
             Self::Type(ref t) => t.typeref.dependent_references(),
-            Self::Object(ref o) => vec![o.object.class.clone()],
+            Self::Object(ref o) => o.object.dependent_references(),
             Self::ObjectSet(ref s) => s.dependent_references(),
             Self::Class(ref c) => c.dependent_references(),
         }
diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..c98fc2f 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -109,6 +109,10 @@ pub(crate) struct Asn1TypeSequenceOf {
 
 impl Asn1TypeSequenceOf {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.ty.dependent_references()
+        let mut dependencies = self.ty.dependent_references();
+        if let Some(ref size) = self.size {
+            dependencies.extend(size.dependent_references());
+        }
+        dependencies
     }
 }
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..ead4647 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -118,7 +118,11 @@ impl Asn1ObjectFieldSpec {
                     vec![]
                 }
             }
-            Self::FixedTypeValue { typeref, .. } => typeref.dependent_references(),
+            Self::FixedTypeValue { typeref, value } => {
+                let mut output = typeref.dependent_references();
+                output.extend(value.clone());
+                output
+            }
         }
     }
 }
@@ -149,6 +153,14 @@ pub(crate) struct Asn1Object {
     pub(crate) value: Asn1ObjectValue, // For now just a string,
 }
 
+impl Asn1Object {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let mut output = vec![self.class.clone()];
+        output.extend(self.value.dependent_references());
+        output
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct ObjectSet {
     pub(crate) root_elements: Vec<ObjectSetElement>,
-- 
2.43.0


From 94d1e357e0bfb1d8e4ee3e2906b310be4a94a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 22/43] fix: two modules or definitions of the same name are an
 error, one of them was overwritten silently

---
 asn-compiler/src/bin/hampi-asn1c.rs           |  7 ++++++-
 asn-compiler/src/compiler.rs                  |  9 ++++++---
 asn-compiler/src/parser/asn/module.rs         | 15 ++++++++++++--
 asn-compiler/src/parser/asn/structs/module.rs | 14 +++++++++++++
 asn-compiler/src/resolver/int.rs              | 20 +++++++++++++++++++
 5 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/bin/hampi-asn1c.rs b/asn-compiler/src/bin/hampi-asn1c.rs
index 53f4d73..a9c2fe2 100644
--- a/asn-compiler/src/bin/hampi-asn1c.rs
+++ b/asn-compiler/src/bin/hampi-asn1c.rs
@@ -24,7 +24,12 @@ fn main() -> io::Result<()> {
             }
             let module = module.unwrap();
             //eprintln!("module: {:#?}", module);
-            compiler.add_module(module);
+            if !compiler.add_module(module) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("{}: a module in this file is already known", arg),
+                ));
+            }
         }
     }
     compiler.resolve_modules()?;
diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 37e82ab..e6f3641 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -53,9 +53,12 @@ impl Asn1Compiler {
     ///
     /// If the module alredy exists, returns `false` else returns `true`.
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
-        self.modules
-            .insert(module.get_module_name(), module)
-            .is_some()
+        let name = module.get_module_name();
+        if self.modules.contains_key(&name) {
+            return false;
+        }
+        self.modules.insert(name, module);
+        true
     }
 
     /// Resolve Modules order and definitions within those modules.
diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index de64414..9cfa66c 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -78,9 +78,19 @@ where
     consumed += imports_consumed;
 
     let mut definitions = HashMap::new();
+    let mut definition_texts = HashMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
-        definitions.insert(def.id(), def);
+        let id = def.id();
+        let text = Token::concat(&tokens[consumed..consumed + definition_consumed], " ");
+        if definitions.insert(id.clone(), def).is_some() {
+            return Err(parse_error!(
+                "'{}' is defined twice in Module '{}'",
+                id,
+                name.name_as_str()
+            ));
+        }
+        definition_texts.insert(id, text);
         consumed += definition_consumed;
     }
 
@@ -92,7 +102,8 @@ where
         .name(name)
         .tags(tags)
         .imports(imports)
-        .definitions(definitions);
+        .definitions(definitions)
+        .definition_texts(definition_texts);
     Ok((module, consumed))
 }
 
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index 71eda8e..fdb2569 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -59,6 +59,8 @@ pub struct Asn1Module {
     pub(in crate::parser) name: Asn1ModuleName,
     pub(in crate::parser) _tags: Asn1ModuleTag,
     pub(in crate::parser) definitions: HashMap<String, Asn1Definition>,
+    // Source text of the definitions (without white space and comments).
+    pub(in crate::parser) definition_texts: HashMap<String, String>,
     pub(in crate::parser) _exports_all: bool,
 }
 
@@ -82,6 +84,18 @@ impl Asn1Module {
         }
     }
 
+    pub(crate) fn definition_texts(self, definition_texts: HashMap<String, String>) -> Self {
+        Self {
+            definition_texts,
+            ..self
+        }
+    }
+
+    #[inline(always)]
+    pub(crate) fn get_definition_texts(&self) -> &HashMap<String, String> {
+        &self.definition_texts
+    }
+
     // Get all the definitions in the current module in the Topologically Sorted order.
     //
     // To 'sort' the definitions topologically, we are finding out all the 'dependents' on a given
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 9760257..c6c15c9 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -20,6 +20,9 @@ pub(crate) struct Resolver {
 
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
+
+    // Source text of the definitions in the modules so far.
+    definition_texts: HashMap<String, String>,
 }
 
 impl Resolver {
@@ -28,6 +31,7 @@ impl Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            definition_texts: HashMap::new(),
         }
     }
 
@@ -46,6 +50,22 @@ impl Resolver {
     // After that we resolve definitions in a Topologically sorted order. Fairly straight forward.
     // We do not need to do any `Pending` definitions, as we were doing before.
     pub(crate) fn resolve_definitions(&mut self, module: &mut Asn1Module) -> Result<(), Error> {
+        // All modules share one name space. The same definition in more than one module is okay,
+        // different definitions of the same name are not.
+        for (k, text) in module.get_definition_texts() {
+            let known = self
+                .definition_texts
+                .entry(k.clone())
+                .or_insert_with(|| text.clone());
+            if known != text {
+                return Err(resolve_error!(
+                    "Definition '{}' in module '{}' differs from the one in another module!",
+                    k,
+                    module.get_module_name()
+                ));
+            }
+        }
+
         // We need to first get Classes in the current module - resolved
         self.resolve_classes_in_current_module(module);
 
-- 
2.43.0


From ab46df833f41f907c80294e25fe6249119c5ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 23/43] fix: report types whose generated names collide

---
 asn-compiler/src/generator/int.rs | 33 ++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index b0677fe..5e2cc17 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -1,7 +1,9 @@
 //! Code Generation module
 
+use std::collections::HashSet;
+
 use heck::{ToShoutySnakeCase, ToSnakeCase};
-use proc_macro2::{Ident, Literal, Span, TokenStream};
+use proc_macro2::{Ident, Literal, Span, TokenStream, TokenTree};
 
 use quote::quote;
 
@@ -55,6 +57,19 @@ impl Generator {
             items.push(aux.clone())
         }
 
+        // Names of inner types are derived, they should not be taken by another type.
+        let mut names = HashSet::new();
+        for item in &items {
+            for name in get_item_names(item) {
+                if !names.insert(name.clone()) {
+                    return Err(code_generate_error!(
+                        "More than one type is to be generated as '{}'!",
+                        name
+                    ));
+                }
+            }
+        }
+
         self.items.extend(items);
 
         Ok(self
@@ -144,6 +159,22 @@ impl Generator {
     }
 }
 
+// Names of the types that are declared by the given item.
+fn get_item_names(item: &TokenStream) -> Vec<String> {
+    let tokens = item.clone().into_iter().collect::<Vec<TokenTree>>();
+    tokens
+        .windows(2)
+        .filter_map(|w| match w {
+            [TokenTree::Ident(keyword), TokenTree::Ident(name)]
+                if *keyword == "struct" || *keyword == "enum" || *keyword == "type" =>
+            {
+                Some(name.to_string())
+            }
+            _ => None,
+        })
+        .collect()
+}
+
 fn capitalize_first(input: &str) -> String {
     if !input.is_empty() {
         let mut input = input.to_string();
-- 
2.43.0


From 17fefd5324147ff779b293ec5742eb45020a2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:59 +0000
Subject: [PATCH 24/43] fix: importing a symbol that its module does not have
 is an error

---
 asn-compiler/src/compiler.rs                  | 23 ++++++++++++++-----
 asn-compiler/src/parser/asn/structs/module.rs |  5 ++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index e6f3641..d8bf26b 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -126,12 +126,23 @@ impl Asn1Compiler {
         for (_, module) in self.modules.iter() {
             for (import, module_name) in module.get_imported_defs() {
                 let target = self.modules.get(module_name.name_as_str());
-                if target.is_none() {
-                    return Err(resolve_error!(
-                        "Module '{}', corresponding to definition '{}' not found!",
-                        module_name.name_as_str(),
-                        import
-                    ));
+                match target {
+                    None => {
+                        return Err(resolve_error!(
+                            "Module '{}', corresponding to definition '{}' not found!",
+                            module_name.name_as_str(),
+                            import
+                        ));
+                    }
+                    Some(target) => {
+                        if !target.has_symbol(import) {
+                            return Err(resolve_error!(
+                                "Definition '{}' not found in Module '{}'!",
+                                import,
+                                module_name.name_as_str()
+                            ));
+                        }
+                    }
                 }
             }
         }
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index fdb2569..7a51ff0 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -145,6 +145,11 @@ impl Asn1Module {
         &self.definitions
     }
 
+    // Whether the given name is defined in (or imported into) the module.
+    pub(crate) fn has_symbol(&self, name: &str) -> bool {
+        self.definitions.contains_key(name) || self.imports.contains_key(name)
+    }
+
     #[inline(always)]
     pub(crate) fn get_definition_mut(&mut self, key: &str) -> Option<&mut Asn1Definition> {
         self.definitions.get_mut(key)
-- 
2.43.0


From 2a5603c1186ec15a89e3b147104792efe6ca02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:07 +0000
Subject: [PATCH 25/43] fix: never take unformatted or incomplete code for the
 output of rustfmt

---
 asn-compiler/src/compiler.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index d8bf26b..1a36239 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -102,23 +102,22 @@ impl Asn1Compiler {
         let mut child_stdout = child.stdout.take().unwrap();
 
         let code = code.to_owned();
-        let stdin_handle =
-            ::std::thread::spawn(move || match child_stdin.write_all(code.as_bytes()) {
-                Ok(_) => code,
-                Err(_) => "write error in rustfmt".to_owned(),
-            });
+        let stdin_handle = ::std::thread::spawn(move || child_stdin.write_all(code.as_bytes()));
 
         let mut output = vec![];
         io::copy(&mut child_stdout, &mut output).map_err(|e| resolve_error!("{:#?}", e))?;
 
         let status = child.wait().map_err(|e| resolve_error!("{:#?}", e))?;
 
-        match String::from_utf8(output) {
-            Ok(formatted_output) => match status.code() {
-                Some(0) => Ok(formatted_output.to_owned()),
-                _ => Err(resolve_error!("`rustfmt` failed to write some bindings.")),
-            },
-            _ => Ok(stdin_handle.join().unwrap().to_owned()),
+        // Everything has to reach `rustfmt` or else it's not the complete bindings that it wrote.
+        match stdin_handle.join() {
+            Ok(written) => written.map_err(|e| resolve_error!("{:#?}", e))?,
+            Err(_) => return Err(resolve_error!("Failed to write to `rustfmt`.")),
+        }
+
+        match status.code() {
+            Some(0) => String::from_utf8(output).map_err(|e| resolve_error!("{:#?}", e)),
+            _ => Err(resolve_error!("`rustfmt` failed to write some bindings.")),
         }
     }
 
-- 
2.43.0


From e3591b2a54a8a543cc88a8dfc72b973ec93c065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 26/43] fix: the upper bound of single values and ranges
 together is the larger one

---
 asn-compiler/src/resolver/asn/structs/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..9f50ffd 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -44,7 +44,7 @@ impl ConstraintValues {
             None => ranges_max,
             Some(vals_max) => match ranges_max {
                 None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
+                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
             },
         }
     }
-- 
2.43.0


From 9614b435c1c3db073971c2b0cddcc59efc72605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 27/43] fix: types for INTEGERs with negative values have room
 for the sign

---
 asn-compiler/src/resolver/asn/types/base/integer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..71bd087 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -37,9 +37,10 @@ impl Asn1ResolvedInteger {
         let bit_width = if base.signed {
             let min = value_set.root_values.min().unwrap();
             let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
+            // Bits other than the sign bit.
+            let bits_needed_max = 128 - std::cmp::max(max, !max).leading_zeros();
+            let bits_needed_min = 128 - (!min).leading_zeros();
+            std::cmp::max(bits_needed_min, bits_needed_max) + 1
         } else if value_set.root_values.min().is_none() {
             8_u32
         } else {
-- 
2.43.0


From 51e1659d161a56ff2081ec35e2934f0f94b4beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 28/43] fix: intersect the value sets of a constraint

---
 .../resolver/asn/structs/types/constraints.rs | 25 +++++++++++++++++++
 .../src/resolver/asn/types/constraints.rs     | 19 +++++---------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 9f50ffd..9772ce5 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -21,6 +21,31 @@ impl ConstraintValues {
         self.values.extend(other.values.clone());
     }
 
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let in_ranges = |v: &i128, ranges: &[Range<i128>]| ranges.iter().any(|r| r.contains(v));
+        let mut result = Self::new();
+        for v in &self.values {
+            if other.values.contains(v) || in_ranges(v, &other.ranges) {
+                result.values.push(*v);
+            }
+        }
+        for v in &other.values {
+            if in_ranges(v, &self.ranges) {
+                result.values.push(*v);
+            }
+        }
+        for r in &self.ranges {
+            for o in &other.ranges {
+                let start = std::cmp::max(r.start, o.start);
+                let end = std::cmp::min(r.end, o.end);
+                if start < end {
+                    result.ranges.push(Range { start, end });
+                }
+            }
+        }
+        result
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.values.is_empty() && self.ranges.is_empty()
     }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..137486d 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -238,22 +238,15 @@ impl IntersectionSet {
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
         let mut value_set = ConstraintValues::new();
-        for element in &self.elements {
+        for (i, element) in self.elements.iter().enumerate() {
             let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
+            if i == 0 {
                 value_set.append(&element_set);
             } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
+                value_set = value_set.intersection(&element_set);
+                if value_set.is_empty() {
+                    return Err(constraint_error!("No value is left in '{:#?}'", self));
+                }
             }
         }
         Ok(value_set)
-- 
2.43.0


From b127a30cd7d777948bfc061d34407a624aab46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:21 +0000
Subject: [PATCH 29/43] fix: components with a DEFAULT value are optional on
 the wire

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..4c87c0a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -106,7 +106,8 @@ fn resolve_sequence_type(
         };
         let seq_component = ResolvedSeqComponent {
             component,
-            optional: c.optional,
+            // A component with a DEFAULT value has a presence bit as well.
+            optional: c.optional || c._default.is_some(),
             class_field_type: None,
             key_field: false,
         };
-- 
2.43.0


From f855f5fc8a359929f3c33e16e20cda3796442508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 30/43] fix: object sets keep objects with literal identifiers
 and types that are not references

---
 .../src/resolver/asn/types/constructed.rs     | 12 ++--
 asn-compiler/src/resolver/asn/types/ioc.rs    | 58 ++++++++++---------
 asn-compiler/src/resolver/asn/values.rs       |  4 +-
 3 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 4c87c0a..96c0a00 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -266,13 +266,11 @@ fn get_seq_component_for_object_set(
     for (key, object) in &objects.lookup_table {
         if let ResolvedObjectSetElement::Object(ref o) = object {
             let field_ob = o.fields.get(fieldref);
-            if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
-                if let Some(Asn1ResolvedType::Reference(ref _tyid)) = ty {
-                    types.insert(
-                        (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.as_ref().unwrap().clone()),
-                    );
-                }
+            if let Some(ResolvedFieldSpec::Type { ty: Some(ty) }) = field_ob {
+                types.insert(
+                    (key.1.clone(), key.0.clone()),
+                    (key.0.clone(), ty.clone()),
+                );
             }
         }
     }
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..5582650 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -105,22 +105,8 @@ pub(crate) fn resolve_object_set(
                                             {
                                                 decoder_ty.replace(typeref.clone());
                                                 let value = value.as_ref().unwrap();
-                                                if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    let v = resolver.resolved_defs.get(s).unwrap();
-
-                                                    if let Asn1ResolvedDefinition::Value(ref v) = v
-                                                    {
-                                                        // Get the actual Value - Usually this value is an
-                                                        // Integer Value. This Value is to be used by the
-                                                        // decoder.
-                                                        let v = format!(
-                                                            "{}",
-                                                            v.get_base_integer_value().unwrap()
-                                                        );
-                                                        lookup_table
-                                                            .insert((v, s.clone()), element);
-                                                    }
-                                                }
+                                                let key = lookup_key(value, resolver)?;
+                                                lookup_table.insert(key, element);
                                             }
                                         }
                                     }
@@ -149,18 +135,8 @@ pub(crate) fn resolve_object_set(
                                 {
                                     decoder_ty.replace(typeref.clone());
                                     let value = value.as_ref().unwrap();
-                                    if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        let v = resolver.resolved_defs.get(s).unwrap();
-
-                                        if let Asn1ResolvedDefinition::Value(ref v) = v {
-                                            // Get the actual Value - Usually this value is an
-                                            // Integer Value. This Value is to be used by the
-                                            // decoder.
-                                            let v =
-                                                format!("{}", v.get_base_integer_value().unwrap());
-                                            lookup_table.insert((v, s.clone()), element);
-                                        }
-                                    }
+                                    let key = lookup_key(value, resolver)?;
+                                    lookup_table.insert(key, element);
                                 }
                             }
                         }
@@ -179,6 +155,32 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// Returns the actual Value of an identifier (usually this value is an Integer Value. This Value is
+// to be used by the decoder) and it's name.
+fn lookup_key(value: &Asn1ResolvedValue, resolver: &Resolver) -> Result<(String, String), Error> {
+    let mut actual = value;
+    while let Asn1ResolvedValue::Reference(ref s) = actual {
+        actual = match resolver.resolved_defs.get(s) {
+            Some(Asn1ResolvedDefinition::Value(ref v)) => v,
+            _ => return Err(resolve_error!("Value '{}' not found!", s)),
+        };
+    }
+    let number = match actual.get_base_integer_value() {
+        Some(v) => v,
+        None => {
+            return Err(resolve_error!(
+                "Only INTEGER values can be used as an identifier! Found '{:#?}'",
+                value
+            ))
+        }
+    };
+    let name = match value {
+        Asn1ResolvedValue::Reference(ref s) => s.clone(),
+        _ => format!("id-{}", number),
+    };
+    Ok((number.to_string(), name))
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 08914f1..1946c47 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -25,7 +25,9 @@ pub(crate) fn resolve_value(
             match typeref {
                 Asn1ResolvedType::Base(ref b) => match b {
                     ResolvedBaseType::Integer(ref _i) => {
-                        let value = value.parse::<BaseInteger>().unwrap();
+                        let value = value
+                            .parse::<BaseInteger>()
+                            .map_err(|_| resolve_error!("'{}' is not an INTEGER value!", value))?;
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
                             Asn1ResolvedIntegerValue {
                                 typeref: typeref.clone(),
-- 
2.43.0


From 9ca5a0af180919d76a9cb7175d83dc30ffee20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 31/43] fix: take the components of an information object
 container from its class: empty object sets gave empty structs, other
 components were dropped

---
 .../src/resolver/asn/types/constructed.rs     | 219 ++++++++++--------
 1 file changed, 120 insertions(+), 99 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 96c0a00..c0ba0d0 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -3,7 +3,8 @@ use std::collections::BTreeMap;
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component, SeqComponent},
+    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, SeqComponent},
+    ioc::ObjectClassFieldSpec,
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
@@ -148,114 +149,134 @@ fn resolve_sequence_classfield_components(
     seq: &Asn1TypeSequence,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
-    let mut all_components = vec![];
-    all_components.extend(seq.root_components.clone());
-    all_components.extend(
-        seq.additions
-            .clone()
-            .iter()
-            .map(|a| a.components.clone())
-            .flatten()
-            .collect::<Vec<SeqComponent>>(),
-    );
-    let all_components = all_components
-        .iter()
-        .map(|c| c.component.clone())
-        .collect::<Vec<Component>>();
-
-    if all_components.is_empty() {
-        // It's an Error to try to resolve Empty components with Class Field Ref
-        return Err(resolve_error!("Expected Sequence with at-least one ClassField Reference Component!. Found Empty Sequences"));
-    }
-
     // Get the Object Set first It's the Same Object Set for all components. So if we get the first
     // one that's good enough!
-    let ty = &all_components[0].ty;
-    let constraint = &ty.constraints.as_ref().unwrap()[0];
+    let constraint = seq
+        .root_components
+        .iter()
+        .filter(|c| {
+            matches!(
+                c.component.ty.kind,
+                Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. })
+            )
+        })
+        .find_map(|c| c.component.ty.constraints.as_ref()?.first());
 
-    let set_reference = constraint.get_set_reference()?;
+    let set_reference = match constraint {
+        Some(c) => c.get_set_reference()?,
+        None => {
+            return Err(resolve_error!(
+                "Expected Sequence with at-least one ClassField Reference Component!"
+            ))
+        }
+    };
 
-    let objects = resolver.resolved_defs.get(&set_reference);
-    if objects.is_none() {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
-    }
-    if let Some(Asn1ResolvedDefinition::ObjectSet(ref set)) = objects {
-        let objects = &set.objects;
-        let components =
-            resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
-        Ok(Asn1ResolvedType::Constructed(
-            ResolvedConstructedType::Sequence {
-                name: None,
-                extensible: seq.extensible,
-                components,
-            },
-        ))
-    } else {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
+    let objects = match resolver.resolved_defs.get(&set_reference) {
+        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => set.objects.clone(),
+        _ => {
+            return Err(resolve_error!(
+                "Object Set '{}' not resolved yet!",
+                set_reference
+            ))
+        }
+    };
+
+    let mut components = vec![];
+    for c in &seq.root_components {
+        components.push(resolve_seq_component_for_objects(
+            c,
+            &set_reference,
+            &objects,
+            resolver,
+        )?);
     }
+
+    Ok(Asn1ResolvedType::Constructed(
+        ResolvedConstructedType::Sequence {
+            name: None,
+            extensible: seq.extensible,
+            components,
+        },
+    ))
 }
 
-fn resolve_seq_components_for_objects(
-    input_components: &[Component],
+// Resolve a component of a sequence that has ClassField Reference components.
+//
+// The type of a component is given by the Class, regardless of the objects in the Object Set. (The
+// Object Set can as well be empty, but it's extensible then and there can be objects later on.)
+fn resolve_seq_component_for_objects(
+    seq_component: &SeqComponent,
     set_reference: &str,
     objects: &ResolvedObjectSet,
-) -> Result<Vec<ResolvedSeqComponent>, Error> {
-    if objects.elements.is_empty() {
-        return Ok(vec![]);
-    }
-    let first = &objects.elements[0];
-    let mut result = vec![];
-    for component in input_components {
-        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { fieldref, .. }) =
-            &component.ty.kind
-        {
-            if let ResolvedObjectSetElement::Object(ref o) = first {
-                let spec = o.fields.get(fieldref);
-                if let Some(ResolvedFieldSpec::FixedTypeValue { typeref, .. }) = spec {
-                    let constraint = &component.ty.constraints.as_ref().unwrap()[0];
-                    let comp_spec = constraint.get_comp_reference();
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: typeref.clone(),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
-                        key_field: comp_spec.is_none(),
-                    };
-                    result.push(seq_component);
-                } else {
-                    let types = get_seq_component_for_object_set(fieldref, objects)?;
-                    let ty = ResolvedSetType {
-                        setref: set_reference.to_string(),
-                        types,
-                    };
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: Asn1ResolvedType::Set(ty),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::Type),
-                        key_field: false,
-                    };
-                    result.push(seq_component);
-                }
-            }
+    resolver: &mut Resolver,
+) -> Result<ResolvedSeqComponent, Error> {
+    let component = &seq_component.component;
+    let optional = seq_component.optional || seq_component._default.is_some();
+
+    let (classref, fieldref) = match &component.ty.kind {
+        Asn1TypeKind::Reference(Asn1TypeReference::ClassField { classref, fieldref }) => {
+            (classref, fieldref)
         }
-    }
-    // Only add to the result if Every Component in the Input is also found in the Object. This
-    // is mainly true for optional components. If Optional Components are missing, They should
-    // not be part of the generated Set.
-    Ok(result)
+        _ => {
+            return Ok(ResolvedSeqComponent {
+                component: ResolvedComponent {
+                    id: component.id.clone(),
+                    ty: resolve_type(&component.ty, resolver)?,
+                },
+                optional,
+                class_field_type: None,
+                key_field: false,
+            })
+        }
+    };
+
+    let class = resolver
+        .classes
+        .get(classref)
+        .and_then(|c| c.get_inner_class());
+    let field = class.and_then(|c| c.classref.fields.get(fieldref).cloned());
+    let (ty, class_field_type, key_field) = match field {
+        Some(ObjectClassFieldSpec::FixedTypeValue { field_type, .. }) => {
+            let constraint = component.ty.constraints.as_ref().and_then(|c| c.first());
+            let key_field = match constraint {
+                Some(c) => c.get_comp_reference().is_none(),
+                None => false,
+            };
+            (
+                resolve_type(&field_type, resolver)?,
+                ClassFieldComponentType::FixedTypeValue,
+                key_field,
+            )
+        }
+        Some(ObjectClassFieldSpec::Type { .. }) => {
+            let types = get_seq_component_for_object_set(fieldref, objects)?;
+            (
+                Asn1ResolvedType::Set(ResolvedSetType {
+                    setref: set_reference.to_string(),
+                    types,
+                }),
+                ClassFieldComponentType::Type,
+                false,
+            )
+        }
+        None => {
+            return Err(resolve_error!(
+                "Field '{}' not found in Class '{}'!",
+                fieldref,
+                classref
+            ))
+        }
+    };
+
+    Ok(ResolvedSeqComponent {
+        component: ResolvedComponent {
+            id: component.id.clone(),
+            ty,
+        },
+        optional,
+        class_field_type: Some(class_field_type),
+        key_field,
+    })
 }
 
 fn get_seq_component_for_object_set(
-- 
2.43.0


From 7bed059bb1ba600f507ad9af3f52ad9b9e3c9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:04 +0000
Subject: [PATCH 32/43] fix: keep the additions of a CHOICE in order

---
 .../src/parser/asn/types/constructed/choice.rs         | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 395367d..ed86f2f 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -40,8 +40,8 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
         if let Some(c) = component {
             // We have a component that needs to be added in the `additions` list and not in the
             // `root_components`. All such components that are not part of `ChoiceAdditionGroup`
-            // (ie. one without `version`, are pulled into one `ChoiceAdditionGroup` with version
-            // as `None`. And are added separately.
+            // (ie. one without `version`, are pulled into a `ChoiceAdditionGroup` with version
+            // as `None`. Additions are kept in their order, it determines their index.
             if extension_markers > 0 {
                 no_ver_additions_components.push(c);
             } else {
@@ -58,6 +58,12 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             } else {
                 let (addition_group, addition_group_consumed) =
                     parse_choice_addition_group(&tokens[consumed..])?;
+                if !no_ver_additions_components.is_empty() {
+                    additions.push(ChoiceAdditionGroup {
+                        _version: None,
+                        components: std::mem::take(&mut no_ver_additions_components),
+                    });
+                }
                 additions.push(addition_group);
                 consumed += addition_group_consumed;
             }
-- 
2.43.0


From f635376244fcb934f73876b87f622a9c646c533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 33/43] fix: components of one sequence tied to different
 object sets are an error, all but the first set were ignored

---
 asn-compiler/src/resolver/asn/types/constructed.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index c0ba0d0..f6c817a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -183,6 +183,18 @@ fn resolve_sequence_classfield_components(
 
     let mut components = vec![];
     for c in &seq.root_components {
+        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) = c.component.ty.kind {
+            for constraint in c.component.ty.constraints.iter().flatten() {
+                let other = constraint.get_set_reference()?;
+                if other != set_reference {
+                    return Err(resolve_error!(
+                        "Object Sets '{}' and '{}' in one Sequence are not supported!",
+                        set_reference,
+                        other
+                    ));
+                }
+            }
+        }
         components.push(resolve_seq_component_for_objects(
             c,
             &set_reference,
-- 
2.43.0


From f61f09e56af70009b9694d00671e8db1411ff30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:52 +0000
Subject: [PATCH 34/43] fix: references nobody looks at must exist as well
 (governors, extension additions, unused parameterized types)

---
 asn-compiler/src/parser/asn/defs.rs         | 15 +++++----
 asn-compiler/src/parser/asn/structs/defs.rs |  4 ++-
 asn-compiler/src/resolver/int.rs            | 36 +++++++++++++++++++++
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 5e5fc21..d104a96 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -369,7 +369,7 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
     let mut params = vec![];
     loop {
         // Try to parse the Governer: DummyReference if fails, whatever remains is a Type or Class
-        let (_governer, dummyref) = if expect_tokens(
+        let (governer, dummyref) = if expect_tokens(
             &tokens[consumed..],
             &[
                 &[
@@ -382,19 +382,22 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
             ],
         )? {
             let (g, r) = (&tokens[consumed], &tokens[consumed + 2]);
-            let _governer = if g.is_object_class_reference() {
+            let builtin = g.is_asn_builtin_type();
+            let governer = if g.is_object_class_reference() {
                 ParamGoverner {
                     name: g.text.clone(),
                     kind: GovernerKind::Class,
+                    builtin,
                 }
             } else {
                 ParamGoverner {
                     name: g.text.clone(),
                     kind: GovernerKind::Type,
+                    builtin,
                 }
             };
             let dummyref = if r.is_value_reference() {
-                if _governer.kind == GovernerKind::Class {
+                if governer.kind == GovernerKind::Class {
                     ParamDummyReference {
                         name: r.text.clone(),
                         _kind: DummyReferenceKind::Object,
@@ -405,7 +408,7 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
                         _kind: DummyReferenceKind::Value,
                     }
                 }
-            } else if _governer.kind == GovernerKind::Class {
+            } else if governer.kind == GovernerKind::Class {
                 ParamDummyReference {
                     name: r.text.clone(),
                     _kind: DummyReferenceKind::ObjectSet,
@@ -417,7 +420,7 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
                 }
             };
             consumed += 3;
-            (Some(_governer), dummyref)
+            (Some(governer), dummyref)
         } else if expect_one_of_tokens(
             &tokens[consumed..],
             &[Token::is_type_reference, Token::is_object_class_reference],
@@ -448,7 +451,7 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
             ));
         };
         let param = DefinitionParam {
-            _governer,
+            governer,
             dummyref,
         };
         params.push(param);
diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index f9f4ca9..f02344a 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -213,6 +213,8 @@ pub(crate) enum GovernerKind {
 pub(crate) struct ParamGoverner {
     pub(crate) name: String,
     pub(crate) kind: GovernerKind,
+    // A type like INTEGER, which no module defines.
+    pub(crate) builtin: bool,
 }
 
 #[derive(Debug, Clone)]
@@ -239,6 +241,6 @@ pub(crate) struct DefinitionParams {
 
 #[derive(Debug, Clone)]
 pub(crate) struct DefinitionParam {
-    pub(crate) _governer: Option<ParamGoverner>,
+    pub(crate) governer: Option<ParamGoverner>,
     pub(crate) dummyref: ParamDummyReference,
 }
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index c6c15c9..e18a1cf 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -71,6 +71,8 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
+        self.check_references(module)?;
+
         let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
@@ -119,6 +121,40 @@ impl Resolver {
             .collect::<Vec<(&String, &Asn1ResolvedType)>>()
     }
 
+    // Not every reference is looked at when a definition is resolved (eg. those in a parameterized
+    // definition that is not used, in extension additions or governors), so make sure that all of
+    // them refer to something.
+    fn check_references(&self, module: &Asn1Module) -> Result<(), Error> {
+        for (k, def) in module.get_definitions() {
+            let params = match def.params {
+                Some(ref p) => &p.ordered[..],
+                None => &[],
+            };
+            let governers = params
+                .iter()
+                .filter_map(|p| p.governer.as_ref())
+                .filter(|g| !g.builtin)
+                .map(|g| g.name.clone());
+            for r in def.dependent_references().into_iter().chain(governers) {
+                if r.starts_with(|c: char| c.is_ascii_uppercase())
+                    && !params.iter().any(|p| p.dummyref.name == r)
+                    && !module.has_symbol(&r)
+                    && !self.resolved_defs.contains_key(&r)
+                    && !self.parameterized_defs.contains_key(&r)
+                    && !self.classes.contains_key(&r)
+                {
+                    return Err(resolve_error!(
+                        "'{}' in Module '{}' refers to '{}', which is not defined!",
+                        k,
+                        module.get_module_name(),
+                        r
+                    ));
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) {
         for (k, def) in module.get_definitions() {
             if def.is_class_assignment() {
-- 
2.43.0


From d7a2d97efd497d872e6536ceb94c96ea0b0ea30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 35/43] fix: MIN, MAX, TRUE and FALSE are not references

---
 asn-compiler/src/resolver/int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index e18a1cf..932c210 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -137,6 +137,7 @@ impl Resolver {
                 .map(|g| g.name.clone());
             for r in def.dependent_references().into_iter().chain(governers) {
                 if r.starts_with(|c: char| c.is_ascii_uppercase())
+                    && !matches!(r.as_str(), "MIN" | "MAX" | "TRUE" | "FALSE")
                     && !params.iter().any(|p| p.dummyref.name == r)
                     && !module.has_symbol(&r)
                     && !self.resolved_defs.contains_key(&r)
-- 
2.43.0


From 69579ee1897619b939567d982605bfc1f953f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 36/43] fix: the items of an ENUMERATED with numbers were lost,
 as were the bits of more than 256 items

---
 .../src/resolver/asn/types/base/enumerated.rs | 61 +++++++++++++++----
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..e59550f 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -25,21 +25,52 @@ impl Asn1ResolvedEnumerated {
 
         // FIXME: TODO Constraints
 
+        // X.680 20.3: Items without a number get the lowest numbers that are not taken.
         let mut root_values = BTreeSet::<i128>::new();
         for v in &e.root_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                root_values.insert(parsed);
+            match v.value {
+                Some(NamedValue::Number(ref s)) => {
+                    let parsed = s.parse::<i128>().map_err(|_| {
+                        resolve_error!("'{}' is not a number for the item '{}'!", s, v.name)
+                    })?;
+                    if !root_values.insert(parsed) {
+                        return Err(resolve_error!(
+                            "More than one item of the ENUMERATED has the number {}!",
+                            parsed
+                        ));
+                    }
+                }
+                Some(NamedValue::ValueRef(ref r)) => {
+                    return Err(resolve_error!(
+                        "Value reference '{}' for the item '{}' is not supported!",
+                        r,
+                        v.name
+                    ));
+                }
+                None => {}
             }
         }
-        // TODO: Support all crazy Enumerations.
-        if root_values.is_empty() {
-            for (value, v) in e.root_values.iter().enumerate() {
-                base.named_root_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                root_values.insert(value.try_into().unwrap());
-            }
+        let mut items = vec![];
+        let mut next = 0;
+        for v in &e.root_values {
+            let number = match v.value {
+                Some(NamedValue::Number(ref s)) => s.parse::<i128>().unwrap(),
+                _ => {
+                    while root_values.contains(&next) {
+                        next += 1;
+                    }
+                    root_values.insert(next);
+                    next
+                }
+            };
+            items.push((number, v.name.clone()));
+        }
+
+        // X.691 13.1: An item is known by its index in the order of the numbers.
+        items.sort();
+        for (index, (_, name)) in items.into_iter().enumerate() {
+            base.named_root_values
+                .push((name, index.try_into().unwrap()));
         }
 
         let mut ext_values = BTreeSet::<i128>::new();
@@ -59,9 +90,13 @@ impl Asn1ResolvedEnumerated {
             }
         }
 
-        // FIXME: Following is hard-coded
+        // What holds an index
         base.signed = false;
-        base.bits = 8;
+        base.bits = if base.named_root_values.len() <= 256 {
+            8
+        } else {
+            16
+        };
 
         let _ = base.root_values.replace(root_values);
         let _ = base.ext_values.replace(ext_values);
-- 
2.43.0


From 1c98f9d2416a6afbd3d227022ec51b637f7e927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 37/43] fix: size constraints with an outer extension marker or
 a union, and constraints that follow one another, were not applied

---
 .../resolver/asn/structs/types/constraints.rs | 24 +++++
 .../src/resolver/asn/types/base/bitstring.rs  | 15 +--
 .../src/resolver/asn/types/base/charstring.rs | 21 ++--
 .../resolver/asn/types/base/octetstring.rs    | 21 +---
 .../src/resolver/asn/types/constraints.rs     | 96 +++++++++++--------
 asn-compiler/src/resolver/asn/types/int.rs    | 26 ++++-
 6 files changed, 116 insertions(+), 87 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 9772ce5..a130206 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -2,6 +2,8 @@
 
 use std::ops::Range;
 
+use crate::error::Error;
+
 #[derive(Debug, Clone)]
 pub(crate) struct ConstraintValues {
     pub(crate) ranges: Vec<Range<i128>>,
@@ -46,6 +48,18 @@ impl ConstraintValues {
         result
     }
 
+    pub(crate) fn non_empty_intersection(&self, other: &Self) -> Result<Self, Error> {
+        let result = self.intersection(other);
+        if result.is_empty() {
+            return Err(constraint_error!(
+                "No value is left of '{:#?}' in '{:#?}'",
+                self,
+                other
+            ));
+        }
+        Ok(result)
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.values.is_empty() && self.ranges.is_empty()
     }
@@ -84,4 +98,14 @@ impl Asn1ConstraintValueSet {
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
+
+    // A constraint that follows another one. Only the last one's extension marker counts.
+    pub(crate) fn constrained_by(&self, next: &Self) -> Result<Self, Error> {
+        Ok(Self {
+            root_values: self
+                .root_values
+                .non_empty_intersection(&next.root_values)?,
+            additional_values: next.additional_values.clone(),
+        })
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..8c34da5 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -19,19 +19,8 @@ impl Asn1ResolvedBitString {
     ) -> Result<Asn1ResolvedBitString, Error> {
         let mut base = Asn1ResolvedBitString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // `CONTAINING` does not limit the size, TODO: Handle this.
+        base.size = ty.get_size_valueset_from_constraints(resolver)?;
 
         if b.named_bits.is_some() {
             let mut named_values = HashMap::new();
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 42f279b..3e6bd64 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -16,21 +16,14 @@ impl Asn1ResolvedCharacterString {
         if let Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString { str_type }) = &ty.kind {
             base.str_type = str_type.clone();
         }
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    return Err(constraint_error!(
-                        "Expected a Size Constraint, Found '{:#?}'",
-                        constraint
-                    ));
-                }
+        if let Some(constraints) = ty.constraints.as_ref().filter(|c| !c.is_empty()) {
+            if constraints[0].get_maybe_size_valueset(resolver)?.is_none() {
+                return Err(constraint_error!(
+                    "Expected a Size Constraint, Found '{:#?}'",
+                    constraints[0]
+                ));
             }
+            base.size = ty.get_size_valueset_from_constraints(resolver)?;
         }
         Ok(base)
     }
diff --git a/asn-compiler/src/resolver/asn/types/base/octetstring.rs b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
index 0ed52b6..18dd6fb 100644
--- a/asn-compiler/src/resolver/asn/types/base/octetstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
@@ -11,21 +11,10 @@ impl Asn1ResolvedOctetString {
         ty: &Asn1Type,
         resolver: &Resolver,
     ) -> Result<Asn1ResolvedOctetString, Error> {
-        let mut base = Asn1ResolvedOctetString::default();
-
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
-        Ok(base)
+        // `CONTAINING` does not limit the size, TODO: Handle this.
+        Ok(Asn1ResolvedOctetString {
+            size: ty.get_size_valueset_from_constraints(resolver)?,
+            ..Default::default()
+        })
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 137486d..3e1702f 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -107,20 +107,15 @@ impl Asn1Constraint {
         true
     }
 
-    // Returns whether the constraint is a 'size' constraint.
-    pub(crate) fn is_size_constraint(&self) -> bool {
+    /// Sizes that the constraint permits, `None` if the constraint does not limit the size.
+    pub(crate) fn get_maybe_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
         if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
-            }
+            e.get_size_valueset(resolver)
         } else {
-            false
+            Ok(None)
         }
     }
 
@@ -128,32 +123,9 @@ impl Asn1Constraint {
         &self,
         resolver: &Resolver,
     ) -> Result<Asn1ConstraintValueSet, Error> {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
-                        }
-                        _ => Err(constraint_error!(
-                            "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
-                }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
-            }
-        } else {
-            Err(constraint_error!(
-                "The Constraint for the type is not a size Constraint."
-            ))
-        }
+        self.get_maybe_size_valueset(resolver)?.ok_or_else(|| {
+            constraint_error!("The Constraint for the type is not a size Constraint.")
+        })
     }
 }
 
@@ -176,6 +148,49 @@ impl ElementSet {
         }
     }
 
+    // Sizes are limited only if every part of a union limits them.
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut root_values = ConstraintValues::new();
+        let mut extensible = self.additional_elements.is_some();
+        for intersection in self.get_inner_elements() {
+            let mut sizes: Option<ConstraintValues> = None;
+            for element in &intersection.elements {
+                let element_sizes = match element {
+                    Elements::Subtype(SubtypeElements::SizeConstraint(ref e)) => {
+                        Some(e.get_integer_valueset(resolver)?)
+                    }
+                    Elements::Subtype(_) => None,
+                    Elements::Set(ref e) => e.get_size_valueset(resolver)?,
+                };
+                if let Some(element_sizes) = element_sizes {
+                    extensible |= element_sizes.has_extension();
+                    let values = match sizes {
+                        None => element_sizes.root_values,
+                        Some(s) => s.non_empty_intersection(&element_sizes.root_values)?,
+                    };
+                    sizes = Some(values);
+                }
+            }
+            match sizes {
+                None => return Ok(None),
+                Some(s) => root_values.append(&s),
+            }
+        }
+
+        let additional_values = if extensible {
+            Some(ConstraintValues::new())
+        } else {
+            None
+        };
+        Ok(Some(Asn1ConstraintValueSet {
+            root_values,
+            additional_values,
+        }))
+    }
+
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
         let mut root_values = ConstraintValues::new();
         for element in self.get_inner_elements() {
@@ -243,10 +258,7 @@ impl IntersectionSet {
             if i == 0 {
                 value_set.append(&element_set);
             } else {
-                value_set = value_set.intersection(&element_set);
-                if value_set.is_empty() {
-                    return Err(constraint_error!("No value is left in '{:#?}'", self));
-                }
+                value_set = value_set.non_empty_intersection(&element_set)?;
             }
         }
         Ok(value_set)
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..e756770 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -22,6 +22,23 @@ impl Asn1Type {
     // Referenced Type, it should be possible to 'resolve' the Reference to a proper
     // `Asn1ConstraintValueSet` else it's an error, we'll try to 'recursively' 'resolve' till we
     // get to a `Base` Type.
+    /// Sizes that the constraints permit, `None` if they do not limit the size.
+    pub(crate) fn get_size_valueset_from_constraints(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut value_set: Option<Asn1ConstraintValueSet> = None;
+        for constraint in self.constraints.iter().flatten() {
+            if let Some(next) = constraint.get_maybe_size_valueset(resolver)? {
+                value_set = match value_set {
+                    None => Some(next),
+                    Some(v) => Some(v.constrained_by(&next)?),
+                };
+            }
+        }
+        Ok(value_set)
+    }
+
     pub(crate) fn get_integer_valueset_from_constraint(
         &self,
         resolver: &Resolver,
@@ -29,8 +46,13 @@ impl Asn1Type {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+                let constraints = self.constraints.as_ref().unwrap();
+                let mut value_set = constraints[0].get_integer_valueset(resolver)?;
+                for constraint in &constraints[1..] {
+                    value_set =
+                        value_set.constrained_by(&constraint.get_integer_valueset(resolver)?)?;
+                }
+                Ok(value_set)
             }
             Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
                 Err(constraint_error!("Not Implemented!"))
-- 
2.43.0


From 23a27fffaeff3a22afb19454e7054bd6f5e849ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 38/43] fix: a type that is called Result kept the bindings
 from compiling

---
 codecs_derive/src/aper/bitstring.rs   | 4 ++--
 codecs_derive/src/aper/boolean.rs     | 4 ++--
 codecs_derive/src/aper/charstring.rs  | 4 ++--
 codecs_derive/src/aper/choice.rs      | 4 ++--
 codecs_derive/src/aper/enumerated.rs  | 4 ++--
 codecs_derive/src/aper/integer.rs     | 4 ++--
 codecs_derive/src/aper/null.rs        | 4 ++--
 codecs_derive/src/aper/octetstring.rs | 4 ++--
 codecs_derive/src/aper/oid.rs         | 4 ++--
 codecs_derive/src/aper/open.rs        | 4 ++--
 codecs_derive/src/aper/seq.rs         | 4 ++--
 codecs_derive/src/aper/seqof.rs       | 4 ++--
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/codecs_derive/src/aper/bitstring.rs b/codecs_derive/src/aper/bitstring.rs
index 17abf25..570b9e6 100644
--- a/codecs_derive/src/aper/bitstring.rs
+++ b/codecs_derive/src/aper/bitstring.rs
@@ -39,14 +39,14 @@ pub(super) fn generate_aper_codec_for_asn_bitstring(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_bitstring(data, #sz_lb, #sz_ub, #sz_ext)?;
                 Ok(Self(decoded))
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 asn1_codecs::aper::encode::encode_bitstring(data, #sz_lb, #sz_ub, #sz_ext, &self.0, false)
diff --git a/codecs_derive/src/aper/boolean.rs b/codecs_derive/src/aper/boolean.rs
index d19d939..2b00110 100644
--- a/codecs_derive/src/aper/boolean.rs
+++ b/codecs_derive/src/aper/boolean.rs
@@ -16,14 +16,14 @@ pub(super) fn generate_aper_codec_for_asn_boolean(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let value = asn1_codecs::aper::decode::decode_bool(data)?;
                 Ok(Self(value))
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 asn1_codecs::aper::encode::encode_bool(data, self.0)
diff --git a/codecs_derive/src/aper/charstring.rs b/codecs_derive/src/aper/charstring.rs
index 9e32e09..b40387b 100644
--- a/codecs_derive/src/aper/charstring.rs
+++ b/codecs_derive/src/aper/charstring.rs
@@ -112,14 +112,14 @@ pub(super) fn generate_aper_codec_for_asn_charstring(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::#decode_fn_name(data, #sz_lb, #sz_ub, #sz_ext)?;
                 Ok(Self(decoded))
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 asn1_codecs::aper::encode::#encode_fn_name(data, #sz_lb, #sz_ub, #sz_ext, &self.0, false)
diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index 4706881..d0c140f 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -26,7 +26,7 @@ pub(super) fn generate_aper_codec_for_asn_choice(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (idx, extended) = asn1_codecs::aper::decode::decode_choice_idx(data, #lb, #ub, #ext)?;
@@ -40,7 +40,7 @@ pub(super) fn generate_aper_codec_for_asn_choice(
                 }
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 match self {
diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index cf3fd8c..96e047b 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -39,7 +39,7 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
@@ -53,7 +53,7 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
                 Ok(Self(value))
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 asn1_codecs::aper::encode::encode_enumerated(data, #lb, #ub, #ext, self.0 as i128, false)
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 46be3a7..81492c4 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -39,7 +39,7 @@ pub(super) fn generate_aper_codec_for_asn_integer(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
@@ -48,7 +48,7 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 })?;
                 Ok(Self(value))
             }
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 asn1_codecs::aper::encode::encode_integer(data, #lb, #ub, #ext, self.0 as i128, false)
diff --git a/codecs_derive/src/aper/null.rs b/codecs_derive/src/aper/null.rs
index 4580bc5..354e289 100644
--- a/codecs_derive/src/aper/null.rs
+++ b/codecs_derive/src/aper/null.rs
@@ -16,13 +16,13 @@ pub(super) fn generate_aper_codec_for_asn_null(
 
             type Output = Self;
 
-            fn decode(_data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(_data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 Ok(Self{})
             }
 
-            fn encode(&self, _data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, _data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 Ok(())
diff --git a/codecs_derive/src/aper/octetstring.rs b/codecs_derive/src/aper/octetstring.rs
index 2e494cc..fe8c694 100644
--- a/codecs_derive/src/aper/octetstring.rs
+++ b/codecs_derive/src/aper/octetstring.rs
@@ -39,14 +39,14 @@ pub(super) fn generate_aper_codec_for_asn_octetstring(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_octetstring(data, #sz_lb, #sz_ub, #sz_ext)?;
                 Ok(Self(decoded))
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 asn1_codecs::aper::encode::encode_octetstring(data, #sz_lb, #sz_ub, #sz_ext, &self.0, false)
diff --git a/codecs_derive/src/aper/oid.rs b/codecs_derive/src/aper/oid.rs
index 04e2eca..e59d3a3 100644
--- a/codecs_derive/src/aper/oid.rs
+++ b/codecs_derive/src/aper/oid.rs
@@ -16,12 +16,12 @@ pub(super) fn generate_aper_codec_for_asn_object_identifier(
 
             type Output = Self;
 
-            fn decode(_data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(_data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 Err(asn1_codecs::aper::AperCodecError::new("Object Identifier Decode Not Supported!"))
             }
-            fn encode(&self, _data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, _data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 Err(asn1_codecs::aper::AperCodecError::new("Object Identifier Encode Not Supported!"))
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index b455554..8bc3933 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -41,7 +41,7 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let bytes = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
@@ -63,7 +63,7 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 }
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 #encode_tokens
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 81fd12a..acb0c3c 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -27,7 +27,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
@@ -40,7 +40,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
                 Ok(decoded)
             }
 
-            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 let mut bitmap = bitvec::bitvec![u8, bitvec::prelude::Msb0; 0; #opt_count];
diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index ecfc2f7..dfc77d6 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -40,7 +40,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (sz_lb, sz_ub): (Option<i128>, Option<i128>) = (#sz_lb, #sz_ub);
@@ -66,7 +66,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
                 Ok(Self(items))
             }
 
-            fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
+            fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
                 if #sz_ext {
-- 
2.43.0


From 47c39d592e81df19e9a0db7f8c97d00074bc09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 39/43] fix: the bindings of a CHOICE without alternatives did
 not compile

---
 codecs_derive/src/aper/choice.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index d0c140f..36ba923 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -21,6 +21,17 @@ pub(super) fn generate_aper_codec_for_asn_choice(
     }
     let (variant_decode_tokens, variant_encode_tokens) = variant_tokens.unwrap();
 
+    // There is no value to encode
+    let encode_tokens = if variant_encode_tokens.is_empty() {
+        quote! { match *self {} }
+    } else {
+        quote! {
+            match self {
+                #(#variant_encode_tokens)*
+            }
+        }
+    };
+
     let tokens = quote! {
 
         impl asn1_codecs::aper::AperCodec for #name {
@@ -43,9 +54,7 @@ pub(super) fn generate_aper_codec_for_asn_choice(
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> std::result::Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                match self {
-                    #(#variant_encode_tokens)*
-                }
+                #encode_tokens
             }
         }
     };
-- 
2.43.0


From ce46e3b997c673a23286d7380d4ae5027f6cd9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 40/43] fix: names of components and types that are Rust
 keywords

---
 asn-compiler/src/generator/int.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index 5e2cc17..cb465a4 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -81,10 +81,11 @@ impl Generator {
     }
 
     pub(crate) fn to_type_ident(&self, name: &str) -> Ident {
-        Ident::new(
-            &capitalize_first(name).replace("-", "_").replace(" ", "_"),
-            Span::call_site(),
-        )
+        let mut val = capitalize_first(name).replace("-", "_").replace(" ", "_");
+        if val == *"Self" {
+            val.push('_');
+        }
+        Ident::new(&val, Span::call_site())
     }
 
     pub(crate) fn to_const_ident(&self, name: &str) -> Ident {
@@ -95,6 +96,8 @@ impl Generator {
         let mut val = capitalize_first(name).to_snake_case();
         if val == *"type" {
             val = "typ".to_string()
+        } else if RUST_KEYWORDS.contains(&val.as_str()) {
+            val.push('_');
         }
         Ident::new(&val, Span::call_site())
     }
@@ -159,6 +162,15 @@ impl Generator {
     }
 }
 
+// Words that can not be the name of a field.
+const RUST_KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
 // Names of the types that are declared by the given item.
 fn get_item_names(item: &TokenStream) -> Vec<String> {
     let tokens = item.clone().into_iter().collect::<Vec<TokenTree>>();
-- 
2.43.0


From 46cd49e21f360bdb86e3821e8bd807d71ceedf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 41/43] fix: components, alternatives or items of the same name
 and types that shadow what the bindings use kept the bindings from compiling

---
 .../generator/asn/types/base/enumerated.rs    |  5 ++-
 .../generator/asn/types/constructed/choice.rs | 12 +++++--
 .../generator/asn/types/constructed/seq.rs    |  8 +++--
 asn-compiler/src/generator/asn/types/int.rs   |  2 +-
 asn-compiler/src/generator/int.rs             | 32 +++++++++++++++++++
 asn-compiler/src/generator/mod.rs             |  2 +-
 6 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/generator/asn/types/base/enumerated.rs b/asn-compiler/src/generator/asn/types/base/enumerated.rs
index e730207..f2e45f5 100644
--- a/asn-compiler/src/generator/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/generator/asn/types/base/enumerated.rs
@@ -5,7 +5,7 @@ use quote::quote;
 
 use crate::error::Error;
 
-use crate::generator::Generator;
+use crate::generator::{check_names_differ, Generator};
 use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
 
 impl Asn1ResolvedEnumerated {
@@ -42,8 +42,10 @@ impl Asn1ResolvedEnumerated {
 
     fn generate_named_values(&self, generator: &Generator) -> Result<TokenStream, Error> {
         let mut tokens = TokenStream::new();
+        let mut const_names = vec![];
         for (name, value) in &self.named_root_values {
             let const_name = generator.to_const_ident(&name);
+            const_names.push(const_name.clone());
             let value_literal = generator.to_suffixed_literal(self.bits, self.signed, *value);
             let ty = generator.to_inner_type(self.bits, self.signed);
             let const_tokens = quote! {
@@ -51,6 +53,7 @@ impl Asn1ResolvedEnumerated {
             };
             tokens.extend(const_tokens);
         }
+        check_names_differ("ENUMERATED", &const_names)?;
 
         Ok(tokens)
     }
diff --git a/asn-compiler/src/generator/asn/types/constructed/choice.rs b/asn-compiler/src/generator/asn/types/constructed/choice.rs
index ca8d563..61bfeb8 100644
--- a/asn-compiler/src/generator/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/choice.rs
@@ -4,7 +4,7 @@ use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
 use crate::error::Error;
-use crate::generator::Generator;
+use crate::generator::{check_names_differ, Generator};
 use crate::resolver::asn::structs::types::{
     constructed::{ResolvedComponent, ResolvedConstructedType},
     Asn1ResolvedType,
@@ -48,6 +48,14 @@ impl ResolvedConstructedType {
                 None
             };
 
+            check_names_differ(
+                name,
+                root_tokens
+                    .iter()
+                    .chain(addition_tokens.iter().flatten())
+                    .map(|token| &token.variant),
+            )?;
+
             let struct_tokens =
                 ResolvedConstructedType::generate_struct_tokens_for_asn_choice_type(
                     &type_name,
@@ -208,7 +216,7 @@ impl ResolvedConstructedType {
     ) -> Result<Vec<ChoiceComponentToken>, Error> {
         let mut out_components = vec![];
         for (i, c) in components.iter().enumerate() {
-            let comp_variant_ident = generator.to_type_ident(&c.id);
+            let comp_variant_ident = generator.to_variant_ident(&c.id);
             let input_comp_type_ident = format!("{}{}", name, c.id);
             let comp_variant_ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
                 &c.ty,
diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index cc084c3..b423c66 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -4,7 +4,7 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::error::Error;
-use crate::generator::Generator;
+use crate::generator::{check_names_differ, Generator};
 use crate::resolver::asn::structs::types::{
     constructed::ResolvedConstructedType, Asn1ResolvedType,
 };
@@ -31,9 +31,11 @@ impl ResolvedConstructedType {
 
             let mut comp_tokens = TokenStream::new();
             let mut optional_fields = 0;
+            let mut fields = vec![];
             for c in components {
                 let comp_field_ident = generator.to_value_ident(&c.component.id);
-                let comp_ty_suffix = generator.to_type_ident(&c.component.id);
+                fields.push(comp_field_ident.clone());
+                let comp_ty_suffix = generator.to_variant_ident(&c.component.id);
                 let input_comp_ty_ident = format!("{}{}", name, comp_ty_suffix);
                 let comp_ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
                     &c.component.ty,
@@ -69,6 +71,8 @@ impl ResolvedConstructedType {
                 });
             }
 
+            check_names_differ(name, &fields)?;
+
             let mut ty_tokens = quote! { type = "SEQUENCE", extensible = #extensible };
 
             if optional_fields > 0 {
diff --git a/asn-compiler/src/generator/asn/types/int.rs b/asn-compiler/src/generator/asn/types/int.rs
index 0158e5f..5a3924a 100644
--- a/asn-compiler/src/generator/asn/types/int.rs
+++ b/asn-compiler/src/generator/asn/types/int.rs
@@ -109,7 +109,7 @@ impl ResolvedSetType {
     fn generate_aux_types(&self, generator: &mut Generator) -> Result<TokenStream, Error> {
         let mut variant_tokens = TokenStream::new();
         for (name, ty) in &self.types {
-            let variant_ident = generator.to_type_ident(&name.0);
+            let variant_ident = generator.to_variant_ident(&name.0);
             let ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(&ty.1, generator, None)?;
             let key: proc_macro2::TokenStream = ty.0.to_string().parse().unwrap();
             let key_tokens = quote! {
diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index cb465a4..dd5dbbd 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -81,6 +81,15 @@ impl Generator {
     }
 
     pub(crate) fn to_type_ident(&self, name: &str) -> Ident {
+        let ident = self.to_variant_ident(name);
+        if RESERVED_TYPE_NAMES.iter().any(|reserved| ident == reserved) {
+            Ident::new(&format!("{}_", ident), Span::call_site())
+        } else {
+            ident
+        }
+    }
+
+    pub(crate) fn to_variant_ident(&self, name: &str) -> Ident {
         let mut val = capitalize_first(name).replace("-", "_").replace(" ", "_");
         if val == *"Self" {
             val.push('_');
@@ -171,6 +180,29 @@ const RUST_KEYWORDS: &[&str] = &[
     "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
 ];
 
+// Names that can not be declared, because the bindings use them for something else.
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "Vec", "Option", "String", "Some", "None", "Ok", "Err", "BitVec", "Msb0",
+];
+
+// Returns an error when two of the given names, which belong to `owner`, are the same.
+pub(crate) fn check_names_differ<'n, I>(owner: &str, names: I) -> Result<(), Error>
+where
+    I: IntoIterator<Item = &'n Ident>,
+{
+    let mut seen = HashSet::new();
+    for name in names {
+        if !seen.insert(name) {
+            return Err(code_generate_error!(
+                "More than one item of '{}' is to be generated as '{}'!",
+                owner,
+                name
+            ));
+        }
+    }
+    Ok(())
+}
+
 // Names of the types that are declared by the given item.
 fn get_item_names(item: &TokenStream) -> Vec<String> {
     let tokens = item.clone().into_iter().collect::<Vec<TokenTree>>();
diff --git a/asn-compiler/src/generator/mod.rs b/asn-compiler/src/generator/mod.rs
index 6ad2fdf..eb4e512 100644
--- a/asn-compiler/src/generator/mod.rs
+++ b/asn-compiler/src/generator/mod.rs
@@ -1,6 +1,6 @@
 //! Generator module
 
 mod int;
-pub(crate) use int::Generator;
+pub(crate) use int::{check_names_differ, Generator};
 
 mod asn;
-- 
2.43.0


From 804c01b08e368f5cea62300c8f0fd11c6d538b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 42/43] fix: a parameter that is named like another dummy
 reference, and components named like one, were replaced in parameterized
 types

---
 asn-compiler/src/parser/asn/defs.rs | 49 ++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index d104a96..dc0d7be 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -72,13 +72,18 @@ impl Asn1Definition {
             ));
         }
 
-        for (idx, actual) in actual_params.iter().enumerate() {
-            let replace = actual.param_string();
-            let source = &params.ordered[idx].dummyref.name;
-
-            for token in params.type_tokens.iter_mut() {
-                if &token.text == source {
-                    token.text = replace.clone()
+        // An actual parameter can have the name of another dummy reference and a component can have
+        // the name of any of them, so every token is replaced at most once and names that are
+        // declared by the type are left alone.
+        let tokens = &self.params.as_ref().unwrap().type_tokens;
+        for (i, token) in params.type_tokens.iter_mut().enumerate() {
+            let dummy = params
+                .ordered
+                .iter()
+                .position(|p| p.dummyref.name == token.text);
+            if let Some(idx) = dummy {
+                if !is_declared_name(tokens, i) {
+                    token.text = actual_params[idx].param_string();
                 }
             }
         }
@@ -86,6 +91,36 @@ impl Asn1Definition {
         Ok(ty)
     }
 }
+
+// Whether the token at the given index is the name of a component (its type begins right after it) or
+// one of the names in the braces of ENUMERATED, INTEGER or BIT STRING types.
+fn is_declared_name(tokens: &[Token], idx: usize) -> bool {
+    if !tokens[idx].is_value_reference() {
+        return false;
+    }
+    if let Some(next) = tokens.get(idx + 1) {
+        if next.is_type_reference() || next.is_asn_builtin_type() {
+            return true;
+        }
+    }
+
+    let mut closed = 0;
+    for i in (0..idx).rev() {
+        let token = &tokens[i];
+        if token.is_curly_end() || token.is_round_end() {
+            closed += 1;
+        } else if token.is_curly_begin() || token.is_round_begin() {
+            if closed == 0 {
+                return token.is_curly_begin()
+                    && i > 0
+                    && ["ENUMERATED", "INTEGER", "STRING"].contains(&tokens[i - 1].text.as_str());
+            }
+            closed -= 1;
+        }
+    }
+    false
+}
+
 // Parse a definition into an `Assignment` type.
 //
 // This function is called by the Module parser to parse each definition. A definition will be one
-- 
2.43.0


From 10f6c1d6c41eb4c9961e37926e3622347bc013e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:49 +0000
Subject: [PATCH 43/43] fix: a definition that has the name of a dummy
 reference made up a circle of definitions

---
 asn-compiler/src/parser/asn/structs/defs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index f02344a..3cf04df 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -138,8 +138,15 @@ impl Asn1Definition {
     // Returns a list of dependent references for a given defintion. These will be used to sort the
     // definitions topologically, which would make error handling considerably easier when
     // resolving those definitions
+    //
+    // Dummy References of a parameterized definition are no definitions, even if there are some of the
+    // same name.
     pub fn dependent_references(&self) -> Vec<String> {
-        self.kind.dependent_references()
+        let mut output = self.kind.dependent_references();
+        if let Some(ref params) = self.params {
+            output.retain(|r| !params.ordered.iter().any(|p| &p.dummyref.name == r));
+        }
+        output
     }
 }
 
-- 
2.43.0

