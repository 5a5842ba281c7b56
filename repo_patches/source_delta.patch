From 2e7561e27161bfcd02d6bbe7a0a2549d92ac48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 01/16] fix: is_greater_or_equal on equal multi-word values

The multi-word branch used the strict comparison, so a >= a (and a <= a)
was false for every vector wider than 64 bits.
---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From 27eeb33a56dd426e8528b96a79c17360348fec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 02/16] fix: mask the result of shift_left by a multiple of the
 word size

Shifting a multi-word value left by a multiple of 64 bits moved set bits
into the unused bits of the most significant word.
---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From 07c7069f9b061aa10d1107bc1ba6654b6b9db188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 03/16] fix: to_i64 for negative values wider than 64 bits

The sign extension in the most significant word only covers the bits
below the width, so negative values were only recognized when the width
is a multiple of 64.
---
 src/bv/ops.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..b3e77fa 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,14 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // the unused bits of the most significant word are always zero
+            let msb_max = crate::bv::arithmetic::mask(self.width() % Word::BITS);
+            let all_max_msbs = match self.words().split_last() {
+                Some((msb, rest)) => {
+                    *msb == msb_max && rest.iter().skip(1).all(|w| *w == Word::MAX)
+                }
+                None => false,
+            };
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From 58d69adcf71f07b9d6e5157a0c4fa529aef93559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 04/16] fix: fixed point conversion with 64 or more fraction
 bits

The denominator does not fit into 64 bits in this case: the shift
overflowed (a panic in debug mode, a wrong fraction in release mode).
---
 src/bv/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index b3e77fa..653a2d9 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,8 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        // the denominator has to fit into 64 bits
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From 16adabd8c9eeb6c9b081cc88ced15885c9599fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 05/16] fix: convert dense byte arrays with elements above 7 to
 sparse

The histogram only had one entry per bit instead of one per byte value.
---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2440e9b 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; u8::MAX as usize + 1];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 87746bad5604cb00987159c1f889eb0f35dde634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:10 +0000
Subject: [PATCH 06/16] fix: index width when turning a wide sparse array into
 a dense one

The index bit-vector was created with the data width of the array.
---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2440e9b..7302716 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From fbbb1ff5fc4c83ecfda5618949a10ff636b89019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 07/16] fix: signed bit and hex strings

The smallest number lost its most significant digit (printing "-0...0", or
nothing for a 1-bit vector), and the signed bit string used a superfluous
word when the width is one more than a multiple of the word size.
---
 src/bv/io/strings.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..7f9893f 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,20 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
-        to_bit_str(values, width - 1)
+        to_bit_str(select_words_for_width(values, width - 1), width - 1)
+    }
+}
+
+/// The magnitude of a negative number fits into `width - 1` bits, unless it is the smallest number.
+#[inline]
+fn magnitude_width(magnitude: &[Word], width: WidthInt) -> WidthInt {
+    if is_neg(magnitude, width) {
+        width
+    } else {
+        width - 1
     }
 }
 
@@ -76,7 +87,8 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
         to_hex_str(select_words_for_width(values, width - 1), width - 1)
     }
-- 
2.43.0


From 7646c150debc4f24ec3bc8224aef79f6082eabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 08/16] fix: reads from sparse arrays with more than 64 index
 bits

Looking up a BitVecValueRef in a map with BitVecValue keys needs a Borrow
implementation that does not exist, i.e. every select and every store of
the default value panicked.
---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 7302716..bd0f04f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From 266e1a8e03ffa4f8e9430a3ead842396860bad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 09/16] fix: equality of sparse arrays with different default
 values

Two arrays in which every index is overridden can have the same contents
even though their default values differ.
---
 src/array/owned.rs | 50 +++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index bd0f04f..2348e33 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -128,6 +128,29 @@ fn is_equal_mixed(dense: &DenseArrayValue, sparse: &SparseArrayValue) -> Option<
     other_dense.is_equal(dense)
 }
 
+fn is_equal_sparse<K: Eq + std::hash::Hash, V: PartialEq>(
+    index_width: WidthInt,
+    default_a: &V,
+    map_a: &HashMap<K, V>,
+    default_b: &V,
+    map_b: &HashMap<K, V>,
+) -> bool {
+    if default_a == default_b {
+        // here we rely on the fact that the default value may never appear in the map
+        map_a == map_b
+    } else {
+        // the arrays can only be equal if no index carries both default values
+        let only_b = map_b.keys().filter(|k| !map_a.contains_key(k)).count();
+        1usize.checked_shl(index_width) == Some(map_a.len() + only_b)
+            && map_a
+                .iter()
+                .all(|(k, v)| map_b.get(k).unwrap_or(default_b) == v)
+            && map_b
+                .iter()
+                .all(|(k, v)| map_a.get(k).unwrap_or(default_a) == v)
+    }
+}
+
 impl ArrayOps for ArrayValue {
     fn index_width(&self) -> WidthInt {
         match &self.data {
@@ -620,37 +643,22 @@ impl SparseArrayValue {
                 SparseArrayImpl::U64U64(default_a, map_a),
                 SparseArrayImpl::U64U64(default_b, map_b),
             ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
+                let w = self.index_width;
+                Some(is_equal_sparse(w, default_a, map_a, default_b, map_b))
             }
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
                 SparseArrayImpl::U64Big(default_b, map_b),
             ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
+                let w = self.index_width;
+                Some(is_equal_sparse(w, default_a, map_a, default_b, map_b))
             }
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
                 SparseArrayImpl::BigBig(default_b, map_b),
             ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
+                let w = self.index_width;
+                Some(is_equal_sparse(w, default_a, map_a, default_b, map_b))
             }
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
-- 
2.43.0


From 68fdda4580853360e782b3cee4fc84b35c98ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:29 +0000
Subject: [PATCH 10/16] fix: check the width when parsing numbers and overwrite
 all words

Numbers that exceed the width left bits set above it (up to 128 bits) or
resulted in a panic (wide hex numbers), wide binary numbers could not have
leading zeros, and parsing into an existing value kept the words (or, for
the empty string, the value) that were not touched by the new number.
---
 src/bv/io/strings.rs | 66 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 7f9893f..657c05b 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, mask, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -215,6 +215,7 @@ pub(crate) fn from_str_radix(
 ) -> Result<(), ParseIntError> {
     // The empty string becomes a 0-bit vector.
     if value.is_empty() {
+        clear(out);
         return Ok(());
     }
 
@@ -245,7 +246,7 @@ pub(crate) fn from_str_radix(
     match out {
         [out] => {
             debug_assert!(width <= 64);
-            *out = match u64::from_str_radix(value, radix) {
+            let value = match u64::from_str_radix(value, radix) {
                 Ok(v) => v,
                 Err(e) => {
                     let kind = match e.kind() {
@@ -256,6 +257,12 @@ pub(crate) fn from_str_radix(
                     return Err(ParseIntError { kind });
                 }
             };
+            if value > mask(width) {
+                return Err(ParseIntError {
+                    kind: IntErrorKind::ExceedsWidth,
+                });
+            }
+            *out = value;
         }
         [lsb, msb] => {
             debug_assert!(width <= 128);
@@ -270,6 +277,11 @@ pub(crate) fn from_str_radix(
                     return Err(ParseIntError { kind });
                 }
             };
+            if (out >> Word::BITS) as Word > mask(width % Word::BITS) {
+                return Err(ParseIntError {
+                    kind: IntErrorKind::ExceedsWidth,
+                });
+            }
             *lsb = out as Word;
             *msb = (out >> Word::BITS) as Word;
         }
@@ -291,33 +303,52 @@ pub(crate) fn from_str_radix(
                 _ => digits,
             };
 
+            // the parsing functions only write the words that they need
+            clear(out);
+
             match radix {
                 2 => parse_base_2(digits, out, width)?,
                 10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                16 => parse_base_16(digits, out, width)?,
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
-
     if is_negative {
         negate_in_place(out, width)
     }
     Ok(())
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+/// Removes all leading zero digits.
+#[inline]
+fn strip_zeros(digits: &[u8]) -> &[u8] {
+    let zeros = digits.iter().take_while(|d| **d == b'0').count();
+    &digits[zeros..]
+}
+
+fn parse_base_16(
+    digits: &[u8],
+    out: &mut [Word],
+    max_width: WidthInt,
+) -> Result<WidthInt, ParseIntError> {
+    let digits = strip_zeros(digits);
     let num_digits = digits.len();
+    let width = match digits {
+        [] => return Ok(0), // the number is zero
+        [msb, ..] => {
+            let msb_zeros =
+                hex_digit_value(*msb)?.leading_zeros() - (u8::BITS - BITS_PER_HEX_DIGIT);
+            num_digits as u32 * BITS_PER_HEX_DIGIT - msb_zeros
+        }
+    };
+    if width > max_width {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
+
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
@@ -335,7 +366,7 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     }
     debug_assert_eq!(out_ii, 0);
     out[0] = word;
-    Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
+    Ok(width)
 }
 
 fn parse_base_10(
@@ -352,8 +383,11 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
+    let digits = strip_zeros(digits);
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
+    if width == 0 {
+        return Ok(0); // the number is zero
+    }
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From f1951abc0f242d2eb1795103d3058160d632ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:53 +0000
Subject: [PATCH 11/16] fix: multiplication of vectors wider than 64 bits

mul panicked for every width above 64.
---
 src/bv/arithmetic.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 7a703ea..65a2085 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -228,10 +228,19 @@ pub(crate) fn mul(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthInt) {
         let (res, _) = a[0].overflowing_mul(b[0]);
         dst[0] = res & mask(width);
     } else {
-        todo!(
-            "implement multiplication for bit vectors larger {}",
-            Word::BITS
-        );
+        // school book multiplication, everything above the most significant word is dropped
+        clear(dst);
+        for (ii, aa) in a.iter().enumerate() {
+            let mut carry = 0 as Word;
+            for (dd, bb) in dst[ii..].iter_mut().zip(b.iter()) {
+                let value = (*aa as DoubleWord) * (*bb as DoubleWord)
+                    + *dd as DoubleWord
+                    + carry as DoubleWord;
+                *dd = value as Word;
+                carry = (value >> Word::BITS) as Word;
+            }
+        }
+        mask_msb(dst, width);
     }
 }
 
-- 
2.43.0


From db40ab1436f624c08974ecf9729dede7571cc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:54 +0000
Subject: [PATCH 12/16] fix: to_dec_str for values of more than 128 bits

to_dec_str panicked for every value that does not fit into two words.
---
 src/bv/io/strings.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 657c05b..3b31c10 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -166,8 +166,30 @@ fn to_dec_str_internal(values: &[Word], mut out: String) -> String {
     out
 }
 
-fn to_dec_str_wide(_words: &[Word], _out: &mut str) {
-    todo!()
+/// 10^19 is the largest power of ten that fits into a word
+const DEC_DIGITS_PER_WORD: usize = 19;
+const DEC_WORD_BASE: Word = (10 as Word).pow(DEC_DIGITS_PER_WORD as u32);
+
+fn to_dec_str_wide(words: &[Word], out: &mut String) {
+    // divide by 10^19 until nothing is left, this gives us the least significant digits first
+    let mut words = Vec::from(words);
+    let mut groups = vec![];
+    while words_used(&words) > 0 {
+        let mut remainder = 0 as Word;
+        for word in words.iter_mut().rev() {
+            let value = ((remainder as u128) << Word::BITS) | *word as u128;
+            *word = (value / DEC_WORD_BASE as u128) as Word;
+            remainder = (value % DEC_WORD_BASE as u128) as Word;
+        }
+        groups.push(remainder);
+    }
+    let mut groups = groups.into_iter().rev();
+    if let Some(msb) = groups.next() {
+        write!(out, "{msb}").unwrap();
+    }
+    for group in groups {
+        write!(out, "{group:0DEC_DIGITS_PER_WORD$}").unwrap();
+    }
 }
 
 pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthInt {
-- 
2.43.0


From 34dc18301fe9bb33e8cb86f0a0f62c729ec9602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:54 +0000
Subject: [PATCH 13/16] fix: parse decimal numbers into vectors wider than 128
 bits

from_str_radix panicked for base 10 (and all bases other than 2 and 16)
if the vector is more than 128 bits wide.
---
 src/bv/io/strings.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 3b31c10..005ba47 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -330,9 +330,8 @@ pub(crate) fn from_str_radix(
 
             match radix {
                 2 => parse_base_2(digits, out, width)?,
-                10 => parse_base_10(digits, out, width)?,
                 16 => parse_base_16(digits, out, width)?,
-                _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
+                _ => parse_base_n(digits, radix, out, width)?,
             };
         }
     }
@@ -391,13 +390,38 @@ fn parse_base_16(
     Ok(width)
 }
 
-fn parse_base_10(
-    _digits: &[u8],
-    _out: &mut [Word],
-    _max_width: WidthInt,
+fn parse_base_n(
+    digits: &[u8],
+    radix: u32,
+    out: &mut [Word],
+    max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
-    // let other = BitVecValue::
-    todo!()
+    let msb_mask = mask(max_width % Word::BITS);
+    for cc in digits.iter() {
+        let digit = match (*cc as char).to_digit(radix) {
+            Some(value) => value,
+            None => {
+                clear(out);
+                return Err(ParseIntError {
+                    kind: IntErrorKind::InvalidDigit,
+                });
+            }
+        };
+        // out = out * radix + digit
+        let mut carry = digit as Word;
+        for word in out.iter_mut() {
+            let value = (*word as u128) * (radix as u128) + carry as u128;
+            *word = value as Word;
+            carry = (value >> Word::BITS) as Word;
+        }
+        if carry != 0 || out.last().is_some_and(|msb| *msb > msb_mask) {
+            clear(out);
+            return Err(ParseIntError {
+                kind: IntErrorKind::ExceedsWidth,
+            });
+        }
+    }
+    Ok(max_width)
 }
 
 fn parse_base_2(
-- 
2.43.0


From 6b220c22ef5d818b8aad8fa5032cfc59e16294d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:13 +0000
Subject: [PATCH 14/16] fix: assign_from_u64 to a vector of width zero

Sparse arrays with an index width of zero could neither be turned into dense
arrays nor list their entries.
---
 src/bv/arithmetic.rs | 5 ++++-
 src/bv/ops.rs        | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 65a2085..62e33c5 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -79,7 +79,10 @@ pub(crate) fn sign_extend(
 pub(crate) fn mask_msb(dst: &mut [Word], width: WidthInt) {
     debug_assert_eq!(width.div_ceil(Word::BITS) as usize, dst.len());
     let m = mask(width % Word::BITS);
-    *dst.last_mut().unwrap() &= m;
+    // a value of width zero has no words
+    if let Some(msw) = dst.last_mut() {
+        *msw &= m;
+    }
 }
 
 #[inline]
diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 653a2d9..b5a0cf6 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -431,11 +431,13 @@ pub trait BitVecMutOps: BitVecOps {
         // clear all words
         self.clear();
         // assign lsb
-        self.words_mut()[0] = value;
+        if let Some(lsb) = self.words_mut().first_mut() {
+            *lsb = value;
+        }
         // make sure the value agrees with the bit width
         self.mask_msb();
         debug_assert_eq!(
-            self.words()[0],
+            self.words().first().copied().unwrap_or(0),
             value,
             "value {value} does not fit into {} bits",
             self.width()
-- 
2.43.0


From 02f552b962c33b69fa3609ce5d303724cc333217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:13 +0000
Subject: [PATCH 15/16] fix: serialize sparse arrays with wide indices in
 formats like JSON

Maps with bit-vector keys are written as a sequence of entries. The output of
binary formats without map keys, like bincode, stays the same.
---
 src/array/owned.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2348e33..db10e84 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -612,7 +612,30 @@ impl Debug for SparseArrayValue {
 enum SparseArrayImpl {
     U64U64(u64, HashMap<u64, u64>),
     U64Big(BitVecValue, HashMap<u64, BitVecValue>),
-    BigBig(BitVecValue, HashMap<BitVecValue, BitVecValue>),
+    BigBig(
+        BitVecValue,
+        // formats like JSON only support maps with strings as keys
+        #[cfg_attr(feature = "serde1", serde(with = "serde_entries"))]
+        HashMap<BitVecValue, BitVecValue>,
+    ),
+}
+
+/// Serializes a map with bit-vector keys as a sequence of entries.
+#[cfg(feature = "serde1")]
+mod serde_entries {
+    use super::{BitVecValue, HashMap};
+    use serde::{Deserialize, Deserializer, Serializer};
+
+    type Map = HashMap<BitVecValue, BitVecValue>;
+
+    pub fn serialize<S: Serializer>(map: &Map, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.collect_seq(map)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Map, D::Error> {
+        let entries = Vec::<(BitVecValue, BitVecValue)>::deserialize(deserializer)?;
+        Ok(entries.into_iter().collect())
+    }
 }
 
 impl SparseArrayValue {
-- 
2.43.0


From db6b343cbd3f371dba7652166632b1728be01177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:29 +0000
Subject: [PATCH 16/16] fix: count bytes, not words, of wide elements against
 the dense storage limit

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index db10e84..f1ae526 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -297,7 +297,7 @@ fn approx_dense_storage_size(index_width: WidthInt, data_width: WidthInt) -> usi
         elements * (u64::BITS / u8::BITS) as usize
     } else {
         // using the Big representation
-        elements * data_width.div_ceil(Word::BITS) as usize
+        elements * (data_width.div_ceil(Word::BITS) * (Word::BITS / u8::BITS)) as usize
     }
 }
 
-- 
2.43.0

