From 8ebff937ad70160a34e1fe81ebab8e9d0ef782bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:44 +0000
Subject: [PATCH 1/7] Add verification hook behind cfg(apint_verif)

---
 src/apint/mod.rs        |  4 ++++
 src/apint/verif_hook.rs | 46 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)
 create mode 100644 src/apint/verif_hook.rs

diff --git a/src/apint/mod.rs b/src/apint/mod.rs
index a2a8610..22889d6 100644
--- a/src/apint/mod.rs
+++ b/src/apint/mod.rs
@@ -14,6 +14,10 @@ mod rand_impl;
 #[cfg(feature = "serde_support")]
 mod serde_impl;
 
+#[allow(unexpected_cfgs)]
+#[cfg(apint_verif)]
+mod verif_hook;
+
 use crate::{BitWidth, Digit};
 
 pub use self::shift::ShiftAmount;
diff --git a/src/apint/verif_hook.rs b/src/apint/verif_hook.rs
new file mode 100644
index 0000000..1b99b64
--- /dev/null
+++ b/src/apint/verif_hook.rs
@@ -0,0 +1,46 @@
+//! Verification hook; compiled only with `--cfg apint_verif`.
+//!
+//! Lets an external harness build an `ApInt` in any given valid state and look
+//! at the digits that represent one. It deliberately goes to the fields
+//! themselves and uses none of the operations of this crate.
+
+use crate::{ApInt, BitWidth, Digit};
+
+use super::ApIntData;
+
+use core::ptr::NonNull;
+
+impl ApInt {
+    /// Creates an `ApInt` of the given width from its digits (least
+    /// significant first). There must be exactly as many digits as the width
+    /// requires and the unused bits of the last one must be zero.
+    pub fn verif_from_raw(width: BitWidth, digits: &[u64]) -> ApInt {
+        let data = if width.to_usize() <= 64 {
+            ApIntData {
+                inl: Digit(digits[0]),
+            }
+        } else {
+            let mut buffer = std::vec::Vec::with_capacity(digits.len());
+            for &digit in digits {
+                buffer.push(Digit(digit));
+            }
+            let ptr = std::boxed::Box::into_raw(buffer.into_boxed_slice());
+            ApIntData {
+                ext: NonNull::new(ptr as *mut Digit).unwrap(),
+            }
+        };
+        ApInt { len: width, data }
+    }
+
+    /// Returns the digit at the given index, least significant first.
+    pub fn verif_digit(&self, index: usize) -> u64 {
+        assert!(index < (self.len.to_usize() - 1) / 64 + 1);
+        unsafe {
+            if self.len.to_usize() <= 64 {
+                self.data.inl.0
+            } else {
+                (*self.data.ext.as_ptr().add(index)).0
+            }
+        }
+    }
+}
-- 
2.43.0


From f8cafd663e07cf5cfb5cf48d86fc80c50fddbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 2/7] fix: is_one looks for the one in the least significant
 digit

---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From 1343ee1e22bdad7ca183631b2131215a2a498c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 3/7] fix: is_all_set checks the most significant digit if no
 bits are in excess

---
 src/apint/bitwise.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..bc6dd41 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -182,10 +182,9 @@ impl ApInt {
     /// Returns``true` if all bits in the `ApInt` are set.
     pub fn is_all_set(&self) -> bool {
         let (msb, rest) = self.split_most_significant_digit();
-        if let Some(excess_bits) = self.width().excess_bits() {
-            if msb.repr().count_ones() as usize != excess_bits {
-                return false
-            }
+        let used_bits = self.width().excess_bits().unwrap_or(Digit::BITS);
+        if msb.repr().count_ones() as usize != used_bits {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From 5c377d8f685d51f09a2e5a166e7f370683f259ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 4/7] fix: report position and character of an invalid
 character while parsing

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0


From 57c7a1c8c4e38c59a0ac1cc2310218f4a554d639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 5/7] fix: deserializing an empty compact sequence is an error
 instead of a panic

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From 90d8936fdb801a59ea08a3e55b1905d0560ab781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 6/7] fix: parse numbers of more than one digit word in a radix
 that is no power of two

---
 src/apint/serialization.rs | 40 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 53e3cea..157ba77 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -270,12 +270,9 @@ impl ApInt {
         ApInt::from_iter(data).unwrap()
     }
 
-    // Read little-endian radix digits.
+    // Read big-endian radix digits.
     //
     // Forked from: https://github.com/rust-num/num/blob/master/bigint/src/biguint.rs#L177
-    //
-    // TODO: This does not work, yet. Some parts of the algorithm are
-    //       commented-out since the required functionality does not exist, yet.
     fn from_radix_digits(v: &[u8], radix: Radix) -> ApInt {
         use crate::digit::DigitRepr;
 
@@ -291,7 +288,7 @@ impl ApInt {
         let big_digits = (bits / Digit::BITS) + 1;
         let mut data = Vec::with_capacity(big_digits as usize);
 
-        let (_base, power) = radix.get_radix_base();
+        let (base, power) = radix.get_radix_base();
         let radix = DigitRepr::from(radix.to_u8());
 
         let r = v.len() % power;
@@ -301,35 +298,28 @@ impl ApInt {
         let first = head
             .iter()
             .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-        data.push(first);
+        data.push(Digit(first));
 
         debug_assert!(tail.len() % power == 0);
         for chunk in tail.chunks(power) {
-            if data.last() != Some(&0) {
-                data.push(0);
+            if data.last() != Some(&Digit::ZERO) {
+                data.push(Digit::ZERO);
             }
 
-            let carry = 0;
-            for _d in &mut data {
-                // *d = mac_with_carry(0, *d, base, &mut carry); // TODO! This
-                // was commented out.
-
-                // // fn carry_mul_add(a: Digit, b: Digit, c: Digit, carry:
-                // Digit) -> DigitAndCarry // Returns the result
-                // of `(a + (b * c)) + carry` and its implied carry value.
-
-                // let DigitAndCarry(d, carry) = carry_mul_add(digit::ZERO, *d,
-                // base, carry); // TODO! This was commented out.
-            }
-            debug_assert!(carry == 0);
-
-            let _n = chunk
+            // `data = data * base + n` where `n` is the value of the chunk.
+            let n = chunk
                 .iter()
                 .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-            // add2(&mut data, &[n]); // TODO: This was commented out.
+            let mut carry = Digit(n);
+            for d in &mut data {
+                let (lo, hi) = d.carrying_mul_add(base, carry);
+                *d = lo;
+                carry = hi;
+            }
+            debug_assert!(carry.is_zero());
         }
 
-        ApInt::from_iter(data.into_iter().map(Digit)).unwrap()
+        ApInt::from_iter(data).unwrap()
     }
 }
 
-- 
2.43.0


From a739f9cb97f64919fe150bd01d93575d3e58ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:37 +0000
Subject: [PATCH 7/7] fix: signed division of unmatching bit widths is an error
 instead of a panic

---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..0ff4db4 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1668,6 +1668,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Err(Error::unmatching_bitwidths(lhs.width(), rhs.width()))
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedDivRem,
@@ -1713,6 +1716,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Err(Error::unmatching_bitwidths(lhs.width(), rhs.width()))
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedRemDiv,
@@ -1754,6 +1760,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_sdiv_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Err(Error::unmatching_bitwidths(self.width(), rhs.width()))
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
@@ -1801,6 +1810,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_srem_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Err(Error::unmatching_bitwidths(self.width(), rhs.width()))
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
-- 
2.43.0

