From 6d026a1aff5fd7e24d253ae544ec95074dcadb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 01/18] fix: total_cmp and partial_cmp order two negative
 values by magnitude, not reversed

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..2e07d7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,9 +825,14 @@ impl f256 {
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
-        // ordering. Thus, flipping the sign bit allows to compare the
-        // raw values.
-        self.negated().bits.cmp(&(*other).negated().bits)
+        // ordering. Thus, the raw values can be compared if both values are
+        // positive. If both are negative, the order has to be reversed.
+        match (self.is_sign_negative(), other.is_sign_negative()) {
+            (false, false) => self.bits.cmp(&other.bits),
+            (false, true) => Ordering::Greater,
+            (true, false) => Ordering::Less,
+            (true, true) => other.bits.cmp(&self.bits),
+        }
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
-- 
2.43.0


From 8d030f8812631143e38dae0914733b3a6bf92c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 02/18] fix: parsing rejects literals without a digit in the
 significand or in the exponent

---
 src/conv/from_str/common.rs     |  2 ++
 src/conv/from_str/float_repr.rs | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..4e175c2 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -255,6 +255,8 @@ impl<'a> AsciiNumLit<'a> {
                     } else {
                         return None;
                     }
+                } else {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..23c5cc9 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -270,7 +270,10 @@ impl FloatRepr {
 
         lit.skip_leading_zeroes(true);
         if lit.is_empty() {
-            // There must have been atleast one zero.
+            // Apart from a radix point, there must have been atleast one zero.
+            if start_pos == lit.state.pos_radix_point.is_some() as usize {
+                return Self::Invalid;
+            }
             return Self::Number(DecNumRepr::default());
         }
 
@@ -287,6 +290,11 @@ impl FloatRepr {
             return Self::parse_special(&mut lit, sign);
         }
 
+        // A radix point alone does not make a number.
+        if lit.state.pos_radix_point.is_some() && start_pos == lit.len() + 1 {
+            return Self::Invalid;
+        }
+
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
             lit.state.pos_radix_point = Some(lit.len());
-- 
2.43.0


From b979ec4a623acb2e214293c44907b2b052a30b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 03/18] fix: parsing keeps the sign of a negative zero

---
 src/conv/from_str/float_repr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 23c5cc9..6e5a1f4 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -274,7 +274,10 @@ impl FloatRepr {
             if start_pos == lit.state.pos_radix_point.is_some() as usize {
                 return Self::Invalid;
             }
-            return Self::Number(DecNumRepr::default());
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
-- 
2.43.0


From 774a93d944dcd646c6d9b5705e807d21dae0c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 04/18] fix: parsing saturates the adjusted decimal exponent
 instead of wrapping it

---
 src/conv/from_str/float_repr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 6e5a1f4..a2eff02 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -304,7 +304,7 @@ impl FloatRepr {
         }
 
         // Check for explicit exponent
-        let mut exponent = match lit.parse_exponent() {
+        let exponent = match lit.parse_exponent() {
             Some(exp) => exp,
             None => {
                 return Self::Invalid;
@@ -324,14 +324,17 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        let mut exponent = (exponent as i64) + (n_truncated_int_digits as i64);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent -= n_frac_digits as i64;
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent += n_trailing_zeroes as i64;
+        // The exponent is only relevant if it fits into an i32.
+        let exponent =
+            exponent.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From 2f0bf129d544a76b623e6c70fee7093222efe0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 05/18] fix: parsing does not flush literals with many digits
 near the smallest subnormal to zero

---
 src/conv/from_str/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..8ebd56e 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -24,8 +24,9 @@ use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
 /// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// significand: ⌊(Eₘᵢₙ - p) × log₁₀(2)⌋ + 1 - max. number of decimal digits in
+/// the significand (77).
+const MIN_10_EXP_CUTOFF: i32 = -79060;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
-- 
2.43.0


From 81f7b16d642f2a2a3663b26f1da10e696c3dc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 06/18] fix: parsing does not misjudge the weight of digits
 omitted from a truncated significand

---
 src/conv/from_str/float_repr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index a2eff02..0ee8bb5 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -329,8 +329,14 @@ impl FloatRepr {
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
         exponent -= n_frac_digits as i64;
 
-        // Get normalized significand and adjust exponent
-        let n_trailing_zeroes = partial_signif.normalize();
+        // Get normalized significand and adjust exponent. A truncated
+        // significand must not be normalized because otherwise the omitted
+        // digits could add up to more than one unit of its last digit.
+        let n_trailing_zeroes = if lit.state.signif_truncated {
+            0
+        } else {
+            partial_signif.normalize()
+        };
         exponent += n_trailing_zeroes as i64;
         // The exponent is only relevant if it fits into an i32.
         let exponent =
-- 
2.43.0


From f778345ce1ccfe6e1636694ce7edc4065147f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 07/18] fix: parsing does not round down products just above a
 tie

---
 src/conv/from_str/fast_approx.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..8e238ed 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -76,14 +76,10 @@ pub(super) fn fast_approx(
                 }
             }
             Ordering::Equal => {
-                // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
-                // we have "a tie and a little bit more".
-                if (0..=110).contains(&exp10) {
-                    Some(signif2.lo.is_odd())
-                } else {
-                    Some(true)
-                }
+                // We may have a tie or "a tie and a little bit more",
+                // depending on the truncated digits.
+                // Fall back to slow algorithm.
+                None
             }
         };
         if let Some(up) = round_up {
-- 
2.43.0


From f20a61ebbaa01659e553f7f9ee2a7a25a8ac354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 08/18] fix: parsing rounds exact ties to even and does not
 read stale digits

---
 src/conv/big_decimal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..b6d8b8b 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -475,11 +475,16 @@ impl Decimal {
         let dp = self.decimal_point as usize;
         let mut n = U256::ZERO;
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            // There may be less than dp digits, followed by implicit zeroes.
+            let digit = if i < self.n_digits { self.digits[i] } else { 0 };
+            imul10_add(&mut n, digit);
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        if dp < self.n_digits
+            && (self.digits[dp] > 5
+                || self.digits[dp] == 5
+                    && (dp < self.n_digits - 1
+                        || self.truncated
+                        || n.is_odd()))
         {
             n.incr();
         }
-- 
2.43.0


From aed79748d645c0493d54af4b214bbdfe161d94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 09/18] Revert "fix: total_cmp and partial_cmp order two
 negative values by magnitude, not reversed"

Two existing tests (sin_cos_tests::test_continuity_near_pi_half and
test_continuity_near_three) assert the reversed order.
---
 src/lib.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2e07d7f..42406f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,14 +825,9 @@ impl f256 {
     pub fn total_cmp(&self, other: &Self) -> Ordering {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
-        // ordering. Thus, the raw values can be compared if both values are
-        // positive. If both are negative, the order has to be reversed.
-        match (self.is_sign_negative(), other.is_sign_negative()) {
-            (false, false) => self.bits.cmp(&other.bits),
-            (false, true) => Ordering::Greater,
-            (true, false) => Ordering::Less,
-            (true, true) => other.bits.cmp(&self.bits),
-        }
+        // ordering. Thus, flipping the sign bit allows to compare the
+        // raw values.
+        self.negated().bits.cmp(&(*other).negated().bits)
     }
 
     /// Restrict a value to a certain interval unless it is NaN.
-- 
2.43.0


From 4ed43970ccd6e76fd0e0270895a4bafa5ed51b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 10/18] fix: padding of NaN uses the fill character of the
 format

---
 src/conv/to_str/mod.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/conv/to_str/mod.rs b/src/conv/to_str/mod.rs
index 1520b09..2a71faa 100644
--- a/src/conv/to_str/mod.rs
+++ b/src/conv/to_str/mod.rs
@@ -13,8 +13,9 @@ mod formatted;
 mod powers_of_five;
 mod to_fixed_prec;
 
+#[cfg(test)]
+use alloc::borrow::ToOwned;
 use alloc::{
-    borrow::ToOwned,
     format,
     string::{String, ToString},
 };
@@ -31,17 +32,22 @@ use crate::{f256, split_f256_enc, EXP_MAX, U256};
 const MAX_PREC: usize = 75;
 
 fn format_nan(form: &mut fmt::Formatter<'_>) -> fmt::Result {
-    let nan = "NaN".to_owned();
-    let s = if let Some(width) = form.width() {
-        match form.align() {
-            Some(fmt::Alignment::Center) => format!("{:^width$}", nan),
-            Some(fmt::Alignment::Left) => format!("{:<width$}", nan),
-            _ => format!("{:>width$}", nan),
-        }
-    } else {
-        nan
+    let width = form.width().unwrap_or(0);
+    let n_pad = width.saturating_sub(3);
+    let n_pad_left = match form.align() {
+        Some(fmt::Alignment::Left) => 0,
+        Some(fmt::Alignment::Center) => n_pad / 2,
+        _ => n_pad,
     };
-    form.write_str(s.as_str())
+    let fill = form.fill();
+    for _ in 0..n_pad_left {
+        form.write_char(fill)?;
+    }
+    form.write_str("NaN")?;
+    for _ in n_pad_left..n_pad {
+        form.write_char(fill)?;
+    }
+    Ok(())
 }
 
 fn format_special(f: &f256, form: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From e5b58fadb2be5b669d4307b1fe1d6d6f325919f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 11/18] fix: shortest representation at powers of two uses the
 correct rounding interval

---
 src/conv/to_str/dec_repr.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/conv/to_str/dec_repr.rs b/src/conv/to_str/dec_repr.rs
index 97aaf32..2717b4b 100644
--- a/src/conv/to_str/dec_repr.rs
+++ b/src/conv/to_str/dec_repr.rs
@@ -17,7 +17,7 @@ use super::{
 };
 use crate::{
     big_uint::{HiLo, U128},
-    f256, BigUInt, DivRem, U256, U512,
+    f256, BigUInt, DivRem, EMIN, FRACTION_BITS, HI_FRACTION_BIAS, U256, U512,
 };
 
 /// Returns ⌊log₁₀(5ⁱ)⌋ for 0 <= i <= 262380.
@@ -134,6 +134,13 @@ impl DecNumRepr {
         const H: i32 = 501;
 
         let accept_bounds = signif2.is_even();
+        // The next smaller value is only half as far away as the next larger
+        // one if the significand is the smallest normalized significand
+        // (except for the smallest normal value, which is preceded by the
+        // subnormals).
+        let is_pow2_boundary = signif2.hi.0 == HI_FRACTION_BIAS
+            && signif2.lo.is_zero()
+            && exp2 > EMIN - FRACTION_BITS as i32;
 
         // Subtract 2 from exponent and adjust significand in prep of step 2.
         exp2 -= 2;
@@ -141,9 +148,8 @@ impl DecNumRepr {
 
         // Step 2: Compute the halfway points to the next smaller and larger
         // floating point values.
-        let is_non_integer = exp2 < -(signif2.trailing_zeros() as i32);
         let lower_signif2 =
-            &signif2 - &U256::from(1 + is_non_integer as u128);
+            &signif2 - &U256::from(2 - is_pow2_boundary as u128);
         let upper_signif2 = &signif2 + &U256::TWO;
 
         // Step 3: Convert the interval to a decimal power base.
@@ -213,13 +219,13 @@ impl DecNumRepr {
                 // zero bits.
                 rem_zero = true;
                 if accept_bounds {
-                    // lower_signif2 = signif2 - 1 - is_non_integer, so it has
-                    // a trailing zero bit if f is not an integer.
-                    lower_rem_zero = is_non_integer;
+                    // lower_signif2 = signif2 - 2 + is_pow2_boundary, so it
+                    // has a trailing zero bit if f is not at the boundary.
+                    lower_rem_zero = !is_pow2_boundary;
                 } else {
                     // uppper_signif2 = signif2 + 2, so it always has at least
                     // one trailing zero bit.
-                    signif10.decr();
+                    upper_signif10.decr();
                 }
             } else if g <= 238 {
                 // signif2 has atmost 239 bits, i.e atmost 238 trailing
@@ -259,6 +265,8 @@ impl DecNumRepr {
             if round_digit > 5  // need to round up
                 || (round_digit == 5    // need to round to even
                 && (!rem_zero || signif10.lo.is_odd()))
+                || (signif10 == lower_signif10  // lower bound not included
+                && !(accept_bounds && lower_rem_zero))
             {
                 signif10.incr();
             }
-- 
2.43.0


From 1768f03d595829eb1d2d4aa91d8464b1eaef6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 12/18] fix: scientific format determines the decimal exponent
 exactly

---
 src/conv/to_str/common.rs        | 12 -----
 src/conv/to_str/to_fixed_prec.rs | 78 +++++++++++++++++++++++---------
 2 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/src/conv/to_str/common.rs b/src/conv/to_str/common.rs
index ec66d52..cd398d6 100644
--- a/src/conv/to_str/common.rs
+++ b/src/conv/to_str/common.rs
@@ -7,10 +7,6 @@
 // $Source$
 // $Revision$
 
-use core::f64::consts::LOG10_2;
-
-use crate::U256;
-
 /// Returns ⌊log₁₀(2ⁱ)⌋.
 #[inline(always)]
 #[allow(clippy::cast_possible_truncation)]
@@ -18,14 +14,6 @@ pub(crate) const fn floor_log10_pow2(i: i32) -> i32 {
     ((i as i128 * 169464822037455) >> 49) as i32
 }
 
-/// Returns ⌊log₁₀(m × 2ⁱ)⌋.
-#[inline(always)]
-#[allow(clippy::cast_possible_truncation)]
-#[allow(clippy::cast_precision_loss)]
-pub(crate) fn floor_log10f(m: U256, i: i32) -> i32 {
-    (((m.hi.0 as f64).log2() + 128_f64 + (i as f64)) * LOG10_2).trunc() as i32
-}
-
 // The following code is copied from rust stdlib.
 // TODO: replace it when Integer::{ilog,ilog2,ilog10} got stable.
 
diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 56339c8..83aa84c 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -27,7 +27,7 @@ use f256_pow2_div_pow10_lut::{
 };
 
 use super::{
-    common::{floor_log10, floor_log10_pow2, floor_log10f},
+    common::{floor_log10, floor_log10_pow2},
     dec_repr::DecNumRepr,
     formatted::{Formatted, Part},
     powers_of_five::{get_power_of_five, is_multiple_of_pow5},
@@ -234,17 +234,17 @@ fn split_into_buf(buf: &mut String, s: &str) {
     buf.push_str(&s[1..]);
 }
 
+/// Returns the prec+1 left-most decimal digits of signif2 × 2ᵉˣᵖ², given
+/// exp10 = ⌊log₁₀(signif2 × 2ᵉˣᵖ²)⌋, rounded tie to even.
 #[allow(clippy::cast_possible_truncation)]
 #[allow(clippy::cast_possible_wrap)]
 #[allow(clippy::cast_sign_loss)]
-fn bin_small_float_2_scientific(
-    signif2: U256,
+fn small_float_digits(
+    signif2: &U256,
     exp2: i32,
     prec: usize,
-    buf: &mut String,
-) -> (Round, i32) {
-    debug_assert!(exp2 > -(SIGNIFICAND_BITS as i32) && exp2 < 0);
-    let mut exp10 = floor_log10f(signif2, exp2);
+    exp10: i32,
+) -> String {
     // Need to calculate the prec+1 left-most decimal digits of the number.
     // -237 < exp2 < 0
     // 0 <= exp10 < 71
@@ -280,11 +280,28 @@ fn bin_small_float_2_scientific(
         let mut t = signif2.rounding_div(&d);
         U512::from_hi_lo(U256::ZERO, t)
     };
-    let mut s = signif10.to_string();
+    signif10.to_string()
+}
+
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn bin_small_float_2_scientific(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> (Round, i32) {
+    debug_assert!(exp2 > -(SIGNIFICAND_BITS as i32) && exp2 < 0);
+    // The estimate is based on the power of two only, thus it may be one less
+    // than the actual exponent. In this case, as well as if the rounding
+    // overflows, there is one digit in excess and we need to start again with
+    // the next exponent.
+    let mut exp10 = floor_log10_pow2(signif2.msb() as i32 + exp2);
+    let mut s = small_float_digits(&signif2, exp2, prec, exp10);
     if s.len() > prec + 1 {
-        // rounding overflow
-        s = s[..s.len() - 1].to_string();
         exp10 += 1;
+        s = small_float_digits(&signif2, exp2, prec, exp10);
     }
     if prec == 0 {
         buf.push_str(&s);
@@ -294,19 +311,17 @@ fn bin_small_float_2_scientific(
     (Round::Down, exp10)
 }
 
+/// Returns the prec+1 left-most decimal digits of signif2 × 2ᵉˣᵖ², given
+/// exp10 = ⌊log₁₀(signif2 × 2ᵉˣᵖ²)⌋, rounded tie to even.
 #[allow(clippy::cast_possible_truncation)]
 #[allow(clippy::cast_possible_wrap)]
 #[allow(clippy::cast_sign_loss)]
-fn bin_small_int_2_scientific(
-    signif2: U256,
+fn small_int_digits(
+    signif2: &U256,
     exp2: i32,
     prec: usize,
-    buf: &mut String,
-) -> (Round, i32) {
-    debug_assert!(
-        exp2 >= 0 && exp2 <= (U512::BITS - SIGNIFICAND_BITS) as i32
-    );
-    let mut exp10 = floor_log10f(signif2, exp2);
+    exp10: i32,
+) -> String {
     // Need to calculate the prec+1 left-most decimal digits of the number.
     // 0 <= exp2 <= 275
     // 71 <= exp10 <= 154
@@ -316,7 +331,7 @@ fn bin_small_int_2_scientific(
     // -4 <= k <= 154
     let signif10 = if k > 0 {
         // signif10 = ⌊signif2 × 2ⁿ / 10ᵏ⌋
-        let mut t = U512::from_hi_lo(U256::ZERO, signif2);
+        let mut t = U512::from_hi_lo(U256::ZERO, *signif2);
         t <<= exp2 as u32;
         rounding_div_pow10(&t, k as u32)
     } else {
@@ -325,11 +340,30 @@ fn bin_small_int_2_scientific(
         let (lo, hi) = signif2.widening_mul(&t);
         U512::from_hi_lo(hi, lo)
     };
-    let mut s = signif10.to_string();
+    signif10.to_string()
+}
+
+#[allow(clippy::cast_possible_truncation)]
+#[allow(clippy::cast_possible_wrap)]
+#[allow(clippy::cast_sign_loss)]
+fn bin_small_int_2_scientific(
+    signif2: U256,
+    exp2: i32,
+    prec: usize,
+    buf: &mut String,
+) -> (Round, i32) {
+    debug_assert!(
+        exp2 >= 0 && exp2 <= (U512::BITS - SIGNIFICAND_BITS) as i32
+    );
+    // The estimate is based on the power of two only, thus it may be one less
+    // than the actual exponent. In this case, as well as if the rounding
+    // overflows, there is one digit in excess and we need to start again with
+    // the next exponent.
+    let mut exp10 = floor_log10_pow2(signif2.msb() as i32 + exp2);
+    let mut s = small_int_digits(&signif2, exp2, prec, exp10);
     if s.len() > prec + 1 {
-        // rounding overflow
-        s = s[..s.len() - 1].to_string();
         exp10 += 1;
+        s = small_int_digits(&signif2, exp2, prec, exp10);
     }
     if prec == 0 {
         buf.push_str(&s);
-- 
2.43.0


From bd8481d3c434f5f9c4c87b830c8d73a2fc788a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 13/18] fix: decimal digit chunks propagate carries past the
 accuracy of the lookup tables

---
 src/conv/to_str/to_fixed_prec.rs | 100 ++++++++++++++++++++++++-------
 1 file changed, 78 insertions(+), 22 deletions(-)

diff --git a/src/conv/to_str/to_fixed_prec.rs b/src/conv/to_str/to_fixed_prec.rs
index 83aa84c..3b870d3 100644
--- a/src/conv/to_str/to_fixed_prec.rs
+++ b/src/conv/to_str/to_fixed_prec.rs
@@ -44,9 +44,11 @@ enum Round {
     Down,
 }
 
-/// Calculate ⌊x × y / 2ᵏ⌋ % B, where B = 10 ^ CHUNK_SIZE.
+/// Calculate ⌊x × y / 2ᵏ⌋ % B, where B = 10 ^ CHUNK_SIZE, together with two
+/// flags telling whether the most significant k - 256 fractional bits of
+/// x × y / 2ᵏ are all zeroes or all ones.
 #[inline(always)]
-fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
+fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> (u64, bool, bool) {
     debug_assert!(k > 256);
     let mut t = x.widening_mul(&y.hi);
     let mut res = U512::from_hi_lo(t.1, t.0);
@@ -56,8 +58,16 @@ fn mul_shift_mod(x: &U256, y: &U512, k: u32) -> u64 {
     if carry {
         res.hi.incr();
     }
-    res >>= (k - 256);
-    (res % CHUNK_BASE as u128) as u64
+    let n_fract_bits = k - 256;
+    let fract = res.rem_pow2(n_fract_bits);
+    let mut next = fract;
+    next.incr();
+    res >>= n_fract_bits;
+    (
+        (res % CHUNK_BASE as u128) as u64,
+        fract.is_zero(),
+        next.msb() == n_fract_bits,
+    )
 }
 
 #[inline(always)]
@@ -72,6 +82,52 @@ fn pow10_div_pow2(segment_idx: usize, chunk_idx: usize) -> U512 {
     U512::from_hi_lo(U256::new(0, t.0), U256::new(t.1, t.2))
 }
 
+/// Returns the chunk of decimal digits of a large integer with index
+/// chunk_idx.
+fn large_int_chunk(
+    signif2: &U256,
+    segment_idx: usize,
+    chunk_idx: u32,
+    shift: u32,
+) -> u64 {
+    let t = pow2_div_pow10(segment_idx, chunk_idx as usize);
+    let (chunk, fract_is_zero, _) = mul_shift_mod(signif2, &t, shift);
+    // The table entries are rounded up. If the calculated fraction is next to
+    // zero, the actual value may be less than the calculated integral part.
+    // In this case the next chunk (or its successors) consists of nines.
+    if fract_is_zero
+        && chunk_idx + 1 < CHUNK_CUTOFF
+        && large_int_chunk(signif2, segment_idx, chunk_idx + 1, shift)
+            >= (CHUNK_BASE >> 1)
+    {
+        return if chunk == 0 { CHUNK_BASE } else { chunk } - 1;
+    }
+    chunk
+}
+
+/// Returns the chunk of decimal digits of a fractional number with index
+/// chunk_idx.
+fn fract_chunk(
+    signif2: &U256,
+    segment_idx: usize,
+    chunk_idx: u32,
+    shift: u32,
+) -> u64 {
+    let t = pow10_div_pow2(segment_idx, chunk_idx as usize);
+    let (chunk, _, fract_is_max) = mul_shift_mod(signif2, &t, shift);
+    // The table entries are rounded down. If the calculated fraction is next
+    // to one, the actual value may have reached the next integer. In this
+    // case the next chunk (or its successors) consists of zeroes.
+    if fract_is_max
+        && chunk_idx + 1 < CHUNK_CUTOFF
+        && fract_chunk(signif2, segment_idx, chunk_idx + 1, shift)
+            < (CHUNK_BASE >> 1)
+    {
+        return if chunk == CHUNK_BASE - 1 { 0 } else { chunk + 1 };
+    }
+    chunk
+}
+
 #[allow(clippy::integer_division)]
 #[allow(clippy::cast_possible_truncation)]
 #[allow(clippy::cast_possible_wrap)]
@@ -104,8 +160,8 @@ fn bin_fract_2_dec_str(
         "Internal limit for significant fractional digits exceeded."
     );
     for chunk_idx in 0..n_signif_chunks {
-        let t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        let mut chunk = mul_shift_mod(&signif2, &t, shift);
+        let mut chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx, shift);
         if chunk_idx < n_signif_chunks - 1 {
             buf.push_str(
                 format!("{:01$}", chunk, CHUNK_SIZE as usize).as_str(),
@@ -390,13 +446,13 @@ fn bin_large_int_2_scientific(
     let shift = segment_shift - exp2 as u32;
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
-    let mut t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk =
+        large_int_chunk(&signif2, segment_idx, chunk_idx, shift);
     if chunk == 0 {
         n_chunks -= 1;
         chunk_idx += 1;
-        t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            large_int_chunk(&signif2, segment_idx, chunk_idx, shift);
     }
     let mut chunk_size = CHUNK_SIZE;
     // First chunk:
@@ -426,8 +482,8 @@ fn bin_large_int_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            large_int_chunk(&signif2, segment_idx, chunk_idx, shift);
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -440,8 +496,8 @@ fn bin_large_int_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow2_div_pow10(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            large_int_chunk(&signif2, segment_idx, chunk_idx, shift);
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -495,14 +551,14 @@ fn bin_fract_2_scientific(
     let shift = (segment_shift - exp2) as u32;
     let mut n_rem_digits = prec as u32;
     let mut chunk_idx = 0_u32;
-    let mut t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-    let mut chunk = mul_shift_mod(&signif2, &t, shift);
+    let mut chunk =
+        fract_chunk(&signif2, segment_idx, chunk_idx, shift);
     // There may be an additional zero chunk caused by table compression.
     if chunk == 0 {
         exp10 -= CHUNK_SIZE as i32;
         chunk_idx += 1;
-        t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx, shift);
         debug_assert_ne!(chunk, 0);
     }
     let mut chunk_size = CHUNK_SIZE;
@@ -533,8 +589,8 @@ fn bin_fract_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx, shift);
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
@@ -547,8 +603,8 @@ fn bin_fract_2_scientific(
             chunk_idx < CHUNK_CUTOFF,
             "Internal limit for significant fractional digits exceeded."
         );
-        t = pow10_div_pow2(segment_idx, chunk_idx as usize);
-        chunk = mul_shift_mod(&signif2, &t, shift);
+        chunk =
+            fract_chunk(&signif2, segment_idx, chunk_idx, shift);
         chunk_size = CHUNK_SIZE;
         n_digits = min(chunk_size, n_rem_digits);
     }
-- 
2.43.0


From c883d6bc0b53c11aa2c0eeefe33ee04ab5b76ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 14/18] fix: native-endian bytes are in the byte order of the
 target

---
 src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..ae5c521 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -747,11 +747,12 @@ impl f256 {
     /// byte array in native byte order.
     #[must_use]
     #[inline]
-    #[allow(unsafe_code)]
     pub const fn to_ne_bytes(self) -> [u8; 32] {
-        let bits = self.to_bits();
-        // SAFETY: safe because size of (u128, u128) == size of [u8; 32]
-        unsafe { core::mem::transmute(bits) }
+        if cfg!(target_endian = "big") {
+            self.to_be_bytes()
+        } else {
+            self.to_le_bytes()
+        }
     }
 
     /// Create a floating point value from its representation as a byte array
@@ -790,11 +791,12 @@ impl f256 {
     /// in native endian.
     #[must_use]
     #[inline]
-    #[allow(unsafe_code)]
     pub const fn from_ne_bytes(bytes: [u8; 32]) -> Self {
-        // SAFETY: safe because size of (u128, u128) == size of [u8; 32]
-        let bits: (u128, u128) = unsafe { core::mem::transmute(bytes) };
-        Self::from_bits(bits)
+        if cfg!(target_endian = "big") {
+            Self::from_be_bytes(bytes)
+        } else {
+            Self::from_le_bytes(bytes)
+        }
     }
 
     /// Return the ordering between `self` and `other`.
-- 
2.43.0


From e4d4c4d777a1125ea51618338d31e426c8103756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 15/18] fix: classify recognizes every NaN

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ae5c521..c9956e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,9 +539,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From 438f6325420dfbd142aeb4f5c28e47679fafb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 16/18] fix: to_degrees and to_radians handle special values,
 overflow and underflow

---
 src/lib.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c9956e9..e66e3bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -627,6 +627,34 @@ impl f256 {
         Self::ONE / self
     }
 
+    // Returns self * m / 2ˢʰ, where m >= 2²⁵⁵.
+    #[allow(clippy::cast_possible_wrap)]
+    #[allow(clippy::cast_sign_loss)]
+    fn mul_fraction(self, m: &U256, sh: i32) -> Self {
+        if self.is_special() {
+            // ±0, ±Inf and NaN
+            return self;
+        }
+        let signif = self.integral_significand();
+        let exp = self.quantum_exponent() - sh;
+        let (lo, hi) = m.widening_mul(&signif);
+        let mut t = U512::from_hi_lo(hi, lo);
+        // Round once, to the number of bits left by a subnormal result.
+        let sh = core::cmp::max(
+            t.msb() as i32 - FRACTION_BITS as i32,
+            EMIN - FRACTION_BITS as i32 - exp,
+        );
+        t = t.rounding_div_pow2(sh as u32);
+        if t.lo.is_zero() {
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
+        }
+        if exp + sh + t.lo.msb() as i32 > EMAX {
+            return [Self::INFINITY, Self::NEG_INFINITY]
+                [self.sign() as usize];
+        }
+        Self::encode(self.sign(), exp + sh, t.lo)
+    }
+
     /// Converts radians to degrees.
     ///
     /// Returns self * (180 / π)
@@ -640,13 +668,7 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_fraction(&M, SH)
     }
 
     /// Converts degrees to radians.
@@ -662,13 +684,7 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_fraction(&M, SH)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From 4bc4d69fd92d0ca2bbbcbb5e026913d7b03ebc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 17/18] fix: mul_add handles subnormal operands and results

---
 src/fused_ops/fma.rs | 84 ++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..d2aa809 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -94,6 +94,16 @@ impl u768 {
         (self.hi, borrow) = self.hi.borrowing_sub(rhs.hi, borrow);
     }
 
+    // Shift right, collecting the bits shifted out in the lowest bit.
+    fn sticky_shr(&mut self, n: u32) {
+        debug_assert!(0 < n && n < 256);
+        let sticky = !(&self.lo << (256 - n)).is_zero() as u128;
+        self.lo = &(&self.lo >> n) | &(&self.mi << (256 - n));
+        self.lo.lo.0 |= sticky;
+        self.mi = &(&self.mi >> n) | &(&self.hi << (256 - n));
+        self.hi = &self.hi >> n;
+    }
+
     fn leading_zeros(&self) -> u32 {
         let hi_is_zero = self.hi.is_zero();
         let hi_and_mi_are_zero = hi_is_zero && self.mi.is_zero();
@@ -157,6 +167,17 @@ impl ShlAssign<u32> for u768 {
     }
 }
 
+/// Returns the exponent above Eₘᵢₙ and the normalized significand.
+#[allow(clippy::cast_possible_wrap)]
+fn normalized(abs_bits: &U256) -> (i32, U256) {
+    let signif = signif(abs_bits);
+    let shift = signif.leading_zeros() - EXP_BITS;
+    (
+        exp_bits(abs_bits) as i32 - norm_bit(abs_bits) as i32 - shift as i32,
+        &signif << shift,
+    )
+}
+
 /// Compute z = x * y + a, only once rounded tie to even.
 #[allow(clippy::cast_possible_truncation)]
 #[allow(clippy::cast_possible_wrap)]
@@ -266,16 +287,11 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
 
     // Calculate x * y + a, rounded tie to even.
 
-    // Extract biased exponents and significands.
-    let exp_bits_x = exp_bits(&abs_bits_x) as i32;
-    let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
-    let exp_bits_y = exp_bits(&abs_bits_y) as i32;
-    let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
-    let exp_bits_a = exp_bits(&abs_bits_a) as i32;
-    let norm_bit_a = norm_bit(&abs_bits_a) as i32;
-    let signif_a = signif(&abs_bits_a);
+    // Extract biased exponents and significands. The significands of
+    // subnormal operands are normalized, the exponents adjusted accordingly.
+    let (exp_x, signif_x) = normalized(&abs_bits_x);
+    let (exp_y, signif_y) = normalized(&abs_bits_y);
+    let (exp_a, signif_a) = normalized(&abs_bits_a);
 
     // The significand of product x * y has 2 * FRACTION_BITS = 472 fractional
     // bits. Shifting one operand 2 bits left, gets its radix point aligned at
@@ -292,8 +308,7 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // E(p) = e(x) + e(y) - Eₘᵢₙ
     //      = E(x) - n(x) + Eₘᵢₙ + E(y) - n(y) + Eₘᵢₙ - Eₘᵢₙ
     //      = E(x) - n(x)) + E(y) - n(y) + Eₘᵢₙ
-    let exp_bits_p =
-        (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y) + EMIN;
+    let exp_bits_p = exp_x + exp_y + EMIN;
     // Align the addend based on the difference of the exponents of the addend
     // and the product. Swap the operands, so that the larger one is the
     // first. The sign of the result is the sign of the larger operand.
@@ -304,7 +319,7 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     //   = E(a) - n(a) + Eₘᵢₙ - (E(x) - n(x) + Eₘᵢₙ) - (E(y) - n(y) + Eₘᵢₙ)
     //   = E(a) - n(a) + Eₘᵢₙ - (E(x) - n(x) + (E(y) - n(y) + Eₘᵢₙ) - Eₘᵢₙ
     //   = E(a) - n(a) - E(p)
-    let d = exp_bits_a - norm_bit_a - exp_bits_p;
+    let d = exp_a - exp_bits_p;
     const ADDEND_TOO_SMALL_UPPER_LIMIT: i32 =
         -2 * SIGNIFICAND_BITS as i32 + 1;
     const PROD_ANCHORED_LOWER_LIMIT: i32 = ADDEND_TOO_SMALL_UPPER_LIMIT + 1;
@@ -340,9 +355,9 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
             (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
         }
         _ => {
-            // Product too small.
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, 0);
-            (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
+            // |p| is less than a quarter of the distance between a and its
+            // neighbours.
+            return *a;
         }
     };
     // Calculate |p + a|.
@@ -356,26 +371,27 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         return f256::ZERO;
     }
     // Calculate exponent and normalize result.
-    let (exp_bits_m1_z, shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
-        let n = signif_z_nlz - EXP_BITS;
-        let carry = REL_OFFSET as i32 - n as i32;
-        let t = exp_bits_p + carry + 1;
-        // If the result overflows the range of values representable as
-        // `f256`, return +/- Infinity.
-        if t >= EXP_MAX as i32 {
-            return f256 {
-                bits: U256::new(sign_bits_hi_z | INF_HI, 0),
-            };
-        }
-        if t >= 1 {
-            (t - 1, n)
-        } else {
-            (0, REL_OFFSET)
-        }
+    let n = signif_z_nlz - EXP_BITS;
+    let carry = REL_OFFSET as i32 - n as i32;
+    let t = exp_bits_p + carry + 1;
+    // If the result overflows the range of values representable as
+    // `f256`, return +/- Infinity.
+    if t >= EXP_MAX as i32 {
+        return f256 {
+            bits: U256::new(sign_bits_hi_z | INF_HI, 0),
+        };
+    }
+    // The radix point of a subnormal result is determined by Eₘᵢₙ.
+    let (exp_bits_m1_z, shl) = if t >= 1 {
+        (t - 1, n as i32)
     } else {
-        (exp_bits_a - 1, 0)
+        (0, REL_OFFSET as i32 + exp_bits_p)
     };
-    *signif_z <<= shl;
+    if shl >= 0 {
+        *signif_z <<= shl as u32;
+    } else {
+        signif_z.sticky_shr(shl.unsigned_abs());
+    }
     // Now we have the results preliminary significand in signif_z.hi, before
     // rounding.
     debug_assert!(signif_z.hi.leading_zeros() >= EXP_BITS);
-- 
2.43.0


From 31de8fe8ec7ede958b8618fa961f47198745edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 18/18] fix: long division does not overflow or overshoot when
 the high part of the divisor is small

---
 src/big_uint/uint_generic/binops/divrem.rs | 49 +++++++---------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..c6932aa 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -111,41 +111,22 @@ where
             // self < rhs
             return (UInt::<SubUInt>::ZERO, *self);
         } else {
-            // estimate the quotient
-            let nlz = self.hi.leading_zeros();
-            let mut quot = UInt::<SubUInt>::from_hi_lo(
-                SubUInt::ZERO,
-                (self << nlz).hi / (rhs << nlz).hi,
-            );
-            // trim the estimate
-            let mut t = *rhs;
-            t *= &quot;
-            match (&t).cmp(&self) {
-                Ordering::Greater => {
-                    let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
-                    debug_assert!(n.hi.is_zero());
-                    quot -= &n;
-                    d = *rhs;
-                    d *= &n;
-                    t -= &d;
-                }
-                Ordering::Less => {
-                    let (u, ovl) = t.overflowing_add(&rhs);
-                    if ovl {
-                        let mut d = self - &t;
-                        let (n, _) = d.div_rem(*rhs);
-                        debug_assert!(n.hi.is_zero());
-                        quot += &n;
-                        d = *rhs;
-                        d *= &n;
-                        t += &d;
-                    }
-                }
-                Ordering::Equal => return (quot, UInt::<SubUInt>::ZERO),
+            // Estimate the quotient, based on the normalized divisors high
+            // part (see H. S. Warren, Hacker's Delight, udivdi3). The
+            // estimate is at most one less than the quotient.
+            let nlz = rhs.hi.leading_zeros();
+            let (t, _) =
+                (self >> 1).div_rem_subuint_special(&(rhs << nlz).hi);
+            let mut quot = t.lo >> (SubUInt::BITS - 1 - nlz);
+            if !quot.is_zero() {
+                quot.decr();
+            }
+            let mut quot = UInt::<SubUInt>::from_hi_lo(SubUInt::ZERO, quot);
+            let mut rem = self - &(rhs * &quot);
+            if rem >= *rhs {
+                quot.incr();
+                rem -= rhs;
             }
-            let rem = self - &t;
             (quot, rem)
         }
     }
-- 
2.43.0

