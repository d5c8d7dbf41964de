From acb1e08993f3c13267a9404e9a7a9e5466ac4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 01/37] verif hook: Clone and read-only views of the pools
 under cfg(hmmcl_verif)

---
 .../src/cl_pool/cl_components.rs              |  3 +++
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     | 22 +++++++++++++++++++
 .../src/cl_pool_float/cl_components.rs        |  3 +++
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 22 +++++++++++++++++++
 4 files changed, 50 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
index fef37b5..e2c3fd2 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@@ -2,6 +2,7 @@ use crate::decimal::{Add, Decimal};
 
 // #[allow(dead_code)] // for indiv struct
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct PoolToken<'a> {
     name: &'a str,
     decimals: u8,
@@ -14,6 +15,7 @@ impl<'a> PoolToken<'a> {
 }
 
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct GlobalState {
     /// contract global state
     liq: Decimal, // liquidity
@@ -182,6 +184,7 @@ impl TickState {
     }
 }
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct PositionState {
     ///Position Indexed State
     liq: Decimal, // liquidity
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..ef25d22 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -15,9 +15,11 @@ use std::{
 };
 
 #[derive(Debug, PartialEq, Eq, Hash)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct PositionKey<'a>(&'a str, u128, u128);
 
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct Pool<'a> {
     token_x: PoolToken<'a>,
     token_y: PoolToken<'a>,
@@ -1175,3 +1177,23 @@ impl<'a> Pool<'a> {
         return SwapOutput::new(swpd_dy, swpd_dx, adjusted_dx, total_fee_y, avg_p, end_p);
     }
 }
+
+// Read-only views for runtime monitors. Compiled only with RUSTFLAGS="--cfg hmmcl_verif".
+#[cfg(hmmcl_verif)]
+impl<'a> Pool<'a> {
+    /// every position record: (owner, lower tick, upper tick, liquidity)
+    pub fn verif_positions(&self) -> Vec<(&'a str, u128, u128, Decimal)> {
+        self.positions
+            .iter()
+            .map(|(key, poz)| (key.0, key.1, key.2, poz.liq()))
+            .collect()
+    }
+
+    /// every active tick: (tick, net liquidity, gross liquidity)
+    pub fn verif_ticks(&self) -> Vec<(u128, Decimal, Decimal)> {
+        self.active_ticks
+            .iter()
+            .map(|(tick, ts)| (*tick, ts.liq_net(), ts.liq_gross()))
+            .collect()
+    }
+}
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_components.rs
index 4f13366..325c1e9 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_components.rs
@@ -1,5 +1,6 @@
 // #[allow(dead_code)] // for indiv struct
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct PoolToken<'a> {
     name: &'a str,
     decimals: u8,
@@ -12,6 +13,7 @@ impl<'a> PoolToken<'a> {
 }
 
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct GlobalState {
     /// contract global state
     liq: f64, // liquidity
@@ -153,6 +155,7 @@ impl TickState {
     }
 }
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct PositionState {
     ///Position Indexed State
     liq: f64, // liquidity
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b13b2c..bf290df 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -10,9 +10,11 @@ pub use cl_math::PoolMath;
 use std::collections::{BTreeMap, HashMap};
 
 #[derive(Debug, PartialEq, Eq, Hash)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct PositionKey<'a>(&'a str, u32, u32);
 
 #[derive(Debug)]
+#[cfg_attr(hmmcl_verif, derive(Clone))]
 pub struct Pool<'a> {
     token_x: PoolToken<'a>,
     token_y: PoolToken<'a>,
@@ -995,3 +997,23 @@ impl<'a> Pool<'a> {
         return SwapOutput::new(swpd_dy, swpd_dx, adjusted_dx, total_fee_y, avg_p, end_p);
     }
 }
+
+// Read-only views for runtime monitors. Compiled only with RUSTFLAGS="--cfg hmmcl_verif".
+#[cfg(hmmcl_verif)]
+impl<'a> Pool<'a> {
+    /// every position record: (owner, lower tick, upper tick, liquidity)
+    pub fn verif_positions(&self) -> Vec<(&'a str, u32, u32, f64)> {
+        self.positions
+            .iter()
+            .map(|(key, poz)| (key.0, key.1, key.2, poz.liq()))
+            .collect()
+    }
+
+    /// every active tick: (tick, net liquidity, gross liquidity)
+    pub fn verif_ticks(&self) -> Vec<(u32, f64, f64)> {
+        self.active_ticks
+            .iter()
+            .map(|(tick, ts)| (*tick, ts.liq_net(), ts.liq_gross()))
+            .collect()
+    }
+}
-- 
2.43.0


From dafdd7b53b26164b172946f0ea6413524896e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 02/37] fix: compare negative zero as equal to zero

---
 programs/hmmcl-sandbox/src/decimal.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 8ee79bd..e3e2661 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -567,7 +567,7 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            Ok(self.value == other.value && self.negative == other.negative)
+            Ok(self.value == other.value && self.is_negative() == other.is_negative())
         }
     }
 
@@ -576,11 +576,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value > other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value < other.value)
@@ -593,11 +593,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value < other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value > other.value)
@@ -610,11 +610,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value <= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value >= other.value)
@@ -627,11 +627,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value >= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value <= other.value)
-- 
2.43.0


From 8c70dee0eb0c03b7ccab067bd212ff062aaed309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 03/37] fix: to_scale_up keeps the sign of a negative decimal

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index e3e2661..46bbe6b 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -145,13 +145,13 @@ impl Decimal {
             decimal.div_up(Self::new(
                 10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         } else {
             decimal.mul_up(Self::new(
                 10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         }
     }
-- 
2.43.0


From 8d3e13dd49a59c9089e1907ee88a6f1edf326ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 04/37] fix: integer powers of negative decimals get the right
 sign and no spurious overflow

---
 programs/hmmcl-sandbox/src/decimal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 46bbe6b..6e66f9c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -500,7 +500,7 @@ impl Pow<u128> for Decimal {
         let one = Decimal {
             value: self.denominator(),
             scale: self.scale,
-            negative: self.negative,
+            negative: false,
         };
 
         if exp == 0 {
@@ -516,7 +516,9 @@ impl Pow<u128> for Decimal {
                 result = result.mul(base);
             }
             current_exp /= 2;
-            base = base.mul(base);
+            if current_exp > 0 {
+                base = base.mul(base);
+            }
         }
         return result;
     }
-- 
2.43.0


From 98552bf188eededeff63536f485fd779801f62fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 05/37] fix: square root of a negative decimal is an error

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 6e66f9c..5ef38d8 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -999,6 +999,10 @@ impl Sqrt<Decimal> for Decimal {
         let zero = Decimal::new(0, self.scale, false);
         let one = Decimal::from_u128(1).to_scale(self.scale);
 
+        if self.is_negative() {
+            return Err(ErrorCode::SignedDecimalsNotSupported.into());
+        }
+
         if self.value.lt(&0u128) || self.value.gt(&u128::MAX) {
             return Err(ErrorCode::ExceedsRange.into());
         }
-- 
2.43.0


From 2fef16d7cbc6f96ed441acde98e85ae12c9077c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 06/37] fix: parse decimals with exponents exactly and reject
 malformed strings with an error

---
 programs/hmmcl-sandbox/src/decimal.rs | 49 ++++++++++++++++-----------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 5ef38d8..19ee1da 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -9,6 +9,9 @@ use thiserror::Error;
 /// Internal scale used for high precision compute operations
 pub const COMPUTE_SCALE: u8 = 12;
 
+/// Largest scale whose denominator (10^scale) fits the internal 128-bit value
+pub const MAX_SCALE: u8 = 38;
+
 /// Error codes related to [Decimal].
 #[derive(Error, Debug)]
 pub enum ErrorCode {
@@ -209,7 +212,7 @@ impl Decimal {
             Some(loc) => {
                 // slice up to `loc` and 1 after to skip the 'e' char
                 let (base, exp) = (&s[..loc], &s[loc + 1..]);
-                (base, i64::from_str(exp).unwrap())
+                (base, i64::from_str(exp).map_err(|_| ErrorCode::ParseError)?)
             }
         };
 
@@ -251,25 +254,31 @@ impl Decimal {
             }
         };
 
-        let scale = (decimal_offset - exp).abs() as u8;
-
-        if exp.is_positive() {
-            Ok(Decimal::new(
-                Decimal::from_str(base.as_str())
-                    .expect("decimal of base")
-                    .to_scale(exp.abs() as u8)
-                    .value,
-                0,
-                negative,
-            )
-            .to_scale(exp.abs() as u8))
-        } else {
-            Ok(Decimal::new(
-                u128::from_str_radix(&digits, radix).unwrap(),
-                scale,
-                negative,
-            ))
-        }
+        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(ErrorCode::ParseError.into());
+        }
+        let value = u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ExceedsRange)?;
+
+        // number of decimal places left (if positive) or whole tens to add (if negative)
+        // once the exponent is applied to the digit string
+        let places = decimal_offset
+            .checked_sub(exp)
+            .ok_or(ErrorCode::ExceedsPrecisionRange)?;
+        // positive exponents also set the scale, unless more decimal places are needed
+        let scale = places.max(exp).max(0);
+        let upscale: u32 = scale
+            .checked_sub(places)
+            .and_then(|tens| tens.try_into().ok())
+            .ok_or(ErrorCode::ExceedsPrecisionRange)?;
+        if scale > MAX_SCALE.into() {
+            return Err(ErrorCode::ExceedsPrecisionRange.into());
+        }
+        let value = 10u128
+            .checked_pow(upscale)
+            .and_then(|tens| value.checked_mul(tens))
+            .ok_or(ErrorCode::ExceedsRange)?;
+
+        Ok(Decimal::new(value, scale as u8, negative))
     }
 }
 
-- 
2.43.0


From 7ac0fa5984ca37fba5dca6648fdaee6f27080e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 07/37] fix: conversion to i32 panics instead of truncating out
 of range values

---
 programs/hmmcl-sandbox/src/decimal.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 19ee1da..971011e 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -1,5 +1,5 @@
 use ndarray::{arr2, Array2};
-use std::convert::TryInto;
+use std::convert::{TryFrom, TryInto};
 use std::fmt;
 use std::iter::repeat;
 use std::ops::Neg;
@@ -565,7 +565,8 @@ impl Into<f64> for Decimal {
 impl Into<i32> for Decimal {
     fn into(self) -> i32 {
         let sign = if self.negative { -1i32 } else { 1i32 };
-        (self.value as i32)
+        i32::try_from(self.value)
+            .expect("signed integer")
             .checked_mul(sign)
             .expect("signed integer")
     }
-- 
2.43.0


From 417c2bed317d8edcbbc02debe5acbd9605457cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 08/37] fix: powers of ten beyond 128 bits panic instead of
 wrapping in release builds

---
 programs/hmmcl-sandbox/src/decimal.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 971011e..56aa285 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -128,11 +128,11 @@ impl Decimal {
         Self {
             value: if self.scale > scale {
                 self.value
-                    .checked_div(10u128.pow((self.scale.checked_sub(scale).unwrap()).into()))
+                    .checked_div(pow10((self.scale.checked_sub(scale).unwrap()).into()))
                     .expect("scaled_down")
             } else {
                 self.value
-                    .checked_mul(10u128.pow((scale.checked_sub(self.scale).unwrap()).into()))
+                    .checked_mul(pow10((scale.checked_sub(self.scale).unwrap()).into()))
                     .expect("scaled_up")
             },
             scale,
@@ -146,13 +146,13 @@ impl Decimal {
         let decimal = Self::new(self.value, scale, self.negative);
         if self.scale >= scale {
             decimal.div_up(Self::new(
-                10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
+                pow10((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
                 false,
             ))
         } else {
             decimal.mul_up(Self::new(
-                10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
+                pow10((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
                 false,
             ))
@@ -166,7 +166,7 @@ impl Decimal {
 
     /// Show the scale of a [Decimal] expressed as a power of 10.
     pub fn denominator(self) -> u128 {
-        10u128.pow(self.scale.into())
+        pow10(self.scale.into())
     }
 
     /// Returns true if [Decimal] is positive and false if the number is zero or negative.
@@ -282,6 +282,11 @@ impl Decimal {
     }
 }
 
+/// 10^exp, panics when it does not fit instead of wrapping around in release builds.
+fn pow10(exp: u32) -> u128 {
+    10u128.checked_pow(exp).expect("power of ten")
+}
+
 /// Multiply another [Decimal] value against itself, including signed multiplication.
 impl Mul<Decimal> for Decimal {
     fn mul(self, rhs: Decimal) -> Self {
@@ -438,11 +443,11 @@ impl DivScale<Decimal> for Decimal {
             self.value
                 .checked_div(rhs.value)
                 .expect("checked_div")
-                .checked_div(10u128.pow(decimal_difference.try_into().unwrap()))
+                .checked_div(pow10(decimal_difference.try_into().unwrap()))
                 .expect("checked_div")
         } else {
             self.value
-                .checked_mul(10u128.pow((-decimal_difference).try_into().unwrap()))
+                .checked_mul(pow10((-decimal_difference).try_into().unwrap()))
                 .expect("checked_mul")
                 .checked_div(rhs.value)
                 .expect("checked_div")
-- 
2.43.0


From 5ab5d3aaea15765076495d5cefbfb126a073c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 09/37] fix: natural log of small values and of values next to
 a power of two

---
 programs/hmmcl-sandbox/src/decimal.rs | 32 ++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 56aa285..4f518d9 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -960,13 +960,33 @@ impl Ln<Decimal> for Decimal {
 
         let bit_length_decimal = self.bit_length().expect("bit_length");
 
-        // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
-        let max = Decimal::from_u64(2)
-            .to_scale(6)
-            .pow(bit_length_decimal.to_scale(6))
-            .to_compute_scale();
+        // normalise to [1, 2) by shifting, as 2^bits may not be exact at any scale
+        let bits = bit_length_decimal.value as u32;
+        let mut bits = if bit_length_decimal.is_negative() {
+            -(bits as i32)
+        } else {
+            bits as i32
+        };
+        let shifted = |bits: i32| Decimal {
+            value: if bits < 0 {
+                scaled_out
+                    .value
+                    .checked_mul(2u128.checked_pow(-bits as u32).expect("checked_pow"))
+                    .expect("checked_mul")
+            } else {
+                scaled_out.value >> bits
+            },
+            ..scaled_out
+        };
+        // the bit length comes from floating point: it may be off by one next to powers of 2
+        if shifted(bits).lt(Decimal::one()).unwrap() {
+            bits -= 1;
+        } else if shifted(bits).gte(Decimal::two()).unwrap() {
+            bits += 1;
+        }
+        let bit_length_decimal = Decimal::new(bits.unsigned_abs().into(), 0, bits < 0);
 
-        let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
+        let (s_0, t_0, lx_0) = log_table_value(shifted(bits), Decimal::one(), 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
         let (s_2, t_2, lx_2) = log_table_value(s_1, t_1, 2);
         let (s_3, t_3, lx_3) = log_table_value(s_2, t_2, 3);
-- 
2.43.0


From 607d6a595c6fcf75c28efa1b64bdea870236e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 10/37] fix: sign of the Y amount of an HMM swap with c = 1

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs       | 4 ++--
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 2 +-
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..dc534b1 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -332,10 +332,10 @@ pub trait PoolMath {
             panic!("root-prices should not be nil");
         }
         if c.to_compute_scale().eq(one).unwrap() {
-            // l * rp_oracle * (rp_old / rp_new).ln()
+            // l * rp_oracle * (rp_new / rp_old).ln()
             let ln_rp_old = rp_old.ln().unwrap();
             let ln_rp_new = rp_new.ln().unwrap();
-            let log_of_ratio = ln_rp_old.sub(ln_rp_new).unwrap();
+            let log_of_ratio = ln_rp_new.sub(ln_rp_old).unwrap();
 
             return l.mul(rp_oracle).mul(log_of_ratio);
         } else {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f7dc987..e21be1d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -152,7 +152,7 @@ pub trait PoolMath {
     fn dy_from_l_drp_hmm(l: f64, rp_old: f64, rp_new: f64, c: f64, rp_oracle: f64) -> f64 {
         // chg of reserve y based of chg of price with hmm adj
         if c == 1.0 {
-            l * rp_oracle * (rp_old / rp_new).ln()
+            l * rp_oracle * (rp_new / rp_old).ln()
         } else {
             let omc = 1.0 - c; // one minus c
             l * rp_oracle.powf(c) * (rp_new.powf(omc) - rp_old.powf(omc)) / omc
diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ebe0968..93b0f51 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -264,7 +264,7 @@ class Pool:
     def dY_from_L_drP_hmm(L, rP_old, rP_new, C, rP_oracle):
         """Chg of reserve Y based of chg of price with HMM adj"""
         if C == 1.0:
-            return L * rP_oracle * math.log(rP_old / rP_new)
+            return L * rP_oracle * math.log(rP_new / rP_old)
         else:
             omc = 1.0 - C  # one minus C
             return L * (rP_oracle ** C) * (rP_new ** omc - rP_old ** omc) / omc
-- 
2.43.0


From 3c13d8737513f68db67511d570896c309786db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 11/37] fix: map a root price to the tick whose root price
 actually brackets it

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index dc534b1..25a7fce 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -50,17 +50,22 @@ pub trait PoolMath {
         let m = Self::tick_base_root();
         let mut rez = m.pow(start);
         let mut x = start;
-        let result = loop {
+        while rez.mul(m).lt(rp).unwrap() {
             rez = rez.mul(m);
-            if rez.gte(rp).unwrap() {
-                match left_to_right {
-                    true => break x.checked_add(1).unwrap(),
-                    false => break x,
-                }
-            }
             x = x.checked_add(1).unwrap();
-        };
-        result
+        }
+        // the running product drifts away from tick_to_rp and start is only a hint:
+        // settle on the tick whose own root price brackets rp
+        while x > 0 && Self::tick_to_rp(x).gt(rp).unwrap() {
+            x = x.checked_sub(1).unwrap();
+        }
+        while Self::tick_to_rp(x.checked_add(1).unwrap()).lte(rp).unwrap() {
+            x = x.checked_add(1).unwrap();
+        }
+        match left_to_right {
+            true if Self::tick_to_rp(x).lt(rp).unwrap() => x.checked_add(1).unwrap(),
+            _ => x,
+        }
     }
 
     fn tk_to_possible_tk(tick: u128, spacing: u128, left_to_right: bool) -> u128 {
-- 
2.43.0


From 532e174282ffd853f5e9dff58e095265717a4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 12/37] fix: a swap ending next to an active tick stays on the
 side of the tick it did not cross

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 12 +++++++-----
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 10 ++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef25d22..bcb597a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -700,8 +700,9 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            // goal tick is not crossed: rounding should not take us to its other side
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx).max(rp_goal);
+            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick).max(goal_tick);
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -962,10 +963,11 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
+            // goal tick is not crossed: rounding should not take us to its other side
+            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy).min(rp_goal);
             // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            let seek_start = self.tick_to_possible_tick(self.glbl_tick().saturating_sub(1), false);
+            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start).min(goal_tick - 1);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index bf290df..4b52f26 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -565,8 +565,9 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx - dx_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // goal tick is not crossed: rounding should not take us to its other side
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx).max(rp_goal);
+            end_t = Pool::rp_to_tick(end_rp, false).max(goal_tick);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -804,8 +805,9 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy - dy_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // goal tick is not crossed: rounding should not take us to its other side
+            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy).min(rp_goal);
+            end_t = Pool::rp_to_tick(end_rp, false).min(goal_tick - 1);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 61d543a94c0bdc7251ed7602e0ac0656babbccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 13/37] fix: swaps from Y when the current tick is not a
 multiple of the tick spacing

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 2 ++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index bcb597a..e949ba7 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -243,7 +243,9 @@ impl<'a> Pool<'a> {
         // Caution not to use for cross_tick
 
         // get to initializable tick. we use False here to round down
+        // (a swap may have left the global tick in between initializable ticks)
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b52f26..f45f45b 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -210,7 +210,9 @@ impl<'a> Pool<'a> {
         // Caution not to use for cross_tick
 
         // get to initializable tick. we use False here to round down
+        // (a swap may have left the global tick in between initializable ticks)
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From d70681b0220326d3e6534404272d499f20a895a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 14/37] fix: crossing below tick 0 is rejected instead of
 wrapping the current tick around

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 6 +++++-
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index e949ba7..dde3389 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -215,7 +215,11 @@ impl<'a> Pool<'a> {
         if left_to_right {
             self.set_glbl_tick(provided_tick);
         } else {
-            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))
+            // there is no price below tick 0
+            let tick_below = provided_tick
+                .checked_sub(1)
+                .expect("cannot cross below tick 0");
+            self.set_glbl_tick(self.tick_to_possible_tick(tick_below, left_to_right))
         }
 
         // adjust global liquidity
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index f45f45b..c80e4be 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -182,7 +182,11 @@ impl<'a> Pool<'a> {
         if left_to_right {
             self.set_glbl_tick(provided_tick);
         } else {
-            self.set_glbl_tick(self.tick_to_possible_tick(provided_tick - 1, left_to_right))
+            // there is no price below tick 0
+            let tick_below = provided_tick
+                .checked_sub(1)
+                .expect("cannot cross below tick 0");
+            self.set_glbl_tick(self.tick_to_possible_tick(tick_below, left_to_right))
         }
 
         // adjust global liquidity
-- 
2.43.0


From 329024ee7b1e7c6463f7ab77faa38023dd961efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 15/37] fix: a new position does not claim fees earned before
 it existed

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     | 25 ++++++++++++-------
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 13 ++++++++--
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index dde3389..cd62220 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -433,16 +433,23 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions.insert(
-                    key,
-                    PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                    ),
+                let mut poz = PositionState::new(
+                    liq_delta,
+                    Self::zero(),
+                    Self::zero(),
+                    Self::zero(),
+                    Self::zero(),
                 );
+                // fees earned in the range before the position exists are not its to claim
+                poz.set_fee('x', 'f', new_fr_x);
+                poz.set_fee('y', 'f', new_fr_y);
+                poz.set_fee('x', 'h', new_hr_x);
+                poz.set_fee('y', 'h', new_hr_y);
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
+                self.positions.insert(key, poz);
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index c80e4be..3145fbf 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -381,8 +381,17 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions
-                    .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
+                let mut poz = PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0);
+                // fees earned in the range before the position exists are not its to claim
+                poz.set_fee('x', 'f', new_fr_x);
+                poz.set_fee('y', 'f', new_fr_y);
+                poz.set_fee('x', 'h', new_hr_x);
+                poz.set_fee('y', 'h', new_hr_y);
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
+                self.positions.insert(key, poz);
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From f5410b6243a72beba8502a6b1be6436c9e1822cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 16/37] fix: deposits between ticks initialized at different
 times are not rejected for fees

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index cd62220..b66e5d0 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -390,12 +390,9 @@ impl<'a> Pool<'a> {
         assert_eq!(sum_lwr, sum_upr);
         let fg = sum_lwr;
 
-        let fee_earned = fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap();
-        if fee_earned.is_negative() {
-            panic!("fees earned cannot be negative");
-        }
-
-        fee_earned
+        // only differences over time are meaningful: as each tick starts counting when it is
+        // initialized, the value itself may well be negative
+        fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap()
     }
 
     fn _set_position(
-- 
2.43.0


From 09566bf52420c86a6d2e987b967bebe549ba82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 17/37] fix: float pool does not reject operations over
 rounding of fee growth

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 3145fbf..eb407a1 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -339,12 +339,11 @@ impl<'a> Pool<'a> {
 
     fn fee_rng(&self, lower_tick: u32, upper_tick: u32, token: char, f_or_h: char) -> f64 {
         // Fees earned (per unit of liq) within a range of ticks (e.g. by a position)
-        let (f_blw_lwr, f_abv_lwr) = self.fee_below_above(lower_tick, token, f_or_h);
-        let (f_blw_upr, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
+        let (f_blw_lwr, _) = self.fee_below_above(lower_tick, token, f_or_h);
+        let (_, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
 
-        // retrieve fg by summing up either tuple, they should match
-        assert_eq!(f_blw_lwr + f_abv_lwr, f_blw_upr + f_abv_upr);
-        let fg = f_blw_lwr + f_abv_lwr;
+        // summing up either tuple should give fg, up to float rounding
+        let fg = self.glbl_fee(token, f_or_h);
 
         fg - f_blw_lwr - f_abv_upr
     }
@@ -420,9 +419,11 @@ impl<'a> Pool<'a> {
             }
         }
         // now calulate uncollected fees to be applied
-        let (f_u_x, f_u_y) = (new_fr_x - old_fr_x, new_fr_y - old_fr_y);
-        let (h_u_x, h_u_y) = (new_hr_x - old_hr_x, new_hr_y - old_hr_y);
-        assert!(f_u_x >= 0.0 && f_u_y >= 0.0 && h_u_x >= 0.0 && h_u_y >= 0.0);
+        // (never negative other than by float rounding)
+        let f_u_x = (new_fr_x - old_fr_x).max(0.0);
+        let f_u_y = (new_fr_y - old_fr_y).max(0.0);
+        let h_u_x = (new_hr_x - old_hr_x).max(0.0);
+        let h_u_y = (new_hr_y - old_hr_y).max(0.0);
 
         // update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, false);
-- 
2.43.0


From 0844181ea20f92e3b523ef757d7a53d766f1c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 18/37] fix: depositing or withdrawing nothing does not create
 a position without liquidity

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 4 +++-
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index b66e5d0..58f8741 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -446,7 +446,9 @@ impl<'a> Pool<'a> {
                 old_fr_y = new_fr_y;
                 old_hr_x = new_hr_x;
                 old_hr_y = new_hr_y;
-                self.positions.insert(key, poz);
+                if !liq_delta.is_zero() {
+                    self.positions.insert(key, poz);
+                }
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index eb407a1..7534b25 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -390,7 +390,9 @@ impl<'a> Pool<'a> {
                 old_fr_y = new_fr_y;
                 old_hr_x = new_hr_x;
                 old_hr_y = new_hr_y;
-                self.positions.insert(key, poz);
+                if liq_delta != 0.0 {
+                    self.positions.insert(key, poz);
+                }
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From e42cb934a907d22365b127e27fadbcc1c98f3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 19/37] fix: swaps towards an oracle close to the price are not
 rejected over rounding of the hmm adjustment

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 4 ++++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 58f8741..01adbbe 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -754,6 +754,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // rounding of the hmm formulas should not give out more than cpmm would
+        let done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy.sub(done_dy_cpmm).unwrap();
 
         if done_dy_cpmm.is_positive() {
@@ -1019,6 +1021,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // rounding of the hmm formulas should not give out more than cpmm would
+        let done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx.sub(done_dx_cpmm).unwrap();
 
         if done_dx_cpmm.is_positive() {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 7534b25..f34cb7d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -625,6 +625,8 @@ impl<'a> Pool<'a> {
         done_dy *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dy_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // rounding of the hmm formulas should not give out more than cpmm would
+        let done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy - done_dy_cpmm;
 
         if done_dy_cpmm > 0.0 {
@@ -865,6 +867,8 @@ impl<'a> Pool<'a> {
         done_dx_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dx *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // rounding of the hmm formulas should not give out more than cpmm would
+        let done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx - done_dx_cpmm;
 
         if done_dx_cpmm > 0.0 {
-- 
2.43.0


From 42cba25eaf722f855a403fc93b530742ab40706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 20/37] fix: deposits are not rejected over a rounding unit of
 X, and no more X leaves the pool than a price move is worth

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 25a7fce..26d079a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -155,7 +155,8 @@ pub trait PoolMath {
         let rp = rp.min(rpb).max(rpa);
 
         let rpb_minus_rp = rpb.sub(rp).unwrap();
-        let rp_mul_rpb = rp.mul(rpb);
+        // round up the denominator: the amount should not exceed what l is worth
+        let rp_mul_rpb = rp.mul_up(rpb);
 
         // l * (rpb - rp) / (rp * rpb)
         l.mul(rpb_minus_rp).div(rp_mul_rpb)
@@ -266,7 +267,8 @@ pub trait PoolMath {
             panic!("root price should not be nil");
         }
         let diff = rp_old.sub(rp_new).unwrap();
-        let old_mul_new = rp_old.mul(rp_new);
+        // round up the denominator: no more X should leave the pool than the price move is worth
+        let old_mul_new = rp_old.mul_up(rp_new);
 
         l.mul(diff).div(old_mul_new)
     }
-- 
2.43.0


From e20b3d465ec9b700ee1cd39826cbbe129b2048ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 21/37] fix: current tick account does not overwrite the update
 of the lower or upper tick

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 2 +-
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..4c054cb 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -65,8 +65,8 @@ pub struct Deposit<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read only: it may also be the lower or upper tick, whose update should not be overwritten
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..40e4a8f 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -67,8 +67,8 @@ pub struct Withdraw<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read only: it may also be the lower or upper tick, whose update should not be overwritten
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From 97015fd2923a5ec0e8279cdeaa4707f5de138945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 22/37] fix: deposits are debited rounded up so that the vaults
 cover the liquidity minted

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 4c054cb..7e6aa72 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -302,21 +302,21 @@ pub fn handle(
         liquidity_delta.abs(),
     )?;
 
-    // transfer to vault
+    // transfer to vault (rounded up: it should hold at least what the liquidity is worth)
     token::transfer(
         ctx.accounts.transfer_user_token_x_to_vault(),
-        x_debited.abs(),
+        x_debited.abs_up(),
     )?;
 
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_y_to_vault(),
-        y_debited.abs(),
+        y_debited.abs_up(),
     )?;
 
     emit!(LiquidityAdded {
-        tokens_x_transferred: x_debited.abs(),
-        tokens_y_transferred: y_debited.abs(),
+        tokens_x_transferred: x_debited.abs_up(),
+        tokens_y_transferred: y_debited.abs_up(),
         lp_tokens_minted: liquidity_delta.abs(),
     });
 
-- 
2.43.0


From b072fbc24b04c8a0f2dd650fc42674f77123de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 23/37] fix: float rp_to_tick brackets the root price

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index e21be1d..a8e70a6 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -12,9 +12,17 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: f64, left_to_right: bool) -> u32 {
         let base = Self::TICK_BASE.sqrt();
+        let mut tick = rp.log(base).floor() as u32;
+        // the logarithm of a root price on a tick may land on either side of it:
+        // settle on the tick whose own root price brackets rp
+        if tick > 0 && Self::tick_to_rp(tick) > rp {
+            tick -= 1;
+        } else if Self::tick_to_rp(tick.saturating_add(1)) <= rp {
+            tick = tick.saturating_add(1);
+        }
         match left_to_right {
-            true => rp.log(base).ceil() as u32,
-            false => rp.log(base).floor() as u32,
+            true if Self::tick_to_rp(tick) < rp => tick.saturating_add(1),
+            _ => tick,
         }
     }
 
-- 
2.43.0


From 0b4f92547128ae60f5c17e65125494cb854b5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:52 +0000
Subject: [PATCH 24/37] fix: float pool rejects deposits into an empty range

---
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index a8e70a6..c39251a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -49,6 +49,9 @@ pub trait PoolMath {
         // Lx : liquidity amount when liquidity fully composed of  token x
         // e.g when price below lower bound of range and y=0. [5]
         // x : token x real reserves; rPa,rPb : range lower (upper) bound in root price
+        if rpb <= rpa {
+            panic!("liq_x_only: rpb should be greater than rpa");
+        }
         x * rpa * rpb / (rpb - rpa)
     }
 
@@ -56,6 +59,9 @@ pub trait PoolMath {
         // Ly : liquidity amount when liquidity fully composed of  token y
         // e.g when price above upper bound of range, x=0. [9]
         //    y : token y real reserves;  rPa,rPb : range lower (upper) bound in root price
+        if rpb <= rpa {
+            panic!("liq_y_only: rpb should be greater than rpa");
+        }
         y / (rpb - rpa)
     }
 
-- 
2.43.0


From c7b708108b3eb0fae9d0cef6bc2f245e7bf672ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 25/37] fix: float swap too small to move the price leaves the
 current tick alone

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index f34cb7d..1933b56 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -584,8 +584,16 @@ impl<'a> Pool<'a> {
             fee_x = dx - dx_max; // fee as expected
             cross = false;
             // goal tick is not crossed: rounding should not take us to its other side
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx).max(rp_goal);
-            end_t = Pool::rp_to_tick(end_rp, false).max(goal_tick);
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx)
+                .min(start_rp)
+                .max(rp_goal);
+            end_t = if end_rp == start_rp {
+                // too small to move the price: no move of the tick either, in case the price
+                // is exactly on a tick just crossed
+                self.glbl_tick()
+            } else {
+                Pool::rp_to_tick(end_rp, false).max(goal_tick)
+            };
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 9f0b9f5f0548aa1fad7d9ba8c1fbd3e6fa1f8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:51 +0000
Subject: [PATCH 26/37] fix: float swap fee and fill do not exceed the amount
 supplied by rounding

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 1933b56..3ffceb1 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -574,7 +574,8 @@ impl<'a> Pool<'a> {
             // we'll have leftover to swap. do what we can. done_X = doableX
             done_dx = doable_dx;
             // reverse engineer how much fees charged based on how much done_dX
-            fee_x = done_dx / (1.0 - self.fee_rate) * self.fee_rate;
+            // (rounding should not take fill and fee beyond what was supplied)
+            fee_x = (done_dx / (1.0 - self.fee_rate) * self.fee_rate).min(dx - done_dx);
             cross = true; // because we'll need to cross and do extra swaps
             end_t = goal_tick; // swap so far moves price to level at this tick
             end_rp = rp_goal; // ensure use same rP at tick borders, avoid log
@@ -824,7 +825,8 @@ impl<'a> Pool<'a> {
             // we'll have leftover to swap. do what we can. done_Y = doableY
             done_dy = doable_dy;
             // reverse engineer how much fees charged based on how much done_dY
-            fee_y = done_dy / (1.0 - self.fee_rate) * self.fee_rate;
+            // (rounding should not take fill and fee beyond what was supplied)
+            fee_y = (done_dy / (1.0 - self.fee_rate) * self.fee_rate).min(dy - done_dy);
             cross = true; // because we'll need to cross and do extra swaps
             end_t = goal_tick; // swap so far moves price to level at this tick
             end_rp = rp_goal; // ensure use same rP at tick borders, avoid log
-- 
2.43.0


From c5a55fb0aee9311050e589e16ed1d8b4daac65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:55 +0000
Subject: [PATCH 27/37] fix: rp_to_tick rounds up when going left to right

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 26d079a..8b57906 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -40,10 +40,10 @@ pub trait PoolMath {
     fn rp_to_tick(rp: Decimal, left_to_right: bool) -> u128 {
         let base = Self::tick_base_root();
         let tick_decimal = match left_to_right {
-            true => rp.ln().unwrap().div_up(base.ln().unwrap()),
-            false => rp.ln().unwrap().div(base.ln().unwrap()),
+            true => rp.ln().unwrap().div_up(base.ln().unwrap()).to_scale_up(0),
+            false => rp.ln().unwrap().div(base.ln().unwrap()).to_scale(0),
         };
-        tick_decimal.to_scale(0).value as u128
+        tick_decimal.value as u128
     }
 
     fn rp_to_tick_loop(rp: Decimal, left_to_right: bool, start: u128) -> u128 {
-- 
2.43.0


From d0e19f311d78c27c5f6c6a3e86f7d2707fab1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 28/37] fix: Python pool maps a root price to the tick whose
 root price brackets it

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 93b0f51..3a3c8ff 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -287,10 +287,17 @@ class Pool:
     @staticmethod
     def rP_to_tick(rP, left_to_right=False):
         d = math.pow(Pool.TICK_BASE, 1 / 2)
-        if left_to_right is True:
-            return math.ceil(math.log(rP, d))
+        tick = math.floor(math.log(rP, d))
+        # the logarithm of a root price on a tick may land on either side of
+        # it: settle on the tick whose own root price brackets rP
+        if Pool.tick_to_rP(tick) > rP:
+            tick -= 1
+        elif Pool.tick_to_rP(tick + 1) <= rP:
+            tick += 1
+        if left_to_right is True and Pool.tick_to_rP(tick) < rP:
+            return tick + 1
         else:
-            return math.floor(math.log(rP, d))
+            return tick
 
     # TODO add memo() method which saves states b4 swap/deposit etc
     # + and reinstates them if exception raised at any point during op
-- 
2.43.0


From 2a0707bb08bf8d3495a38b8e3ad9d493ba9a419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 29/37] fix: Python pool does not reject operations over
 rounding of fee growth

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 3a3c8ff..cec0c7b 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -518,12 +518,13 @@ class Pool:
         return (f_below, f_above)
 
     def fee_rng(self, lower_tick, upper_tick, for_x=True, swp=True):
-        f_blw_lwr, f_abv_lwr = self.fee_below_above(lower_tick, for_x, swp)
-        f_blw_upr, f_abv_upr = self.fee_below_above(upper_tick, for_x, swp)
+        f_blw_lwr, _ = self.fee_below_above(lower_tick, for_x, swp)
+        _, f_abv_upr = self.fee_below_above(upper_tick, for_x, swp)
 
-        # retrieve fg by summing up either tuple, they should match
-        assert f_blw_lwr + f_abv_lwr == f_blw_upr + f_abv_upr
-        fg = f_blw_lwr + f_abv_lwr
+        # summing up either tuple should give fg, up to float rounding
+        token = "x" if for_x else "y"
+        which = "f" if swp else "h"
+        fg = getattr(self.global_state, f"{which}g_{token}")
 
         return fg - f_blw_lwr - f_abv_upr
 
@@ -582,12 +583,11 @@ class Pool:
                     hr_y=new_hr_y,
                 )
         # now calulate uncollected fees to be applied
-        f_u_x = new_fr_x - old_fr_x
-        f_u_y = new_fr_y - old_fr_y
-        h_u_x = new_hr_x - old_hr_x
-        h_u_y = new_hr_y - old_hr_y
-        assert f_u_x >= 0.0 and f_u_y >= 0.0
-        assert h_u_x >= 0.0 and h_u_y >= 0.0
+        # (never negative other than by float rounding)
+        f_u_x = max(new_fr_x - old_fr_x, 0.0)
+        f_u_y = max(new_fr_y - old_fr_y, 0.0)
+        h_u_x = max(new_hr_x - old_hr_x, 0.0)
+        h_u_y = max(new_hr_y - old_hr_y, 0.0)
 
         # update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, upper=False)
-- 
2.43.0


From 8c6279835ccbac3992c423b32f0a5bb8b0f25c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 30/37] fix: Python pool does not pay a new position fees
 earned before it existed

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index cec0c7b..ea4dac5 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -556,9 +556,17 @@ class Pool:
             if liq_delta < 0.0:
                 # abort if withdrawal liq exceeds position liquidity
                 raise Exception("cannot newly provide negative liquidity")
+            # fees earned in the range before the position exists are not
+            # its to claim
+            old_fr_x, old_fr_y = new_fr_x, new_fr_y
+            old_hr_x, old_hr_y = new_hr_x, new_hr_y
             # creates a new position
             self.positions[key] = PositionState(
-                liq=liq_delta, fr_x=0.0, fr_y=0.0, hr_x=0.0, hr_y=0.0
+                liq=liq_delta,
+                fr_x=new_fr_x,
+                fr_y=new_fr_y,
+                hr_x=new_hr_x,
+                hr_y=new_hr_y,
             )
         else:
             # get old value for feed from when position was last touched
-- 
2.43.0


From b2484d24ac69a976fe8c590e13dfc06857318ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 31/37] fix: Python pool does not create a position without
 liquidity

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ea4dac5..7fa4f73 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -561,13 +561,14 @@ class Pool:
             old_fr_x, old_fr_y = new_fr_x, new_fr_y
             old_hr_x, old_hr_y = new_hr_x, new_hr_y
             # creates a new position
-            self.positions[key] = PositionState(
-                liq=liq_delta,
-                fr_x=new_fr_x,
-                fr_y=new_fr_y,
-                hr_x=new_hr_x,
-                hr_y=new_hr_y,
-            )
+            if liq_delta != 0.0:
+                self.positions[key] = PositionState(
+                    liq=liq_delta,
+                    fr_x=new_fr_x,
+                    fr_y=new_fr_y,
+                    hr_x=new_hr_x,
+                    hr_y=new_hr_y,
+                )
         else:
             # get old value for feed from when position was last touched
             old_fr_x, old_fr_y = poz.fr_x, poz.fr_y
-- 
2.43.0


From 4324b49bfd051c918657bd0215b8c83bcbc6b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 32/37] fix: Python pool deposits and withdraws at the current
 root price, not that of the current tick

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 7fa4f73..feca31b 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -621,17 +621,19 @@ class Pool:
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
         upper_tick = self.rP_to_possible_tick(rPb, left_to_right=False)
 
-        tk = self.global_state.tick
+        rP = self.global_state.rP
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        liq = Pool._liq_from_x_y_rP_rng(x, y, tk, lower_tick, upper_tick)
+        liq = Pool.liq_from_x_y_rP_rng(x, y, rP, rPa_used, rPb_used)
         # round down to avoid float rounding vulnerabilities
         # TODO choose what precision to round down to.
         liq = math.floor(liq)
 
-        x_in = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_in = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_in = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        y_in = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         assert x_in <= x, "used x amt cannot excess provided amount"
         assert y_in <= y, "used y amt cannot excess provided amount"
 
@@ -666,12 +668,14 @@ class Pool:
             user_id, lower_tick, upper_tick, liq_delta=-liq
         )
 
-        tk = self.global_state.tick
+        rP = self.global_state.rP
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        x_out = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_out = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_out = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        y_out = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         # round down amount withdrawn if necessary, as precation
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
-- 
2.43.0


From b146bf2e75bb5db226a8364cdaae73c0d2d4b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 33/37] fix: Python pool swaps ending next to an active tick
 stay on the side of the tick they did not cross

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index feca31b..8531188 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -736,8 +736,16 @@ class Pool:
             done_dX = dX_max
             fee_X = dX - dX_max  # fee as expected
             cross = False
+            # goal tick is not crossed: rounding should not take us to its
+            # other side
             end_rP = Pool.rP_new_from_L_dX(L, start_rP, done_dX)
-            end_t = Pool.rP_to_tick(end_rP, False)
+            end_rP = max(min(end_rP, start_rP), rP_goal)
+            if end_rP == start_rP:
+                # too small to move the price: no move of the tick either, in
+                # case the price is exactly on a tick just crossed
+                end_t = self.global_state.tick
+            else:
+                end_t = max(Pool.rP_to_tick(end_rP, False), goal_tick)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
@@ -948,8 +956,11 @@ class Pool:
             done_dY = dY_max
             fee_Y = dY - dY_max  # fee as expected
             cross = False
+            # goal tick is not crossed: rounding should not take us to its
+            # other side
             end_rP = Pool.rP_new_from_L_dY(L, start_rP, done_dY)
-            end_t = Pool.rP_to_tick(end_rP, False)
+            end_rP = max(min(end_rP, rP_goal), start_rP)
+            end_t = min(Pool.rP_to_tick(end_rP, False), goal_tick - 1)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
-- 
2.43.0


From 8b35fb08601c2b3e514e69dd7b128029fcf56102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 34/37] fix: Python pool swaps from Y when the current tick is
 not a multiple of the tick spacing

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 8531188..0fea330 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -373,6 +373,8 @@ class Pool:
         # get to initializable tick
         start_tick = self.tick_to_possible_tick(start_t, left_to_right=False)
         # we use False here to round down
+        # (a swap may have left the global tick in between initializable ticks)
+        glbl_tick = self.tick_to_possible_tick(glbl_tick, left_to_right=False)
         if start_tick == glbl_tick:
             # we've already technically crossed this tick (left-to-right) i.e.
             # the liquidity corresponding to this tick [start_tick, next_tick)
-- 
2.43.0


From cf8e6f55aceb8dcdf37daf82b129be512e3d77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 35/37] fix: Python pool does not reject swaps towards an
 oracle close to the price over rounding

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 0fea330..b401a93 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -800,6 +800,8 @@ class Pool:
         done_dY *= 1 - Pool.ADJ_WHOLE_FILL
         done_dY_amm *= 1 - Pool.ADJ_WHOLE_FILL
 
+        # rounding of the hmm formulas should not give out more than amm would
+        done_dY = max(done_dY, done_dY_amm)
         hmm_adj_Y = done_dY - done_dY_amm
 
         if done_dY_amm > 0.0:
@@ -1015,6 +1017,8 @@ class Pool:
         done_dX_amm *= 1 - Pool.ADJ_WHOLE_FILL
         done_dX *= 1 - Pool.ADJ_WHOLE_FILL
 
+        # rounding of the hmm formulas should not give out more than amm would
+        done_dX = max(done_dX, done_dX_amm)
         hmm_adj_X = done_dX - done_dX_amm
 
         if done_dX_amm > 0.0:
-- 
2.43.0


From d9c7562b43d43e90b500942d411dfd9c3582096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:14 +0000
Subject: [PATCH 36/37] fix: float pool refuses some swaps when the fee rate is
 above one half

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 3ffceb1..2276638 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -561,7 +561,9 @@ impl<'a> Pool<'a> {
         }
 
         // put aside max potential swap fees before affecting prices
-        let dx_max = dx * (1.0 - self.fee_rate);
+        // (rounded before the subtraction: the two then add up to what was supplied)
+        let fee_max = dx - dx * (1.0 - self.fee_rate);
+        let dx_max = dx - fee_max;
 
         // chg of reserve X possible if we go all the way to goal tick
         let doable_dx = Pool::dx_from_l_drp(liq, start_rp, rp_goal);
@@ -575,14 +577,14 @@ impl<'a> Pool<'a> {
             done_dx = doable_dx;
             // reverse engineer how much fees charged based on how much done_dX
             // (rounding should not take fill and fee beyond what was supplied)
-            fee_x = (done_dx / (1.0 - self.fee_rate) * self.fee_rate).min(dx - done_dx);
+            fee_x = (done_dx / (1.0 - self.fee_rate) * self.fee_rate).min(fee_max);
             cross = true; // because we'll need to cross and do extra swaps
             end_t = goal_tick; // swap so far moves price to level at this tick
             end_rp = rp_goal; // ensure use same rP at tick borders, avoid log
         } else {
             // we have enough. make all dX_max 'done', then calc end_rP
             done_dx = dx_max;
-            fee_x = dx - dx_max; // fee as expected
+            fee_x = fee_max; // fee as expected
             cross = false;
             // goal tick is not crossed: rounding should not take us to its other side
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx)
@@ -812,7 +814,9 @@ impl<'a> Pool<'a> {
         }
 
         // put aside max potential swap fees before affecting prices
-        let dy_max = dy * (1.0 - self.fee_rate);
+        // (rounded before the subtraction: the two then add up to what was supplied)
+        let fee_max = dy - dy * (1.0 - self.fee_rate);
+        let dy_max = dy - fee_max;
 
         // chg of reserve Y possible if we go all the way to goal tick
         let doable_dy = Pool::dy_from_l_drp(liq, start_rp, rp_goal);
@@ -826,14 +830,14 @@ impl<'a> Pool<'a> {
             done_dy = doable_dy;
             // reverse engineer how much fees charged based on how much done_dY
             // (rounding should not take fill and fee beyond what was supplied)
-            fee_y = (done_dy / (1.0 - self.fee_rate) * self.fee_rate).min(dy - done_dy);
+            fee_y = (done_dy / (1.0 - self.fee_rate) * self.fee_rate).min(fee_max);
             cross = true; // because we'll need to cross and do extra swaps
             end_t = goal_tick; // swap so far moves price to level at this tick
             end_rp = rp_goal; // ensure use same rP at tick borders, avoid log
         } else {
             // we have enough, make all of dY_max 'done', then calc end_rP
             done_dy = dy_max;
-            fee_y = dy - dy_max; // fee as expected
+            fee_y = fee_max; // fee as expected
             cross = false;
             // goal tick is not crossed: rounding should not take us to its other side
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy).min(rp_goal);
-- 
2.43.0


From 033bac6e69e29f9f54abd7f1f74282515084ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 37/37] fix: Python pool refuses some swaps when the fee rate
 is above one half

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index b401a93..383bef5 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -717,7 +717,9 @@ class Pool:
             # this will lead to 0-qty swapped, and crossing before next swap
 
         # take out max potential swap fees before affecting prices
-        dX_max = dX * (1.0 - self.fee_rate)
+        # (fee rounded first: the two then add up to what was supplied)
+        fee_max = dX - dX * (1.0 - self.fee_rate)
+        dX_max = dX - fee_max
 
         # chg of reserve X possible if we go all the way to goal tick
         doable_dX = Pool.dX_from_L_drP(L=L, rP_old=start_rP, rP_new=rP_goal)
@@ -729,6 +731,8 @@ class Pool:
             done_dX = doable_dX
             # reverse engineer how much fees charged based on how much done_dX
             fee_X = done_dX / (1.0 - self.fee_rate) * self.fee_rate
+            # (rounding should not take fill and fee beyond what was supplied)
+            fee_X = min(fee_X, fee_max)
             cross = True  # because we'll need to cross and do extra swaps
             end_t = goal_tick  # swap so far moves price to level at this tick
             end_rP = rP_goal  # ensure use same rP at tick borders, avoid log
@@ -939,7 +943,9 @@ class Pool:
             # this will lead to 0-qty swapped, and crossing before next swap
 
         # take out max potential swap fees before affecting prices
-        dY_max = dY * (1.0 - self.fee_rate)
+        # (fee rounded first: the two then add up to what was supplied)
+        fee_max = dY - dY * (1.0 - self.fee_rate)
+        dY_max = dY - fee_max
 
         # chg of reserve Y possible if we go all the way to goal tick
         doable_dY = Pool.dY_from_L_drP(L=L, rP_old=start_rP, rP_new=rP_goal)
@@ -951,6 +957,8 @@ class Pool:
             done_dY = doable_dY
             # reverse engineer how much fees charged based on how much done_dY
             fee_Y = done_dY / (1.0 - self.fee_rate) * self.fee_rate
+            # (rounding should not take fill and fee beyond what was supplied)
+            fee_Y = min(fee_Y, fee_max)
             cross = True  # because we'll need to cross and do extra swaps
             end_t = goal_tick  # swap so far moves price to level at this tick
             end_rP = rP_goal  # ensure use same rP at tick borders, avoid log
-- 
2.43.0

