From 69501d649d40db2fcb1b4999c030895f77322d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:36 +0000
Subject: [PATCH 01/38] fix: UBigInt::rem_u32_mut overflows for divisors above
 2^16

---
 src/ubigint/arith/rem.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..e19dc56 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,18 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
+        let other = other as u64;
+        let unit = (1 << 32) % other;
         let mut curr_power = 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
 
         for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
+            result += (*d as u64 % other) * curr_power % other;
             curr_power *= unit;
             curr_power %= other;
         }
 
-        *self = UBigInt::from_u32(result % other);
+        *self = UBigInt::from_u32((result % other) as u32);
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From 9f0b42ed28df5fdb6aaa2694acba48380fcfd17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:51 +0000
Subject: [PATCH 02/38] fix: BigInt::eq_i32 panics when the number has more
 than one limb

---
 src/bigint/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..5d12443 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.eq_u32(other.abs() as u32)
         }
     }
 
-- 
2.43.0


From cfa78472e81ac0540d1abb4626c51c356fc5aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:51 +0000
Subject: [PATCH 03/38] fix: BigInt's i32 operations overflow on i32::MIN

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 src/bigint/comp.rs      | 8 ++++----
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 5d12443..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.eq_u32(other.abs() as u32)
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
-- 
2.43.0


From 266a62948dfd4f4af61c6e137be29da98fcbba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:51 +0000
Subject: [PATCH 04/38] fix: BigInt::from_i32/from_i64/from_i128 overflow on
 MIN

---
 src/bigint/convert.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..2cec4d9 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
-- 
2.43.0


From d5b783ee13eec8cd86041e6fb96182fb3f56a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:51 +0000
Subject: [PATCH 05/38] fix: BigInt::to_i128 rejects i128::MIN

---
 src/bigint/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index 2cec4d9..42b5aaf 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())  // i128::MIN.abs() > i128::MAX.abs()
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From efcf2839af429d26b22d563590ebebcf98e719f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:51 +0000
Subject: [PATCH 06/38] fix: UBigInt::pow_u32 overflows when exp is greater
 than or equal to 2^31

---
 src/ubigint/arith/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..5a00113 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,7 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From bb426858437a2285a71cc021e8e2ddcea42343ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:23 +0000
Subject: [PATCH 07/38] fix: Ratio::to_ieee754_f32/f64 lose the carry of the
 mantissa, return inf/NaN on overflow and misround subnormals

---
 src/ratio/convert/ieee754.rs | 90 +++++++++++++++---------------------
 1 file changed, 36 insertions(+), 54 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..1649c72 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -73,46 +73,37 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_i32(1 << 23).truncate_and_frac();
+        let (mut frac, frac_rem) = if exp < -126 {
+            // denormalized: 2^(-126) * (frac / 2^23)
+            let denormalizer = BigInt::exp2((-126 - exp) as u64);
+            exp = -127;
+
+            self_clone.mul_i32(1 << 23).div_bi(&denormalizer).truncate_and_frac()
+        } else {
+            self_clone.sub_i32(1).mul_i32(1 << 23).truncate_and_frac()
+        };
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i32().unwrap() as u32;
-
-        if exp < -126 {
-            frac += 1 << 23;
-            frac *= 16;
-
-            if exp < -127 {
-                frac >>= (-127 - exp).min(31);
-                exp = -127;
-            }
-
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
+        let frac = frac.to_i32().unwrap() as u32;
+        exp += 127;
 
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if exp == 0 && frac == 0 {
+            return Ok(0.0);
         }
 
-        exp += 127;
+        // if `frac` is rounded up to 2^23, it's carried to `exp`
+        let result = ((exp as u32) << 23) + frac;
 
-        if exp < 0 || exp > 255 {
+        // it's too big for a finite number
+        if result >= (255 << 23) {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u32) << 31) | ((exp as u32) << 23) | frac;
+        let result = ((neg as u32) << 31) | result;
         let rp = &result as *const u32 as *const f32;
 
         unsafe { Ok(*rp) }
@@ -189,46 +180,37 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac();
+        let (mut frac, frac_rem) = if exp < -1022 {
+            // denormalized: 2^(-1022) * (frac / 2^52)
+            let denormalizer = BigInt::exp2((-1022 - exp) as u64);
+            exp = -1023;
+
+            self_clone.mul_bi(&BigInt::from_i64(1 << 52)).div_bi(&denormalizer).truncate_and_frac()
+        } else {
+            self_clone.sub_i32(1).mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac()
+        };
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i64().unwrap() as u64;
-
-        if exp < -1022 {
-            frac += 1 << 52;
-            frac *= 16;
-
-            if exp < -1023 {
-                frac >>= (-1023 - exp).min(63);
-                exp = -1023;
-            }
-
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
+        let frac = frac.to_i64().unwrap() as u64;
+        exp += 1023;
 
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if exp == 0 && frac == 0 {
+            return Ok(0.0);
         }
 
-        exp += 1023;
+        // if `frac` is rounded up to 2^52, it's carried to `exp`
+        let result = ((exp as u64) << 52) + frac;
 
-        if exp < 0 || exp > 2047 {
+        // it's too big for a finite number
+        if result >= (2047 << 52) {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u64) << 63) | ((exp as u64) << 52) | frac;
+        let result = ((neg as u64) << 63) | result;
         let rp = &result as *const u64 as *const f64;
 
         unsafe { Ok(*rp) }
-- 
2.43.0


From 16e9187047a3e4996bf225abecd41804e60c260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:23 +0000
Subject: [PATCH 08/38] fix: usize::try_from(UBigInt) rejects numbers that fit
 in usize

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From 08f85a3e7e9d80a32822173100d111902181bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:09 +0000
Subject: [PATCH 09/38] fix: square root of a number close to 2^64 overflows

---
 src/ubigint/funcs.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index c26e0a3..407a98b 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -319,9 +319,11 @@ fn sqrt_u64(n: u64) -> u64 {
         s /= 1 << 28;
     }
 
-    let d = (1 << (l2 / 2)) * s;
+    let d: u64 = (1 << (l2 / 2)) * s;
 
-    let mut result = d / (1 << 28);
+    // `result * result` might not fit in u64
+    let n = n as u128;
+    let mut result: u128 = d as u128 / (1 << 28);
 
     // see the comments in `UBigInt::sqrt`
     let mut div = (n.abs_diff(result * result) / (2 * result)).max(1);
@@ -364,7 +366,7 @@ fn sqrt_u64(n: u64) -> u64 {
         if div == 0 {
             #[cfg(test)] assert!(result * result <= n && n <= (result + 1) * (result + 1));
 
-            return result;
+            return result as u64;
         }
     }
 }
-- 
2.43.0


From 12c21c8b3303c3330bbad60180c15258b7bb8e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 10/38] fix: gcd_i32 overflows on i32::MIN

---
 src/utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2fb9b4c..216b7bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,10 +32,12 @@ pub fn remove_suffix_0(vec: &mut Vec<u32>) {
     }
 }
 
-pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
-    a = a.abs();
-    b = b.abs();
+/// It panics if the result is 2^31, which does not fit in i32.
+pub fn gcd_i32(a: i32, b: i32) -> i32 {
+    i32::try_from(gcd_u32(a.unsigned_abs(), b.unsigned_abs())).expect("gcd does not fit in i32")
+}
 
+pub fn gcd_u32(mut a: u32, mut b: u32) -> u32 {
     while a != 0 {
         let r = b % a;
         b = a;
-- 
2.43.0


From 42c78b26be4b75ae783c6c48fdf0f37070804fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 11/38] fix: Ratio::from_denom_and_numer_i32 overflows on
 i32::MIN and accepts a zero denominator

---
 src/ratio/convert.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..456f627 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -1,6 +1,6 @@
 use crate::{Ratio, BigInt, UBigInt};
 use crate::err::ConversionError;
-use crate::utils::gcd_i32;
+use crate::utils::gcd_u32;
 use crate::ubigint::convert::_to_scientific_notation;
 use std::str::FromStr;
 
@@ -19,8 +19,14 @@ impl Ratio {
     }
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
-    pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
-        let r = gcd_i32(denom, numer);
+    pub fn from_denom_and_numer_i32(denom: i32, numer: i32) -> Self {
+        if denom == 0 {
+            panic!("Attempt to divide by zero: {numer} / {denom}");
+        }
+
+        // `i32::MIN` has no positive counterpart in i32
+        let (mut denom, mut numer) = (denom as i64, numer as i64);
+        let r = gcd_u32(denom.unsigned_abs() as u32, numer.unsigned_abs() as u32) as i64;
 
         if r != 1 {
             denom /= r;
@@ -32,7 +38,7 @@ impl Ratio {
             numer *= -1;
         }
 
-        Ratio::from_denom_and_numer_raw(BigInt::from_i32(denom), BigInt::from_i32(numer))
+        Ratio::from_denom_and_numer_raw(BigInt::from_i64(denom), BigInt::from_i64(numer))
     }
 
     /// This function does not do any safety checks. Use this function only when you're sure that the properties below are satisfied.
-- 
2.43.0


From 8762e01c1f714eff7bb2592b3fd439331340063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 12/38] fix: dividing a Ratio by zero returns a Ratio with a
 zero denominator

---
 src/ratio.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ratio.rs b/src/ratio.rs
index 4d68c42..5b39596 100644
--- a/src/ratio.rs
+++ b/src/ratio.rs
@@ -82,6 +82,10 @@ impl Ratio {
 
     // TODO: better name
     fn fit(&mut self) {
+        if self.denom.is_zero() {
+            panic!("Attempt to divide by zero: {:?} / {:?}", self.numer, self.denom);
+        }
+
         if self.denom.is_neg() {
             self.denom.neg_mut();
             self.numer.neg_mut();
-- 
2.43.0


From c82ca98e542bf39d1734941d9e8296ccb5d77082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:25 +0000
Subject: [PATCH 13/38] fix: Ratio::pow_i32 overflows when exp is i32::MIN

---
 src/ratio/arith/pow.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
-- 
2.43.0


From 049fda2b45a75c71b5b856d54ffef8449c89f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:18 +0000
Subject: [PATCH 14/38] fix: sqrt_iter returns a negative number when x is
 negative, instead of sqrt(abs(x))

---
 src/ratio/funcs/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/funcs/root.rs b/src/ratio/funcs/root.rs
index bb6e310..3652828 100644
--- a/src/ratio/funcs/root.rs
+++ b/src/ratio/funcs/root.rs
@@ -4,7 +4,7 @@ use crate::{UBigInt, BigInt, Ratio};
 pub fn sqrt_iter(x: &Ratio, iter: usize) -> Ratio {
     Ratio::from_denom_and_numer(
         x.denom.shift_left(1 + iter).sqrt(),
-        x.numer.shift_left(1 + iter).sqrt(),
+        x.numer.abs().shift_left(1 + iter).sqrt(),
     )
 }
 
-- 
2.43.0


From 6b18930cf6497854bd3f8de2452cbf4b2a64847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 15/38] fix: coefficients of asin_iter overflow when iter is
 greater than 644

---
 src/ratio/funcs/atrigo.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ratio/funcs/atrigo.rs b/src/ratio/funcs/atrigo.rs
index fa315e4..31e09fd 100644
--- a/src/ratio/funcs/atrigo.rs
+++ b/src/ratio/funcs/atrigo.rs
@@ -26,8 +26,11 @@ pub fn asin_iter(x: &Ratio, iter: usize) -> Ratio {
     for i in 0..iter {
         result.add_mut(&curr_coeff.mul(&curr_x_coeff));
 
-        curr_coeff.mul_i32_mut(((2 * i + 3) * (2 * i + 3) * (2 * i + 4)) as i32);
-        curr_coeff.div_i32_mut(((i + 2) * (i + 2) * (2 * i + 5) * 4) as i32);
+        // the products are too big for i32 when `i` is greater than 643
+        curr_coeff.mul_i32_mut(((2 * i + 3) * (2 * i + 3)) as i32);
+        curr_coeff.mul_i32_mut((2 * i + 4) as i32);
+        curr_coeff.div_i32_mut(((i + 2) * (i + 2)) as i32);
+        curr_coeff.div_i32_mut(((2 * i + 5) * 4) as i32);
         curr_x_coeff.mul_mut(&x_sqr);
     }
 
-- 
2.43.0


From 43ed7c4de2303f510927cbae04b45cd8c2b0d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:10 +0000
Subject: [PATCH 16/38] fix: the inverse of a 1 by 1 matrix is always [[1]]

---
 src/matrix/inv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..ac5064b 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -22,7 +22,8 @@ impl Matrix {
 
         if n < 5 {
             if n < 2 {
-                self.clone()
+                // the determinant of a 0 by 0 matrix is 1
+                Matrix::identity(n)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From f497ef5a261052561c271a123371f6d68a1caac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:10 +0000
Subject: [PATCH 17/38] fix: Polynomial::from_vec_generic does not remove
 leading zeros

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From f18c6963a02f19dc2e84d463d2d5c0258d7ca5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 18/38] fix: F192::from(i128::MIN) overflows

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..31d662b 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
-- 
2.43.0


From f5bfebc69662ce30f61e504ca3f665c74add8937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 19/38] fix: converting an F192 smaller than 1 to an integer
 overflows the shift

---
 src/fp192/convert.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 31d662b..813eacd 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -46,7 +46,14 @@ impl F192 {
 
         let digits = self.digits | SIGN_MASK;
 
-        Ok(digits >> (EXP_COEFF - self.exp))
+        let shift = EXP_COEFF - self.exp;
+
+        // |self| < 1
+        if shift > 127 {
+            return Ok(0);
+        }
+
+        Ok(digits >> shift)
     }
 
     fn to_i128(&self) -> Result<i128, ()> {
-- 
2.43.0


From e97ba1821fa634560e1c904ed2c6330d584ad25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:00 +0000
Subject: [PATCH 20/38] fix: i128::MIN is in the range of i128 when converting
 from F192

---
 src/fp192/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 813eacd..32f9a9f 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -60,8 +60,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
-- 
2.43.0


From 45397b6ddb1d787fb84e30b8027bea2fa4341404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:26 +0000
Subject: [PATCH 21/38] fix: F192s that are too big for f32/f64 can be
 converted to NaN

---
 src/fp192/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 32f9a9f..e7843b6 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -199,7 +199,7 @@ impl From<F192> for f32 {
 
         if exp < 0 {
             0.0
-        } else if exp > 255 {
+        } else if exp >= 255 {
             if n.is_neg() {
                 f32::NEG_INFINITY
             } else {
@@ -233,7 +233,7 @@ impl From<F192> for f64 {
 
         if exp < 0 {
             0.0
-        } else if exp > 2047 {
+        } else if exp >= 2047 {
             if n.is_neg() {
                 f64::NEG_INFINITY
             } else {
-- 
2.43.0


From b5811e8f4fe272817b3970a327fc667163c32e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:26 +0000
Subject: [PATCH 22/38] fix: F192s in the subnormal range are converted to
 wrong f32s and f64s

---
 src/fp192/convert.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index e7843b6..8df8115 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -188,6 +188,19 @@ impl From<F192> for f32 {
         // 254 = 127 + 127 = f32 exp bias + f192 digit bias
         let mut exp = n.exp as i64 - EXP_COEFF as i64 + 254;
 
+        // zero or subnormal
+        if exp < 1 {
+            let shift = 105 - exp;
+
+            if shift > 128 {
+                return 0.0;
+            }
+
+            let mant = (((n.digits | SIGN_MASK) >> (shift - 1)) + 1) >> 1;
+
+            return f32::from_bits(((n.is_neg() as u32) << 31) | mant as u32);
+        }
+
         if rem > 15 {
             mant += 1;
 
@@ -197,9 +210,7 @@ impl From<F192> for f32 {
             }
         }
 
-        if exp < 0 {
-            0.0
-        } else if exp >= 255 {
+        if exp >= 255 {
             if n.is_neg() {
                 f32::NEG_INFINITY
             } else {
@@ -222,6 +233,19 @@ impl From<F192> for f64 {
         // 1150 = 1023 + 127 = f64 exp bias + f192 digit bias
         let mut exp = n.exp as i64 - EXP_COEFF as i64 + 1150;
 
+        // zero or subnormal
+        if exp < 1 {
+            let shift = 76 - exp;
+
+            if shift > 128 {
+                return 0.0;
+            }
+
+            let mant = (((n.digits | SIGN_MASK) >> (shift - 1)) + 1) >> 1;
+
+            return f64::from_bits(((n.is_neg() as u64) << 63) | mant as u64);
+        }
+
         if rem > 15 {
             mant += 1;
 
@@ -231,9 +255,7 @@ impl From<F192> for f64 {
             }
         }
 
-        if exp < 0 {
-            0.0
-        } else if exp >= 2047 {
+        if exp >= 2047 {
             if n.is_neg() {
                 f64::NEG_INFINITY
             } else {
-- 
2.43.0


From a1caf0da3d655f9f2a34c37b1d61fc5fcf49cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:27 +0000
Subject: [PATCH 23/38] fix: rounding up a Ratio to the next power of 2 flips
 the sign of the F192

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 8df8115..3ac0ec1 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -331,7 +331,7 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From 1f2933b1947a96cbdb80e506093ad0c89d2f6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:27 +0000
Subject: [PATCH 24/38] fix: F192::mul_i32 and F192::div_i32 overflow when the
 operand is i32::MIN

---
 src/fp192/arith/div.rs | 2 +-
 src/fp192/arith/mul.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..f072efc 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
-- 
2.43.0


From 9e28f96fce4a68b2ea7d5575d8e6cd28cdd86790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 25/38] fix: F192::powi overflows when the operand is i64::MIN

---
 src/fp192/funcs/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index 0f5f344..aa07749 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -47,7 +47,7 @@ impl F192 {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn powi(&self, n: i64) -> Self {
-        let n_abs = n.abs() as u64;
+        let n_abs = n.unsigned_abs();
         let result = powi_abs(self, n_abs);
 
         if n < 0 {
-- 
2.43.0


From 83fbc1198c11b2257285bba70efc2fd6f5b61b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:28 +0000
Subject: [PATCH 26/38] fix: overflow in F192::mul_i32

---
 src/fp192/arith/mul.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index f072efc..3f26b02 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -71,7 +71,13 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits / 2 + rem / 2
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From df6350fe4bfc56666cf217437b8f0f12569e5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 27/38] fix: F192::sub is wrong or never ends when the
 exponents are large

---
 src/fp192/arith/sub.rs | 60 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/fp192/arith/sub.rs b/src/fp192/arith/sub.rs
index 0ce307d..2786a69 100644
--- a/src/fp192/arith/sub.rs
+++ b/src/fp192/arith/sub.rs
@@ -1,4 +1,5 @@
-use crate::{F192, Ratio};
+use crate::F192;
+use crate::fp192::SIGN_MASK;
 
 impl F192 {
 
@@ -22,7 +23,60 @@ impl F192 {
             return self.clone();
         }
 
-        // TODO
-        Ratio::from(self).sub(&other.into()).into()
+        // |self| < |other|
+        if (self.exp, self.digits) < (other.exp, other.digits) {
+            return other.sub(self).neg();
+        }
+
+        let diff = self.exp - other.exp;
+
+        // `other` is less than a quarter of the last digit of `self`
+        if diff > 129 {
+            return self.clone();
+        }
+
+        // `hi * 2^128 + lo` = `(digits1 - digits2 * 2^-diff) * 2^128`
+        let digits1 = self.digits | SIGN_MASK;
+        let digits2 = other.digits | SIGN_MASK;
+        let (hi2, lo2) = match diff {
+            0 => (digits2, 0),
+            1..=127 => (digits2 >> diff, digits2 << (128 - diff)),
+            _ => (0, digits2 >> (diff - 128)),
+        };
+        let (lo, borrow) = 0u128.overflowing_sub(lo2);
+        let hi = digits1 - hi2 - borrow as u128;
+
+        if hi == 0 && lo == 0 {
+            return F192::ZERO;
+        }
+
+        let shift = if hi == 0 { 128 + lo.leading_zeros() } else { hi.leading_zeros() };
+
+        if self.exp < shift as u64 {  // underflow
+            return F192::ZERO;
+        }
+
+        let (mut digits, rem) = match shift {
+            0 => (hi, lo),
+            1..=127 => ((hi << shift) | (lo >> (128 - shift)), lo << shift),
+            _ => (lo << (shift - 128), 0),
+        };
+        let mut exp = self.exp - shift as u64;
+
+        // round up
+        if rem >= SIGN_MASK {
+            digits = match digits.checked_add(1) {
+                Some(digits) => digits,
+                None => {
+                    exp += 1;
+                    SIGN_MASK
+                },
+            };
+        }
+
+        F192 {
+            digits: digits & !SIGN_MASK | (self.digits & SIGN_MASK),
+            exp,
+        }
     }
 }
-- 
2.43.0


From 574bab82c77c12f0a02c82d7d070b8168eebb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 28/38] fix: F192::div never ends when the exponents differ by
 more than 2^39

---
 src/fp192/funcs/ln.rs  | 6 +++---
 src/fp192/funcs/pow.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fp192/funcs/ln.rs b/src/fp192/funcs/ln.rs
index 6ad1c4c..4b3b4b2 100644
--- a/src/fp192/funcs/ln.rs
+++ b/src/fp192/funcs/ln.rs
@@ -72,15 +72,15 @@ impl F192 {
     }
 
     // returns truncate(log2(self) * 16777216)
-    pub(crate) fn fast_log2(&self) -> i64 {
-        let e = (self.exp as i64 - EXP_COEFF as i64 + 127) << 24;
+    pub(crate) fn fast_log2(&self) -> i128 {
+        let e = (self.exp as i128 - EXP_COEFF as i128 + 127) << 24;
 
         let index = ((self.digits & !SIGN_MASK) >> 116) as usize;
         let frac = index as u32 & 31;
         let index = index >> 5;
 
         // linear interpolation
-        e + (((LOG_TABLE[index] * (32 - frac) + LOG_TABLE[index + 1] * frac) as i64) >> 5)
+        e + (((LOG_TABLE[index] * (32 - frac) + LOG_TABLE[index + 1] * frac) as i128) >> 5)
     }
 }
 
diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index aa07749..25a8287 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -66,7 +66,7 @@ impl F192 {
     }
 
     // inverse of `fast_log2`
-    pub(crate) fn fast_pow2(n: i64) -> Self {
+    pub(crate) fn fast_pow2(n: i128) -> Self {
         let mut e = n >> 24;
         let d = if n < 0 {
             let mut d = n & 0xfff_fff;
@@ -83,7 +83,7 @@ impl F192 {
 
         F192 {
             digits: fast_pow2_worker(d as u32) & !SIGN_MASK,
-            exp: (e + EXP_COEFF as i64 - 127) as u64,
+            exp: (e + EXP_COEFF as i128 - 127) as u64,
         }
     }
 }
-- 
2.43.0


From f81ec6c0b435091381728f1470c936aad12a6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:39 +0000
Subject: [PATCH 29/38] fix: F192s with very large exponents are rendered
 incorrectly

---
 src/fp192/convert/string.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index e17c1fe..cc1b498 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -229,8 +229,8 @@ impl F192 {
             return "0".to_string();
         }
 
-        // 2^70777 = 10^21306 + small
-        let approx_log10 = (self.fast_log2() as i128 * 21306 / 70777 / 16777216) as i64;
+        // log10(2) = 0.301029995663981...
+        let approx_log10 = (self.fast_log2() * 301_029_995_663_981 / 1_000_000_000_000_000 / 16777216) as i64;
         let mut n = self.abs();
         let mut exp = 0i64;
 
@@ -275,11 +275,9 @@ impl F192 {
         let log10_n = log10(n);
 
         let ds = if exp >= 0 {
-            let exp = exp as u32;
-
             // small integer
-            if exp + log10_n < 10 {
-                (n * 10u128.pow(exp)).to_string()
+            if exp + (log10_n as i64) < 10 {
+                (n * 10u128.pow(exp as u32)).to_string()
             }
 
             else if log10_n == 0 {
@@ -293,13 +291,13 @@ impl F192 {
                     "{}.{}e{}",
                     ns.get(0..1).unwrap(),
                     ns.get(1..).unwrap(),
-                    exp + log10_n,
+                    exp + log10_n as i64,
                 )
             }
         }
 
         else {
-            if log10_n >= -exp as u32 {
+            if log10_n as i64 >= -exp {
                 let index = (log10_n as i64 + exp + 1) as usize;
                 let ns = n.to_string();
                 let pre = ns.get(0..index).unwrap();
-- 
2.43.0


From 9e2d34d516b00d042e8f6f5093ea6d6cbfde85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:40 +0000
Subject: [PATCH 30/38] fix: F192::from_str ignores the sign of hexadecimal,
 octal and binary integers

---
 src/fp192/convert/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index cc1b498..d3ba1ae 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -159,6 +159,10 @@ impl FromStr for F192 {
                     result = result.add(&F192::from(curr));
                 }
 
+                if is_neg {
+                    result = result.neg();
+                }
+
                 Ok(result)
             },
             ParseState::ReadDigit
-- 
2.43.0


From 539dbd314bfb534d093257e5f7a8c0df62eedc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:04 +0000
Subject: [PATCH 31/38] fix: F192::from_str returns 0 if there are more than 38
 zeros after the decimal point

---
 src/fp192/convert/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index d3ba1ae..d037076 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -106,7 +106,11 @@ impl FromStr for F192 {
                 },
                 ParseState::ReadSubZero => {
                     if c.is_ascii_digit() {
-                        digit_buffer.push(c);
+                        // only the first 39 digits are used: leading zeros must not count
+                        if c != '0' || !digit_buffer.is_empty() {
+                            digit_buffer.push(c);
+                        }
+
                         exp -= 1;
                     }
 
-- 
2.43.0


From 51d434bc796a98d6c0404d32b2314a3af7efe24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:04 +0000
Subject: [PATCH 32/38] fix: overflow of the exponent in F192::from_str

---
 src/fp192/convert/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index d037076..bb452a1 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -173,7 +173,7 @@ impl FromStr for F192 {
             | ParseState::ReadSubZero
             | ParseState::ReadExp => {
                 if !exp_buffer.is_empty() {
-                    exp += exp_buffer.iter().collect::<String>().parse::<i64>().or(Err(ConversionError::TryFromIntError))?;
+                    exp = exp.saturating_add(exp_buffer.iter().collect::<String>().parse::<i64>().or(Err(ConversionError::TryFromIntError))?);
 
                     if digit_buffer.is_empty() {
                         return Ok(F192::ZERO);
-- 
2.43.0


From e97871480248a5e7e78f254bcd16e3a8afe9578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:05 +0000
Subject: [PATCH 33/38] fix: F192::sqrt is inaccurate when the digits are close
 to 2^128

---
 src/fp192/funcs/sqrt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp192/funcs/sqrt.rs b/src/fp192/funcs/sqrt.rs
index 92f0b28..5a65184 100644
--- a/src/fp192/funcs/sqrt.rs
+++ b/src/fp192/funcs/sqrt.rs
@@ -54,7 +54,8 @@ fn isqrt(n: u128) -> u128 {
     x = (x + n / x) >> 1;
     let x2 = (x + n / x) >> 1;
 
-    x.min(x2)
+    // it may exceed 2^64 when `n` is close to 2^128
+    x.min(x2).min(u64::MAX as u128)
 }
 
 #[cfg(test)]
-- 
2.43.0


From c6ac4bbcbdd9b85d19b3b3c2e833f35d4ee21694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:05 +0000
Subject: [PATCH 34/38] fix: F192::pow2 is less accurate than f64

---
 src/fp192/funcs/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index 25a8287..e937437 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -33,7 +33,7 @@ impl F192 {
         let iter_unit = fraction.mul(&F192::LN_2);
         let mut iter = iter_unit;
 
-        for i in 2..15 {
+        for i in 2..20 {
             approx = approx.add(&iter);
             iter = iter.mul(&iter_unit);
             iter = iter.div_i32(i);
-- 
2.43.0


From 740cb7f5c9a96965718e2a306b425f1b757620fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:51 +0000
Subject: [PATCH 35/38] fix: F192::asin and F192::atan panic or are inaccurate
 near 1 and -1

---
 src/fp192/funcs/atrigo.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fp192/funcs/atrigo.rs b/src/fp192/funcs/atrigo.rs
index dadace4..485aa38 100644
--- a/src/fp192/funcs/atrigo.rs
+++ b/src/fp192/funcs/atrigo.rs
@@ -17,7 +17,7 @@ impl F192 {
             panic!("Math Domain Error: asin({self})");
         }
 
-        if self > &SOME_NUMBER {
+        if result > SOME_NUMBER {
             result = asin_near_one(result);
         }
 
@@ -94,12 +94,18 @@ impl F192 {
     }
 }
 
+// asin(x) = pi/2 - 2 * asin(sqrt((1 - x) / 2))
 fn asin_near_one(x: F192) -> F192 {
-    todo!("F192::asin_near_one")
+    let y = F192::ONE.sub(&x).shr(1).sqrt();
+
+    F192::PI_OVER_2.sub(&y.asin().shl(1))
 }
 
+// atan(x) = pi/4 - atan((1 - x) / (1 + x))
 fn atan_near_one(x: F192) -> F192 {
-    todo!("F192::atan_near_one")
+    let y = F192::ONE.sub(&x).div(&F192::ONE.add(&x));
+
+    F192::PI_OVER_4.sub(&y.atan())
 }
 
 #[cfg(test)]
-- 
2.43.0


From ec4eea582dabddb847c5209eaab28dd590d0f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:51 +0000
Subject: [PATCH 36/38] fix: F192::asin and F192::atan are less accurate than
 f64

---
 src/fp192/funcs/atrigo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/funcs/atrigo.rs b/src/fp192/funcs/atrigo.rs
index 485aa38..a5184b4 100644
--- a/src/fp192/funcs/atrigo.rs
+++ b/src/fp192/funcs/atrigo.rs
@@ -25,7 +25,7 @@ impl F192 {
             let x_sqr = result.mul(&result);
             let mut curr_coeff = x_sqr.mul(&result).div_i32(6);
 
-            for i in 0..15 {
+            for i in 0..60 {
                 result = result.add(&curr_coeff);
                 curr_coeff = curr_coeff.mul(&x_sqr);
                 curr_coeff = curr_coeff.mul_i32((2 * i + 3) * (2 * i + 3) * (2 * i + 4));
@@ -69,7 +69,7 @@ impl F192 {
             let mut curr_x_coeff = x_sqr.mul(&result);
             let mut curr_coeff = 3;
 
-            for _ in 0..7 {
+            for _ in 0..30 {
                 result = result.sub(&curr_x_coeff.div_i32(curr_coeff));
                 curr_coeff += 2;
                 curr_x_coeff = curr_x_coeff.mul(&x_sqr);
-- 
2.43.0


From 55c07147522eed9e56041650e3ad878cbea03f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:21 +0000
Subject: [PATCH 37/38] fix: overflow in UBigInt::prime_factorial when the
 factors are greater than 2^32

---
 src/ubigint/funcs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index 407a98b..f2a03e1 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -249,7 +249,8 @@ impl UBigInt {
 
         let mut div = 3;
 
-        while self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
+        // divisors greater than or equal to u32::MAX are handled by the next loop
+        while div < u32::MAX && self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
             while self_clone.rem_u32(div).is_zero() {
                 self_clone.div_u32_mut(div);
                 result.push(UBigInt::from_u32(div));
-- 
2.43.0


From 3ec87f6207748acff940516a1a42093f698089e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:48 +0000
Subject: [PATCH 38/38] fix: Ratio::to_approx_string shows a mantissa of 10 for
 very large or small numbers

---
 src/ratio/convert.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 456f627..a5d6197 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -278,6 +278,12 @@ impl Ratio {
                 digits += 1000 - digits % 1000;
             }
 
+            // rounded up to 10
+            if digits >= 10_000_000 {
+                digits /= 10;
+                exp.add_i32_mut(1);
+            }
+
             digits /= 1000;
 
             let digits = if digits % 1000 == 0 {
-- 
2.43.0

