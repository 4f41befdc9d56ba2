From 0b56857131834624d63738ec347b21087c443799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 01/22] fix: remainder in the subnormal range was flushed to
 zero

usize::MAX as isize is -1, so the condition always held.
---
 astro-float-num/src/num.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..feac14d 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -460,23 +460,18 @@ impl BigFloatNumber {
                     // first, see if m3 is already subnormal, then shift accordingly
                     let mut excess = m3.max_bit_len() - m3.bit_len();
 
-                    if EXPONENT_MIN as isize - e > usize::MAX as isize {
-                        m3.set_zero();
-                        e = 0;
-                    } else {
-                        let shift = (EXPONENT_MIN as isize - e) as usize;
+                    let shift = (EXPONENT_MIN as isize - e) as usize;
 
-                        if excess < shift {
-                            m3.extend_subnormal(shift)?;
-                            excess = m3.max_bit_len() - m3.bit_len();
-                        }
+                    if excess < shift {
+                        m3.extend_subnormal(shift)?;
+                        excess = m3.max_bit_len() - m3.bit_len();
+                    }
 
-                        let shift = excess - shift;
-                        m3.shift_left(shift);
-                        m3.set_bit_len(m3.bit_len() + shift);
+                    let shift = excess - shift;
+                    m3.shift_left(shift);
+                    m3.set_bit_len(m3.bit_len() + shift);
 
-                        e = EXPONENT_MIN as isize;
-                    }
+                    e = EXPONENT_MIN as isize;
                 } else {
                     m3.normilize2();
                 }
-- 
2.43.0


From d6cde5885d018c8daeb52a3a3c1a162201ddd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 02/22] fix: full precision addition and subtraction with a
 zero argument lost the other argument

---
 astro-float-num/src/num.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index feac14d..3936adc 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -585,7 +585,9 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
@@ -593,7 +595,9 @@ impl BigFloatNumber {
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
-- 
2.43.0


From 13049f90fcd4799731db2a27d50776ca1ec7d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 03/22] fix: the inexact flag of an argument was lost when
 another argument is zero

---
 astro-float-num/src/num.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 3936adc..e26d13a 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -313,9 +313,7 @@ impl BigFloatNumber {
         let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
 
         if self.m.is_zero() || d2.m.is_zero() {
-            let mut ret = Self::new(p)?;
-            ret.set_sign(s);
-            return Ok(ret);
+            return Self::new2(p, s, self.inexact || d2.inexact);
         }
 
         let (e1, m1_opt) = self.normalize()?;
@@ -385,9 +383,7 @@ impl BigFloatNumber {
         let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
 
         if self.m.is_zero() {
-            let mut ret = Self::new(p)?; // self / d2 = 0
-            ret.set_sign(s);
-            return Ok(ret);
+            return Self::new2(p, s, self.inexact || d2.inexact); // self / d2 = 0
         }
 
         let (e1, m1_opt) = self.normalize()?;
@@ -589,6 +585,8 @@ impl BigFloatNumber {
                 ret.set_precision(p, rm)?;
             }
 
+            ret.inexact |= self.inexact;
+
             return Ok(ret);
         }
 
@@ -599,6 +597,8 @@ impl BigFloatNumber {
                 ret.set_precision(p, rm)?;
             }
 
+            ret.inexact |= d2.inexact;
+
             return Ok(ret);
         }
 
-- 
2.43.0


From 7885185027ae727020457750dafb99c121927799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 04/22] fix: results between a half of the minimum positive
 number and the number itself were rounded to zero by rounding to nearest

---
 astro-float-num/src/num.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index e26d13a..b630bcc 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -732,8 +732,15 @@ impl BigFloatNumber {
         } else if rm == RoundingMode::FromZero
             || (is_positive && rm == RoundingMode::Up)
             || (!is_positive && rm == RoundingMode::Down)
+            || (self.m.max_bit_len() as isize + e == EXPONENT_MIN as isize
+                && (rm == RoundingMode::ToOdd
+                    || (rm == RoundingMode::ToEven
+                        && count_leading_zeroes_skip_first(self.m.digits())
+                            != self.m.max_bit_len())))
         {
-            // non zero for directed rounding modes
+            // non zero for directed rounding modes,
+            // non zero for rounding to nearest when self is larger than half of the minimum positive number
+            // (or equal to the half in case of rounding to odd)
             self.m.set_zero();
             self.m.digits_mut()[0] = 1;
             self.m.set_bit_len(1);
-- 
2.43.0


From f455278ef51ea47c1bae40e058bb78156fee3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 05/22] fix: comparison of absolute values compared signed
 values, and was wrong for zero second argument

---
 astro-float-num/src/ext.rs | 2 +-
 astro-float-num/src/num.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..124a122 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -352,7 +352,7 @@ impl BigFloat {
     pub fn abs_cmp(&self, d2: &Self) -> Option<SignedWord> {
         match &self.inner {
             Flavor::Value(v1) => match &d2.inner {
-                Flavor::Value(v2) => Some(v1.cmp(v2)),
+                Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
                 Flavor::Inf(_) => Some(-1),
                 Flavor::NaN(_) => None,
             },
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index b630bcc..2ea5370 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -777,6 +777,10 @@ impl BigFloatNumber {
             }
         }
 
+        if d2.m.is_zero() {
+            return 1;
+        }
+
         let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
 
         let n2 = d2.mantissa_max_bit_len() as isize - d2.precision() as isize;
-- 
2.43.0


From 48c37192add7c5b2c3019909e413d95bd6e8b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 06/22] fix: binary digits with leading zeroes were converted
 to a number with denormalized mantissa

---
 astro-float-num/src/conv.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..f11e4de 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -113,32 +113,33 @@ impl BigFloatNumber {
 
         mantissa.update_bit_len();
 
-        if p < usize::MAX {
-            let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
-
-            ret.set_precision(p, rm)?;
-
-            Ok(ret)
+        if mantissa.is_zero() {
+            e = 0;
         } else {
+            // normalize
             let shift = mantissa.max_bit_len() - mantissa.bit_len();
 
             if shift > 0 {
-                if e > EXPONENT_MIN {
-                    let e_shift = (e - EXPONENT_MIN) as usize;
+                let e_shift = (e as isize - EXPONENT_MIN as isize) as usize;
 
-                    if e_shift >= shift {
-                        mantissa.normilize2();
-                        e -= shift as Exponent;
-                    } else {
-                        mantissa.shift_left(e_shift);
-                        mantissa.set_bit_len(mantissa.bit_len() + e_shift);
-                        e = EXPONENT_MIN;
-                    }
+                if e_shift >= shift {
+                    mantissa.normilize2();
+                    e = (e as isize - shift as isize) as Exponent;
+                } else {
+                    mantissa.shift_left(e_shift);
+                    mantissa.set_bit_len(mantissa.bit_len() + e_shift);
+                    e = EXPONENT_MIN;
                 }
             }
+        }
+
+        let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
 
-            Ok(BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false))
+        if p < usize::MAX {
+            ret.set_precision(p, rm)?;
         }
+
+        Ok(ret)
     }
 
     // radix is power of 2.
-- 
2.43.0


From 5c6624a07f1ea1fabe514ed65b41354139af0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 07/22] fix: set_precision could leave zero with non-zero
 exponent

---
 astro-float-num/src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 2ea5370..1b48ba7 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1438,6 +1438,10 @@ impl BigFloatNumber {
 
         self.m.set_length(p)?;
 
+        if self.m.is_zero() {
+            self.e = 0;
+        }
+
         Ok(true)
     }
 
-- 
2.43.0


From 2e16f455315361a7b4699ceed06980bc98774834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 08/22] fix: conversion from f64 ignored the precision for
 zero, and returned a half of the value for subnormals

---
 astro-float-num/src/num.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 1b48ba7..7d77349 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -817,12 +817,12 @@ impl BigFloatNumber {
     pub fn from_f64(p: usize, mut f: f64) -> Result<Self, Error> {
         Self::p_assertion(p)?;
 
-        let mut ret = Self::new(0)?;
-
         if f == 0.0f64 {
-            return Ok(ret);
+            return Self::new(p);
         }
 
+        let mut ret = Self::new(0)?;
+
         if f.is_infinite() {
             return Err(Error::ExponentOverflow(if f.is_sign_negative() {
                 Sign::Neg
@@ -847,9 +847,10 @@ impl BigFloatNumber {
         if exponent != 0 {
             mantissa >>= 1;
             mantissa |= 0x8000000000000000u64;
-            exponent += 1;
         }
 
+        exponent += 1;
+
         let (shift, m) = Mantissa::from_u64(p, mantissa)?;
 
         ret.m = m;
-- 
2.43.0


From 7ab9f9ae0789684d9bc71898444f60e8805a900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 09/22] fix: zero was classified as subnormal

---
 astro-float-num/src/ext.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 124a122..d9b331c 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -526,7 +526,7 @@ impl BigFloat {
     /// Returns true if `self` is subnormal. A number is subnormal if the most significant bit of the mantissa is not equal to 1.
     pub fn is_subnormal(&self) -> bool {
         if let Flavor::Value(v) = &self.inner {
-            return v.is_subnormal();
+            return v.is_subnormal() && !v.is_zero();
         }
         false
     }
@@ -737,10 +737,10 @@ impl BigFloat {
     pub fn classify(&self) -> FpCategory {
         match &self.inner {
             Flavor::Value(v) => {
-                if v.is_subnormal() {
-                    FpCategory::Subnormal
-                } else if v.is_zero() {
+                if v.is_zero() {
                     FpCategory::Zero
+                } else if v.is_subnormal() {
+                    FpCategory::Subnormal
                 } else {
                     FpCategory::Normal
                 }
-- 
2.43.0


From 27fae87d1f500618d5086d5b87a6c933fee626f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 10/22] fix: try_set_precision panicked when the number of
 correct digits is not a multiple of the word size

---
 astro-float-num/src/num.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 7d77349..c048448 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1385,6 +1385,15 @@ impl BigFloatNumber {
         rm: RoundingMode,
         s: usize,
     ) -> Result<bool, Error> {
+        let l = self.mantissa_max_bit_len();
+
+        // only complete words of correct digits are taken into account
+        let s = if self.inexact() { s.min(l) / WORD_BIT_SIZE * WORD_BIT_SIZE } else { l };
+
+        if s < p && p < l && rm != RoundingMode::None {
+            return Ok(false);
+        }
+
         self.set_precision_internal(p, rm, self.inexact(), s)
     }
 
-- 
2.43.0


From 8f157c9b81b70211d2c21392bc0a6478d05c6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 11/22] fix: sums, products and quotients in the subnormal
 range were rounded twice, exact sums and differences lost bits

---
 astro-float-num/src/num.rs | 81 ++++++++++++++++++++++++++++++++++----
 1 file changed, 73 insertions(+), 8 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index c048448..0311d74 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -339,6 +339,22 @@ impl BigFloatNumber {
         }
 
         if e < EXPONENT_MIN as isize {
+            if !full_prec {
+                // compute exact value, then round it once
+                inexact = self.inexact || d2.inexact;
+
+                let (e_shift, m3) = m1_normalized.mul(
+                    m2_normalized,
+                    p,
+                    rm,
+                    s == Sign::Pos,
+                    true,
+                    &mut inexact,
+                )?;
+
+                return Self::new_subnormal(m3, s, e1 + e2 - e_shift, p, rm, inexact);
+            }
+
             let mut ret = BigFloatNumber {
                 m: m3,
                 s,
@@ -403,16 +419,24 @@ impl BigFloatNumber {
         }
 
         if e < EXPONENT_MIN as isize {
-            let mut ret = BigFloatNumber {
-                m: m3,
-                s,
-                e: EXPONENT_MIN,
-                inexact,
-            };
+            // compute with additional precision and sticky bit, then round once
+            let mut sticky = false;
 
-            ret.subnormalize(e, rm);
+            let (e_shift, mut m3) = m1_normalized.div(
+                m2_normalized,
+                p + WORD_BIT_SIZE,
+                RoundingMode::ToZero,
+                s == Sign::Pos,
+                &mut sticky,
+            )?;
 
-            Ok(ret)
+            if sticky {
+                m3.digits_mut()[0] |= 1;
+            }
+
+            inexact = self.inexact || d2.inexact;
+
+            Self::new_subnormal(m3, s, e1 - e2 + e_shift, p, rm, inexact)
         } else {
             Ok(BigFloatNumber {
                 m: m3,
@@ -685,7 +709,15 @@ impl BigFloatNumber {
         d3.m = m3;
 
         if e < EXPONENT_MIN as isize {
+            if !full_prec {
+                // compute exact value, then round it once
+                let mut ret = self.add_sub(d2, 0, op, rm, true)?;
+                ret.set_precision(p, rm)?;
+                return Ok(ret);
+            }
+
             d3.e = EXPONENT_MIN;
+            d3.m.set_length(d3.m.max_bit_len() + (EXPONENT_MIN as isize - e) as usize)?;
             d3.subnormalize(e, rm);
         } else {
             d3.e = e as Exponent;
@@ -694,6 +726,39 @@ impl BigFloatNumber {
         Ok(d3)
     }
 
+    // Returns subnormal number with precision `p`, given normalized mantissa `m`, and `e` smaller than EXPONENT_MIN.
+    // The value is rounded once.
+    fn new_subnormal(
+        m: Mantissa,
+        s: Sign,
+        e: isize,
+        p: usize,
+        rm: RoundingMode,
+        inexact: bool,
+    ) -> Result<Self, Error> {
+        let mut ret = BigFloatNumber {
+            m,
+            s,
+            e: EXPONENT_MIN,
+            inexact,
+        };
+
+        let shift = (EXPONENT_MIN as isize - e) as usize;
+
+        if shift > p {
+            // smaller than a half of the minimum positive number
+            ret.m.set_length(p)?;
+            ret.subnormalize(e, rm);
+        } else {
+            // extend mantissa to avoid loss of bits, and then round
+            ret.m.set_length(ret.m.max_bit_len() + shift)?;
+            ret.subnormalize(e, rm);
+            ret.set_precision(p, rm)?;
+        }
+
+        Ok(ret)
+    }
+
     /// Make `self` subnormal
     pub(crate) fn subnormalize(&mut self, e: isize, rm: RoundingMode) {
         debug_assert_eq!(self.exponent(), EXPONENT_MIN);
-- 
2.43.0


From 1e23a825f09be4f104ef432fd3a2a986b757617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:29 +0000
Subject: [PATCH 12/22] fix: tanh of infinity and powers equal to one were NaN
 when the precision is less than 8 bits

---
 astro-float-num/src/ext.rs     | 12 ++++++++----
 astro-float-num/src/ops/pow.rs |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index d9b331c..7f7a79f 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -397,7 +397,7 @@ impl BigFloat {
                         } else if val < 0 {
                             Self::new(p)
                         } else {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         }
                     }
                     Flavor::NaN(err) => Self::nan(*err),
@@ -408,7 +408,7 @@ impl BigFloat {
                     Flavor::Value(v2) => {
                         // inf ^ v2
                         if v2.is_zero() {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         } else if v2.is_positive() {
                             if s1.is_negative() && v2.is_odd_int() {
                                 // v2 is odd and has no fractional part.
@@ -444,7 +444,7 @@ impl BigFloat {
             Flavor::Inf(s1) => {
                 // inf ^ v2
                 if n == 0 {
-                    Self::from_u8(1, p)
+                    Self::from_word(1, p)
                 } else if s1.is_negative() && (n & 1 == 1) {
                     INF_NEG
                 } else {
@@ -769,7 +769,11 @@ impl BigFloat {
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Self {
         match &self.inner {
             Flavor::Value(v) => Self::result_to_ext(v.tanh(p, rm, cc), v.is_zero(), true),
-            Flavor::Inf(s) => Self::from_i8(s.to_int(), p),
+            Flavor::Inf(s) => {
+                let mut ret = Self::from_word(1, p);
+                ret.set_sign(*s);
+                ret
+            }
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..ad6e96f 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -475,7 +475,8 @@ impl BigFloatNumber {
         } else if self.exponent() == 1 && self.abs_cmp(&ONE) == 0 {
             // 1^n or (-1)^n
             if n.is_odd_int() {
-                let mut ret = Self::from_i8(self.sign().to_int(), p)?;
+                let mut ret = Self::from_word(1, p)?;
+                ret.set_sign(self.sign());
                 ret.set_inexact(self.inexact() || n.inexact());
                 return Ok(ret);
             } else {
-- 
2.43.0


From 6793df03a8b71cc46920172b0eeba4830bf33fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 13/22] fix: non-zero digits of exact value were ignored during
 rounding of decimal digits

---
 astro-float-num/src/conv.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f11e4de..64261f9 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -471,8 +471,11 @@ impl BigFloatNumber {
             let mut e_out = e_out as Exponent;
 
             // cut off digits with error
-            let valid =
-                digits.len() as i64 - ((shift + err_acc) as i64 * 301029996 / 1000000000) - 1;
+            let valid = if inexact {
+                digits.len() as i64 - ((shift + err_acc) as i64 * 301029996 / 1000000000) - 1
+            } else {
+                digits.len() as i64
+            };
 
             if digits.len() > n && valid > n as i64 {
                 // try round
-- 
2.43.0


From 2cc2c7bf3ab23f37c6a8f563d694c934f19b63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 14/22] fix: rounding of subnormal numbers smaller than a half
 to nearest could return non zero

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 0311d74..62a6bcb 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1313,7 +1313,7 @@ impl BigFloatNumber {
 
             if m >= self.mantissa_max_bit_len() {
                 let is_positive = self.is_positive();
-                let msb_set = self.m.most_significant_word() & WORD_SIGNIFICANT_BIT != 0;
+                let msb_set = !self.is_subnormal();
 
                 ret.m.set_zero();
 
-- 
2.43.0


From ac8fe26f45a5ae71ae6cd483af0e5be31b9f5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 15/22] fix: parsing of decimal numbers far below the minimum
 positive number did not terminate

---
 astro-float-num/src/conv.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 64261f9..3295127 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -312,6 +312,17 @@ impl BigFloatNumber {
             p
         };
 
+        // the value is smaller than 10^(e - leadzeroes), and log2(10) > 3.321928
+        let e_max = (e as i64 - leadzeroes as i64) * 3321928 / 1000000;
+
+        if e_max < EXPONENT_MIN as i64 - p as i64 - 1 {
+            // smaller than a half of the minimum positive number
+            let mut ret = Self::min_positive_normal(p)?;
+            ret.set_sign(sign);
+            ret.subnormalize(EXPONENT_MIN as isize - p as isize - 1, rm);
+            return Ok(ret);
+        }
+
         let mut p_inc = WORD_BIT_SIZE;
         let mut p_wrk = p + p_inc;
 
-- 
2.43.0


From 5fbcf9fad2b07352c12bd2c764e9c21333faa80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 16/22] fix: conversion of octal and hexadecimal digits in the
 subnormal range returned denormalized mantissa

---
 astro-float-num/src/conv.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 3295127..4f710ae 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -242,6 +242,11 @@ impl BigFloatNumber {
 
                     num.subnormalize(e, RoundingMode::None);
 
+                    if num.is_zero() {
+                        num.mantissa_mut().set_bit_len(1);
+                        num.set_exponent(EXPONENT_MIN);
+                    }
+
                     if num.inexact() {
                         num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
                     }
@@ -257,6 +262,7 @@ impl BigFloatNumber {
 
                     let leftshift = m.max_bit_len() - newbitlen;
                     m.shift_left(leftshift);
+                    m.set_bit_len(m.bit_len() + leftshift);
 
                     BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false)
                 }
-- 
2.43.0


From 34ba4135eb955b6b6f4d50633517bb2df5b55f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 17/22] fix: wrong mantissa length was assumed in conversion to
 decimal digits without scaling

---
 astro-float-num/src/conv.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 4f710ae..f91dd6b 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -456,6 +456,11 @@ impl BigFloatNumber {
                 err_acc += 3;
             }
 
+            if x.mantissa_max_bit_len() < p_wrk {
+                // no multiplication or division has happened
+                x.set_precision(p_wrk, RoundingMode::None)?;
+            }
+
             if err_acc > err {
                 err_acc += err_acc / TEN_PWR_MAX_TO_DEC + 3;
                 p_wrk += round_p(err_acc - err);
-- 
2.43.0


From e8636b7c4f7e8532756a6282a31b750cbb8701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 18/22] fix: zeroes in the middle of decimal digits were lost
 in conversion of sparse mantissas

---
 astro-float-num/src/mantissa/conv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..6e93c1a 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -71,7 +71,7 @@ impl Mantissa {
             let mut q = Mantissa::from_word_buf(q);
             let mut r = Mantissa::from_word_buf(r);
 
-            if q.is_zero() {
+            if q.is_zero() && most_significant {
                 let part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
 
                 Ok(part1)
-- 
2.43.0


From b431ae8584db96e31a053393088275c46babbdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 19/22] fix: conversion to f64 returned a double of subnormals,
 and infinity instead of the largest values

---
 astro-float-num/src/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 62a6bcb..eabc5f1 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -939,13 +939,13 @@ impl BigFloatNumber {
         let mut e: isize = self.e as isize + 0b1111111111;
         let mut ret = 0;
 
-        if e >= 0b11111111111 {
+        if e > 0b11111111111 {
             match self.s {
                 Sign::Pos => f64::INFINITY,
                 Sign::Neg => f64::NEG_INFINITY,
             }
-        } else if e <= 0 {
-            let shift = -e;
+        } else if e <= 1 {
+            let shift = 1 - e;
             if shift < 52 {
                 ret |= mantissa >> (shift + 12);
                 if self.s == Sign::Neg {
-- 
2.43.0


From a5fb807c190b10192725773ad0d4e4f1d469a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 20/22] fix: zero with a large exponent was parsed as infinity

---
 astro-float-num/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 6f0aaf7..8c49c32 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -145,7 +145,13 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
             parser_state.mantissa_bytes = zero;
             parser_state.e = 0;
         } else if parser_state.e > EXPONENT_MAX as isize {
-            parser_state.inf = true;
+            if parser_state.mantissa_bytes.iter().all(|d| *d == 0) {
+                // zero, regardless of the exponent
+                parser_state.mantissa_bytes.clear();
+                parser_state.e = 0;
+            } else {
+                parser_state.inf = true;
+            }
         }
     } else if skip_cnt1 > 0 {
         // just zeroes
-- 
2.43.0


From 8a4db7b313eed3d655a5a362d8517b47eb79fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 21/22] fix: the subnormal fraction of a very long mantissa
 keeps its bit length up to date

---
 astro-float-num/src/num.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index eabc5f1..efe0817 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1167,6 +1167,7 @@ impl BigFloatNumber {
                         let shift1 = (self.e as isize - EXPONENT_MIN as isize) as usize;
                         ret.m.shift_left(shift1);
                         ret.m.mask_bits(shift - shift1, true);
+                        ret.m.update_bit_len();
                         e = EXPONENT_MIN as isize;
                     } else {
                         ret.m.shift_left(shift);
-- 
2.43.0


From 33c838326fb060a745a676691e45883d17b2ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 22/22] fix: exponents of very long mantissas are computed
 without overflow

---
 astro-float-num/src/num.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index efe0817..02aaca3 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1081,7 +1081,7 @@ impl BigFloatNumber {
                 shift = (e as isize - EXPONENT_MIN as isize) as usize;
                 e = EXPONENT_MIN;
             } else {
-                e -= shift as Exponent;
+                e = (e as isize - shift as isize) as Exponent;
             }
             m.shift_left(shift);
             m.set_bit_len(bl + shift);
@@ -1272,7 +1272,7 @@ impl BigFloatNumber {
                 } else {
                     self.m.shift_left(n);
                     self.m.set_bit_len(self.m.max_bit_len());
-                    self.e = e - n as Exponent;
+                    self.e = (e as isize - n as isize) as Exponent;
                 }
             } else {
                 self.e = e;
-- 
2.43.0

