From 4f948299500f05b88618bc05d28d351e057bf07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 1/9] fix: compare numbers without wrapping

Numbers whose exponents differ by 20 or more compared against a meaningless
power of ten, the scaled mantissa wrapped around, and the difference of the
exponents overflowed i16.
---
 src/number.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..f7a0ac2 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -204,18 +204,14 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
         if e_diff == 0 {
             return self.mantissa == other.mantissa;
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
-
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            shift_left(self.mantissa, e_diff) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
-
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            Some(self.mantissa) == shift_left(other.mantissa, -e_diff)
         }
 
     }
@@ -541,6 +537,20 @@ impl ops::Neg for Number {
 //     }
 // }
 
+// `mantissa * 10^e`, unless that overflows
+#[inline]
+fn shift_left(mantissa: u64, e: i32) -> Option<u64> {
+    if mantissa == 0 || e == 0 {
+        return Some(mantissa);
+    }
+
+    if e < 20 {
+        mantissa.checked_mul(decimal_power(e as u16))
+    } else {
+        None
+    }
+}
+
 #[inline]
 fn decimal_power(mut e: u16) -> u64 {
     static CACHED: [u64; 20] = [
-- 
2.43.0


From 8e76e8e6c27083345e2e62c29703d13d4a87d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 2/9] fix: fixed point reads of large numbers and exponents

The sum of the decimal point and the exponent overflowed i16, mantissas above
i64::MAX changed sign, results that don't fit wrapped around, and differences
of 20 or more used a meaningless power of ten.
---
 src/number.rs | 60 +++++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index f7a0ac2..a32db3c 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -130,7 +130,8 @@ impl Number {
     /// converting monetary values and doing arithmetic on them without
     /// rounding errors introduced by floating point operations.
     ///
-    /// Will return `None` if `Number` is negative or a NaN.
+    /// Will return `None` if `Number` is negative or a NaN, or if the
+    /// result doesn't fit.
     ///
     /// ```
     /// # use json::number::Number;
@@ -147,15 +148,13 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
+        let e_diff = point as i32 + self.exponent as i32;
 
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
+        if e_diff < 0 {
+            Some(shift_right(self.mantissa, -e_diff))
         } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+            shift_left(self.mantissa, e_diff)
+        }
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,21 +173,19 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
+        let e_diff = point as i32 + self.exponent as i32;
+
+        let num = if e_diff < 0 {
+            shift_right(self.mantissa, -e_diff)
         } else {
-            -(self.mantissa as i64)
+            shift_left(self.mantissa, e_diff)?
         };
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
+        if self.is_sign_positive() {
+            i64::try_from(num).ok()
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
-        })
+            i64::try_from(-(num as i128)).ok()
+        }
     }
 }
 
@@ -551,8 +548,19 @@ fn shift_left(mantissa: u64, e: i32) -> Option<u64> {
     }
 }
 
+// `mantissa / 10^e`, rounded towards zero
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn shift_right(mantissa: u64, e: i32) -> u64 {
+    if e < 20 {
+        mantissa / decimal_power(e as u16)
+    } else {
+        0
+    }
+}
+
+// `10^e`, for `e` lower than 20
+#[inline]
+fn decimal_power(e: u16) -> u64 {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -576,15 +584,5 @@ fn decimal_power(mut e: u16) -> u64 {
         10000000000000000000,
     ];
 
-    if e < 20 {
-        CACHED[e as usize]
-    } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
-    }
+    CACHED[e as usize]
 }
-- 
2.43.0


From 052170c8571e580a3476c6c5c55cf05c08920331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 3/9] fix: converting the lowest integer of a signed type to a
 number

Negating it overflowed.
---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index a32db3c..8d8aad5 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -433,7 +433,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From 68babc5d8467776919598e3c90160e2fe80b3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 4/9] fix: reading numbers as signed integers

Mantissas above i64::MAX wrapped around or overflowed, and a NaN was read as 0.
---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 8d8aad5..5fdde67 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -451,14 +451,14 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if num.is_nan() || exponent != 0 {
                     return Err(NumberOutOfScope);
                 }
 
                 let mantissa = if positive {
-                    mantissa as i64
+                    mantissa as i128
                 } else {
-                    -(mantissa as i64)
+                    -(mantissa as i128)
                 };
 
                 TryFrom::try_from(mantissa).map_err(Into::into)
-- 
2.43.0


From 94e85ff2c5e89559258d8884041194e151b18d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 5/9] fix: overflow in pretty printing with large indentation

---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..fb3e4e7 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 411dd2fe92f920a4e97a188376ff9074eb399b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 6/9] fix: reading zeros and small numbers as floats

A zero with a large exponent was read as NaN, and every number with an exponent
below -38 was read as an f32 zero.
---
 src/number.rs | 43 ++++---------------------------------------
 1 file changed, 4 insertions(+), 39 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5fdde67..e1a4f28 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -254,37 +254,13 @@ fn exponentiate_f64(n: f64, e: i16) -> f64 {
     }
 }
 
-
-fn exponentiate_f32(n: f32, e: i16) -> f32 {
-    static CACHE_POWERS: [f32; 23] = [
-          1.0,    1e1,    1e2,    1e3,    1e4,    1e5,    1e6,    1e7,
-          1e8,    1e9,   1e10,   1e11,   1e12,   1e13,   1e14,   1e15,
-         1e16,   1e17,   1e18,   1e19,   1e20,   1e21,   1e22
-    ];
-
-    if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
-    } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
-    }
-}
-
 impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
 
+        // Zero times an infinite power of ten is NaN
+        if num.is_zero() { return if num.is_sign_positive() { 0.0 } else { -0.0 }; }
+
         let mut n = num.mantissa as f64;
         let mut e = num.exponent;
 
@@ -300,18 +276,7 @@ impl From<Number> for f64 {
 
 impl From<Number> for f32 {
     fn from(num: Number) -> f32 {
-        if num.is_nan() { return f32::NAN; }
-
-        let mut n = num.mantissa as f32;
-        let mut e = num.exponent;
-
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
-        }
-
-        let f = exponentiate_f32(n, e);
-        if num.is_sign_positive() { f } else { -f }
+        f64::from(num) as f32
     }
 }
 
-- 
2.43.0


From c32c98ed4ef2bbf19648d216f24e92dab3678703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:36 +0000
Subject: [PATCH 7/9] fix: position of an unexpected character right after a
 line feed

It was reported at the end of the previous line.
---
 src/parser.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..d248db6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -411,13 +411,9 @@ impl<'a> Parser<'a> {
                      .next()
                      .expect("Must have a character");
 
-        let (lineno, col) = self.source[..at]
-                                .lines()
-                                .enumerate()
-                                .last()
-                                .unwrap_or((0, ""));
-
-        let colno = col.chars().count();
+        let before = &self.source[..at];
+        let lineno = before.bytes().filter(|&byte| byte == b'\n').count();
+        let colno = before.chars().rev().take_while(|&ch| ch != '\n').count();
 
         Err(Error::UnexpectedCharacter {
             ch: ch,
-- 
2.43.0


From ec15174bec3b746114c64f85de985e9f468d3ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 8/9] fix: saturate the exponent of parsed numbers once, at the
 end

More than 32768 fraction digits overflowed the exponent, more than 32767 excess
integer digits were rejected with the depth limit error, and saturating before
the digits were accounted for changed the value of numbers in range.
---
 src/parser.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d248db6..e2d869d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -250,7 +250,7 @@ macro_rules! expect_number {
                     num = num * 10 + (ch - b'0') as u64;
                 },
                 _             => {
-                    let mut e = 0;
+                    let mut e = 0i64;
                     result = allow_number_extensions!($parser, num, e, ch);
                     break;
                 }
@@ -287,7 +287,7 @@ macro_rules! allow_number_extensions {
             0.into()
         } else {
             let mut num = 0;
-            let mut e = 0;
+            let mut e = 0i64;
             let ch = $parser.read_byte();
             allow_number_extensions!($parser, num, e, ch)
         }
@@ -325,7 +325,7 @@ macro_rules! expect_fraction {
 
         loop {
             if $parser.is_eof() {
-                result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                result = number_from_parts($num, $e);
                 break;
             }
             let ch = $parser.read_byte();
@@ -354,7 +354,7 @@ macro_rules! expect_fraction {
                     break;
                 }
                 _ => {
-                    result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                    result = number_from_parts($num, $e);
                     break;
                 }
             }
@@ -364,6 +364,15 @@ macro_rules! expect_fraction {
     })
 }
 
+// The exponent is only brought down to its final size once all of the number
+// has been read, so that digits and explicit exponent can cancel out.
+#[inline]
+fn number_from_parts(num: u64, e: i64) -> Number {
+    let e = e.max(i16::MIN as i64).min(i16::MAX as i64) as i16;
+
+    unsafe { Number::from_parts_unchecked(true, num, e) }
+}
+
 impl<'a> Parser<'a> {
     pub fn new(source: &'a str) -> Self {
         Parser {
@@ -550,10 +559,10 @@ impl<'a> Parser<'a> {
     // the exponent. Note that no digits are actually read here, as we already
     // exceeded the precision range of f64 anyway.
     fn read_big_number(&mut self, mut num: u64) -> Result<Number> {
-        let mut e = 0i16;
+        let mut e = 0i64;
         loop {
             if self.is_eof() {
-                return Ok(unsafe { Number::from_parts_unchecked(true, num, e) });
+                return Ok(number_from_parts(num, e));
             }
             let ch = self.read_byte();
             match ch {
@@ -563,7 +572,7 @@ impl<'a> Parser<'a> {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => num = result,
-                        None         => e = e.checked_add(1).ok_or_else(|| Error::ExceededDepthLimit)?,
+                        None         => e += 1,
                     }
                 },
                 b'.' => {
@@ -578,12 +587,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
+        Ok(number_from_parts(num, e))
     }
 
     // Called in the rare case that a number with `e` notation has been
     // encountered. This is pretty straight forward, I guess.
-    fn expect_exponent(&mut self, num: u64, big_e: i16) -> Result<Number> {
+    fn expect_exponent(&mut self, num: u64, big_e: i64) -> Result<Number> {
         let mut ch = expect_byte!(self);
         let sign = match ch {
             b'-' => {
@@ -598,7 +607,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i64,
             _ => return self.unexpected_character(),
         };
 
@@ -610,13 +619,13 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i64);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        Ok(number_from_parts(num, big_e.saturating_add(e * sign)))
     }
 
     // Parse away!
-- 
2.43.0


From 9e1a7d3c8fc2e327adc9d90c0497db78274502b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 9/9] fix: compare strings stored in line with native String
 values

---
 src/value/implements.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..6b73f5f 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -143,7 +143,32 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
+// A string value may be stored as either `Short` or `String`, both have
+// to compare to the same native string.
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        *self == **other
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == **other
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        *other == **self
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0

