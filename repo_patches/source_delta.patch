From 9be3bb608c65ad49095f1ed539841b27daa9b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 01/46] fix: parse_timezone panics on empty text and on a
 leading multi-byte character

---
 xsd-types/src/types/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..1b81ea9 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,7 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let tokens: Vec<&str> = s.get(1..).unwrap_or_default().split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From 4f664e5f40c6d5ffcae802f1437638784db4e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 02/46] fix: gDay, gMonth and gMonthDay panic on multi-byte
 characters

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..093e038 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if s.len() != 5 || !s.starts_with("---") {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..549fdd2 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if s.len() != 4 || !s.starts_with("--") {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..acb5085 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if s.len() != 7 || !s.is_ascii() || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
-- 
2.43.0


From ac1cb838730d48edbc7a47149471e67a6446e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 03/46] fix: date accepts texts outside of the xs:date lexical
 space and rejects years above 9999

---
 xsd-types/src/types/date.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 820f930..2abd073 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -32,7 +32,25 @@ impl FromStr for Date {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
-            NaiveDate::parse_from_str(s, "%Y-%m-%d").map_err(|e| e.to_string())
+            // The lexical form is '-'? yyyy '-' mm '-' dd, where the year has at least four digits.
+            let (sign, abs) = match s.strip_prefix('-') {
+                Some(abs) => (-1, abs),
+                None => (1, s),
+            };
+            let tokens: Vec<&str> = abs.split('-').collect();
+            if tokens.len() != 3
+                || tokens[0].len() < 4
+                || tokens[1].len() != 2
+                || tokens[2].len() != 2
+                || !tokens.iter().all(|t| t.chars().all(|c| c.is_ascii_digit()))
+            {
+                return Err("bad date format".to_string());
+            }
+            let year = tokens[0].parse::<i32>().map_err(|e| e.to_string())?;
+            let month = tokens[1].parse::<u32>().map_err(|e| e.to_string())?;
+            let day = tokens[2].parse::<u32>().map_err(|e| e.to_string())?;
+            NaiveDate::from_ymd_opt(sign * year, month, day)
+                .ok_or_else(|| "bad date format: out of range".to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
-- 
2.43.0


From 408c4c0984de42e5197d9adc91da1e2e2f73b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 04/46] fix: date takes the day of a negative year for a
 timezone

---
 xsd-types/src/types/date.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 2abd073..75c566f 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -74,8 +74,9 @@ impl FromStr for Date {
             });
         }
 
-        if s.matches('-').count() == 3 {
-            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2].0;
+        // The sign of a negative year is not a separator.
+        if s.strip_prefix('-').unwrap_or(s).matches('-').count() == 3 {
+            let idx: usize = s.rfind('-').unwrap_or(0);
             let date_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Date {
-- 
2.43.0


From 50ec72ae0c4e684461dcb39c24f3d570c8becd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 05/46] fix: date with a year above 9999 is written with a plus
 sign

---
 xsd-types/src/types/date.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 75c566f..2d4be37 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -92,9 +92,12 @@ impl FromStr for Date {
 impl fmt::Display for Date {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let fmt = StrftimeItems::new("%Y-%m-%d");
+        // chrono puts '+' in front of a year above 9999, xs:date does not allow it.
+        let value = self.value.format_with_items(fmt).to_string();
+        let value = value.trim_start_matches('+');
         match self.timezone {
-            Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
-            None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
+            Some(tz) => write!(f, "{}{}", value, tz),
+            None => write!(f, "{}", value),
         }
     }
 }
-- 
2.43.0


From c3c6333bafe40a2c698d554ed848e64beb85711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 06/46] fix: time rejects fractional seconds and drops them
 when written

---
 xsd-types/src/types/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..54c42c0 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,7 +32,7 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
+            NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -76,7 +76,7 @@ impl FromStr for Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From bf4b6da958ea1e4e268faa344211a608188f9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 07/46] fix: time accepts texts outside of the xs:time lexical
 space

---
 xsd-types/src/types/time.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index 54c42c0..a80e9c8 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,6 +32,15 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
+            // chrono also takes unpadded and blank-padded fields, xs:time does not.
+            let shape_ok = s.bytes().enumerate().all(|(i, c)| match i {
+                2 | 5 => c == b':',
+                8 => c == b'.',
+                _ => c.is_ascii_digit(),
+            });
+            if !shape_ok || s.len() < 8 {
+                return Err("bad time format".to_string());
+            }
             NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
-- 
2.43.0


From dfdb53ad16f39224ee11de47271efdd51e7ebfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 08/46] fix: duration accepts a number without a designator
 when it is zero or follows the seconds

---
 xsd-types/src/types/duration.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..a83d6d1 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -91,6 +91,7 @@ impl FromStr for Duration {
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
+            context.is_dot_found = false;
 
             Ok(())
         }
@@ -123,7 +124,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.is_number_empty {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -190,7 +191,7 @@ impl FromStr for Duration {
             }
         }
 
-        if context.number > 0 {
+        if !context.is_number_empty {
             return Err("Number at the end of the string".into());
         }
 
-- 
2.43.0


From 0aa5adc2488747f938143fe563008316f95d4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 09/46] fix: duration overflows on long numbers and long
 fractions

---
 xsd-types/src/types/duration.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index a83d6d1..b70d95a 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -176,15 +176,19 @@ impl FromStr for Duration {
                         return Err("Incorrect character occurred".into());
                     }
 
+                    let digit = digit.to_digit(10).expect("error converting a digit") as u64;
                     if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
+                        // Digits past the eighteenth are far below the precision of f64.
+                        if context.denom < 10u64.pow(18) {
+                            context.numer = context.numer * 10 + digit;
+                            context.denom *= 10;
+                        }
                     } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
+                        context.number = context
+                            .number
+                            .checked_mul(10)
+                            .and_then(|n| n.checked_add(digit))
+                            .ok_or("Number is too large")?;
                         context.is_number_empty = false;
                     }
                 }
-- 
2.43.0


From 03d4c98ef438df9a001379ec699192e481a8c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 10/46] fix: conversion of a duration to std drops the sign and
 overflows

---
 xsd-types/src/types/duration.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index b70d95a..09c967e 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -20,12 +20,18 @@ impl Duration {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
         } else {
-            let secs = self.seconds as u64;
-
-            let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
+            let duration = (self.days.checked_mul(24))
+                .and_then(|hours| hours.checked_add(self.hours)?.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes)?.checked_mul(60))
+                .map(std::time::Duration::from_secs)
+                .zip(std::time::Duration::try_from_secs_f64(self.seconds).ok())
+                .and_then(|(whole, seconds)| whole.checked_add(seconds))
+                .ok_or("Duration is out of range")?;
+            if self.is_negative && !duration.is_zero() {
+                return Err("Negative duration can't be converted".into());
+            }
 
-            Ok(std::time::Duration::new(secs, nanos))
+            Ok(duration)
         }
     }
 
-- 
2.43.0


From 29910dc03904eeef4a3114c24cbf5a58d4439896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 11/46] fix: default negativeInteger and positiveInteger are
 zero

---
 xsd-types/src/types/negative_integer.rs | 9 ++++++++-
 xsd-types/src/types/positive_integer.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..c264fbb 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -4,7 +4,7 @@ use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
 
 impl NegativeInteger {
@@ -13,6 +13,13 @@ impl NegativeInteger {
     }
 }
 
+impl Default for NegativeInteger {
+    // Zero is outside of the value space.
+    fn default() -> Self {
+        NegativeInteger((-1).to_bigint().unwrap())
+    }
+}
+
 impl ToBigInt for NegativeInteger {
     fn to_bigint(&self) -> Option<BigInt> {
         Some(self.0.clone())
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..c35d5fb 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -4,7 +4,7 @@ use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
 
 impl PositiveInteger {
@@ -13,6 +13,13 @@ impl PositiveInteger {
     }
 }
 
+impl Default for PositiveInteger {
+    // Zero is outside of the value space.
+    fn default() -> Self {
+        PositiveInteger(1.to_biguint().unwrap())
+    }
+}
+
 impl ToBigUint for PositiveInteger {
     fn to_biguint(&self) -> Option<BigUint> {
         Some(self.0.clone())
-- 
2.43.0


From 7c2607ce7a6c1125cf2d3327afe62d665a44d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 12/46] fix: Decimal accepts text with exponents, digit
 separators or a misplaced sign

---
 xsd-types/src/types/decimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..fb13a38 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,6 +20,11 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // BigDecimal also takes exponents, digit separators and a second sign.
+        let unsigned = s.strip_prefix(['+', '-']).unwrap_or(s);
+        if !unsigned.bytes().all(|b| b.is_ascii_digit() || b == b'.') {
+            return Err(ParseBigDecimalError::Other(format!("Bad value for Decimal: '{}'", s)));
+        }
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
-- 
2.43.0


From 848e2bb16265eeb5fed7fbf5f52b1a9d307d7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 13/46] fix: Decimal is printed with an exponent, which
 xs:decimal does not have

---
 xsd-types/src/types/decimal.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index fb13a38..8b7923b 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,7 @@
 use std::{fmt, str::FromStr};
 
 use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use num_bigint::Sign;
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -31,7 +32,19 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // Unlike BigDecimal's own formatting, never use an exponent: xs:decimal has none.
+        let (int, scale) = self.0.as_bigint_and_exponent();
+        let mut digits = int.magnitude().to_string();
+        if scale > 0 {
+            let scale = scale as usize;
+            if digits.len() <= scale {
+                digits.insert_str(0, &"0".repeat(scale + 1 - digits.len()));
+            }
+            digits.insert(digits.len() - scale, '.');
+        } else if int.sign() != Sign::NoSign {
+            digits.push_str(&"0".repeat(scale.unsigned_abs() as usize));
+        }
+        f.pad_integral(int.sign() != Sign::Minus, "", &digits)
     }
 }
 
-- 
2.43.0


From e169473374677b3cca5a9f92f7960062babf36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 14/46] fix: NonNegativeInteger rejects -0

---
 xsd-types/src/types/non_negative_integer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..534d8af 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use num_bigint::{BigUint, ToBigUint};
+use num_bigint::{BigInt, BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
@@ -23,7 +23,9 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        // Negative zero is legal.
+        let value = value.to_biguint().ok_or("Bad value for NonNegativeInteger")?;
         if value < 0.to_biguint().unwrap() {
             Err("Bad value for NonNegativeInteger".to_string())
         } else {
-- 
2.43.0


From 9e59660024e5c309ca7ebe1e9c2afe9cfc7d6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 15/46] fix: the integer types accept underscores between
 digits

---
 xsd-types/src/types/integer.rs              | 2 ++
 xsd-types/src/types/negative_integer.rs     | 3 +++
 xsd-types/src/types/non_negative_integer.rs | 3 +++
 xsd-types/src/types/non_positive_integer.rs | 3 +++
 xsd-types/src/types/positive_integer.rs     | 3 +++
 5 files changed, 14 insertions(+)

diff --git a/xsd-types/src/types/integer.rs b/xsd-types/src/types/integer.rs
index 610189c..b91f635 100644
--- a/xsd-types/src/types/integer.rs
+++ b/xsd-types/src/types/integer.rs
@@ -23,6 +23,8 @@ impl FromStr for Integer {
     type Err = ParseBigIntError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // BigInt skips underscores between digits, but refuses one on its own.
+        let s = if s.contains('_') { "_" } else { s };
         Ok(Integer(BigInt::from_str(s)?))
     }
 }
diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index c264fbb..764d916 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -30,6 +30,9 @@ impl FromStr for NegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        if s.contains('_') {
+            return Err("Bad value for NegativeInteger".to_string());
+        }
         let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
         if value >= 0.to_bigint().unwrap() {
             Err("Bad value for NegativeInteger".to_string())
diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 534d8af..4919628 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -23,6 +23,9 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        if s.contains('_') {
+            return Err("Bad value for NonNegativeInteger".to_string());
+        }
         let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
         // Negative zero is legal.
         let value = value.to_biguint().ok_or("Bad value for NonNegativeInteger")?;
diff --git a/xsd-types/src/types/non_positive_integer.rs b/xsd-types/src/types/non_positive_integer.rs
index b0565a6..194cbad 100644
--- a/xsd-types/src/types/non_positive_integer.rs
+++ b/xsd-types/src/types/non_positive_integer.rs
@@ -23,6 +23,9 @@ impl FromStr for NonPositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        if s.contains('_') {
+            return Err("Bad value for NonPositiveInteger".to_string());
+        }
         let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
         if value > 0.to_bigint().unwrap() {
             Err("Bad value for NonPositiveInteger".to_string())
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index c35d5fb..4b2d637 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -30,6 +30,9 @@ impl FromStr for PositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        if s.contains('_') {
+            return Err("Bad value for PositiveInteger".to_string());
+        }
         let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
         if value <= 0.to_biguint().unwrap() {
             Err("Bad value for PositiveInteger".to_string())
-- 
2.43.0


From cfb015930d3dda247a196823f0ebd1093063dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 16/46] fix: an optional element with an explicit maxOccurs of
 1 is generated as mandatory

---
 xsd-parser/src/parser/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..6118d7d 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -150,7 +150,7 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
                 if val > 1 {
                     TypeModifier::Array
                 } else {
-                    TypeModifier::None
+                    TypeModifier::Option
                 }
             }
         },
-- 
2.43.0


From 2ebb55a494d3205510e91544a41be23f67ab7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:14 +0000
Subject: [PATCH 17/46] fix: an element whose type name ends with the name of
 the enclosing type is taken for recursive

---
 xsd-parser/src/parser/all.rs      | 2 +-
 xsd-parser/src/parser/sequence.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..4f4375f 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..bdbec4b 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -26,7 +26,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
+                if sf.type_name.split(':').last() == Some(parent_name) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
-- 
2.43.0


From 168e60cdab19a450476d962e7c4b235a36591cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:16 +0000
Subject: [PATCH 18/46] fix: attribute groups of a type are lost next to a
 sequence, all or extension content

---
 xsd-parser/src/parser/complex_type.rs | 1 +
 xsd-parser/src/parser/extension.rs    | 2 ++
 xsd-parser/src/parser/restriction.rs  | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..253ffb1 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -67,6 +67,7 @@ fn complex_content_extension(node: &Node) -> RsEntity {
         .filter(|n| {
             n.is_element()
                 && n.xsd_type() != ElementType::Attribute
+                && n.xsd_type() != ElementType::AttributeGroup
                 && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
         })
         .last();
@@ -75,6 +76,7 @@ fn complex_content_extension(node: &Node) -> RsEntity {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             return res;
         }
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..5f5dffe 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -79,6 +79,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         .filter(|n| {
             n.is_element()
                 && n.xsd_type() != ElementType::Attribute
+                && n.xsd_type() != ElementType::AttributeGroup
                 && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
         })
         .last();
@@ -88,6 +89,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             return res;
         }
     }
-- 
2.43.0


From fb26ccd7da0429cd43fdc0bde5e7b9349e14dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 19/46] fix: elements of a complex restriction are lost when
 anyAttribute follows

---
 xsd-parser/src/parser/restriction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 5f5dffe..c52a0cc 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -80,6 +80,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
             n.is_element()
                 && n.xsd_type() != ElementType::Attribute
                 && n.xsd_type() != ElementType::AttributeGroup
+                && n.xsd_type() != ElementType::AnyAttribute
                 && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
         })
         .last();
-- 
2.43.0


From 8e00f6a65e2f3d2be822ef7b758dd7100e9d18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 20/46] fix: a type extended before its base is lacks the
 fields of the base's own base

---
 xsd-parser/src/parser/types.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..100e5e8 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -36,16 +36,24 @@ impl Struct {
     }
 
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
+        let mut own_fields = self.fields.take();
+        own_fields.iter_mut().for_each(|f| f.extend_base(types));
+        let (bases, own_fields): (Vec<_>, Vec<_>) =
+            own_fields.into_iter().partition(|f| f.name.as_str() == tag::BASE);
+        self.fields.replace(own_fields);
 
-        let mut fields = self
-            .fields
-            .borrow()
+        let mut fields = bases
             .iter()
-            .filter(|f| f.name.as_str() == tag::BASE)
             .flat_map(|f| {
                 let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
+                // The base may be declared later in the file and have a base of its own.
+                types
+                    .get(&key)
+                    .map(|s| {
+                        s.extend_base(types);
+                        s.fields.borrow().clone()
+                    })
+                    .unwrap_or_default()
             })
             .filter(|f| {
                 //TODO: remove this workaround for fields names clash
-- 
2.43.0


From 6469f6bfa316f4bcadac26f1f3aa923bc4b152c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 21/46] fix: attribute groups in anonymous types, in other
 groups and in base types are lost

---
 xsd-parser/src/parser/attribute_group.rs |  3 ++-
 xsd-parser/src/parser/mod.rs             |  9 +++++++--
 xsd-parser/src/parser/types.rs           | 24 ++++++++++++++++++++++--
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..b21351f 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -31,6 +31,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..304455b 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -47,15 +47,20 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
             map.extend(st.get_types_map());
         }
     }
+    // Attribute groups have a symbol space of their own.
+    let mut groups = HashMap::new();
     for ag in &schema_rs.attribute_groups {
         if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
+            groups.extend(st.get_types_map());
         }
     }
+    // What a type inherits from its base includes the attribute groups of the base.
+    for ty in &schema_rs.types {
+        ty.extend_attribute_group(&groups);
+    }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
             st.extend_base(&map);
-            st.extend_attribute_group(&map);
         }
     }
 
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 100e5e8..23246b9 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -75,15 +75,27 @@ impl Struct {
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
         let mut fields = self
             .attribute_groups
-            .borrow()
+            .take()
             .iter()
             .flat_map(|f| {
                 let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
+                // A group may refer to other groups.
+                types
+                    .get(&key)
+                    .map(|s| {
+                        s.extend_attribute_group(types);
+                        s.fields.borrow().clone()
+                    })
+                    .unwrap_or_default()
             })
             .collect::<Vec<StructField>>();
 
         self.fields.borrow_mut().append(&mut fields);
+
+        for field in self.fields.borrow().iter() {
+            field.subtypes.iter().for_each(|s| s.extend_attribute_group(types));
+        }
+        self.subtypes.iter().for_each(|s| s.extend_attribute_group(types));
     }
 }
 
@@ -200,6 +212,14 @@ pub enum RsEntity {
 }
 
 impl RsEntity {
+    pub fn extend_attribute_group(&self, types: &HashMap<&String, &Struct>) {
+        match self {
+            RsEntity::Struct(s) => s.extend_attribute_group(types),
+            RsEntity::Enum(e) => e.subtypes.iter().for_each(|s| s.extend_attribute_group(types)),
+            _ => (),
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From ed8a54a42670daf23543369a0874bf0404c7611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 22/46] fix: an anonymous type with a choice as its content is
 generated as two types of one name

---
 xsd-parser/src/parser/element.rs |  5 +++--
 xsd-parser/src/parser/types.rs   | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 6118d7d..bbf1668 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -98,11 +98,12 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
 
     let mut field_type = parse_node(&content_node, node);
 
-    field_type.set_name(format!("{}Type", name).as_str());
+    let type_name = format!("{}Type", name);
+    field_type.set_name(&type_name);
 
     RsEntity::StructField(StructField {
         name,
-        type_name: field_type.name().to_string(),
+        type_name,
         comment: get_documentation(node),
         subtypes: vec![field_type],
         source: StructFieldSource::Element,
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 23246b9..bbac29f 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -238,7 +238,26 @@ impl RsEntity {
         match self {
             Struct(s) => s.name = name.to_string(),
             TupleStruct(tp) => tp.name = name.to_string(),
-            Enum(e) => e.name = name.to_string(),
+            Enum(e) => {
+                // The type with a choice as its content is the struct next to the enum.
+                let choice = format!("{}Choice", name);
+                match e.subtypes.first_mut() {
+                    Some(Struct(s)) if e.source == EnumSource::Choice => {
+                        s.name = name.to_string();
+                        for f in s
+                            .fields
+                            .borrow_mut()
+                            .iter_mut()
+                            .filter(|f| matches!(f.source, StructFieldSource::Choice))
+                        {
+                            f.name.clone_from(&choice);
+                            f.type_name.clone_from(&choice);
+                        }
+                        e.name = choice;
+                    }
+                    _ => e.name = name.to_string(),
+                }
+            }
             EnumCase(ec) => ec.name = name.to_string(),
             Alias(al) => al.name = name.to_string(),
             StructField(sf) => sf.name = name.to_string(),
-- 
2.43.0


From 75890ee3e461fad7480795b28588cebc9bf54259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 23/46] fix: a choice in a sequence is bound to an element of
 its own, one in an extension is lost

---
 xsd-parser/src/parser/extension.rs   | 10 +++++++++-
 xsd-parser/src/parser/restriction.rs |  7 ++++++-
 xsd-parser/src/parser/sequence.rs    | 11 ++++++++---
 xsd-parser/src/parser/utils.rs       |  5 +++++
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 253ffb1..3e86937 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -6,7 +6,10 @@ use crate::parser::{
     constants::{attribute, tag},
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, choice_to_field, get_base,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -74,6 +77,11 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
+        if let RsEntity::Enum(en) = &mut res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.insert(0, choice_to_field(en.clone()));
+        }
+
         if let RsEntity::Struct(s) = &mut res {
             s.fields.borrow_mut().append(&mut fields);
             s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index c52a0cc..97ad950 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -10,7 +10,7 @@ use crate::parser::{
         TupleStruct,
     },
     utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
+        attribute_groups_to_aliases, attributes_to_fields, choice_to_field, get_base, get_documentation,
         get_parent_name,
     },
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
@@ -87,6 +87,11 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
+        if let RsEntity::Enum(en) = &mut res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.insert(0, choice_to_field(en.clone()));
+        }
+
         if let RsEntity::Struct(s) = &mut res {
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index bdbec4b..8b46d7f 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{choice_to_field, get_documentation, get_parent_name},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -21,6 +21,7 @@ pub fn parse_sequence(sequence: &Node, parent: &Node) -> RsEntity {
 }
 
 fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
+    let mut choices = 0;
     sequence
         .children()
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
@@ -32,8 +33,12 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
                 sf
             }
             RsEntity::Enum(mut en) => {
-                en.name = format!("{}Choice", parent_name);
-                enum_to_field(en)
+                choices += 1;
+                en.name = match choices {
+                    1 => format!("{}Choice", parent_name),
+                    n => format!("{}Choice{}", parent_name, n),
+                };
+                choice_to_field(en)
             }
             _ => unreachable!("\nError: {:?}\n{:?}", n, parse_node(&n, sequence)),
         })
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..85714b5 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -68,6 +68,11 @@ pub fn attribute_groups_to_aliases(node: &Node) -> Vec<Alias> {
         .collect()
 }
 
+// The alternatives of a choice are written directly into the parent element.
+pub fn choice_to_field(en: Enum) -> StructField {
+    StructField { source: StructFieldSource::Choice, ..enum_to_field(en) }
+}
+
 pub fn enum_to_field(en: Enum) -> StructField {
     StructField {
         name: en.name.clone(),
-- 
2.43.0


From 46b5f73b9a1fd2542a71a9f268dadc16d8f28a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:48 +0000
Subject: [PATCH 24/46] fix: the documentation of an aliased element turns the
 commented-out alias into code

---
 xsd-parser/src/generator/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 7908df2..8ef89f9 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -3,7 +3,7 @@ use crate::{generator::Generator, parser::types::Alias};
 pub trait AliasGenerator {
     fn generate(&self, entity: &Alias, gen: &Generator) -> String {
         format!(
-            "//{comment} pub type {name} = {original};\n",
+            "{comment}// pub type {name} = {original};\n",
             comment = self.format_comment(entity.comment.as_deref(), gen),
             name = self.format_name(entity.name.as_str(), gen),
             original = self.format_original_type(entity.original.as_str(), gen)
-- 
2.43.0


From 2735f58f61610e6a51fd045f4568b5f3dd31c7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:19 +0000
Subject: [PATCH 25/46] fix: letters beyond ASCII are dropped from type names,
 down to an empty name

---
 xsd-parser/src/generator/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..01c30cb 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -107,7 +107,7 @@ pub fn sanitize(s: String) -> String {
 
 pub fn filter_type_name(name: &str) -> String {
     fn is_valid_symbol(c: char) -> bool {
-        (c.is_alphanumeric() || c == '_') && c.is_ascii() && !c.is_whitespace()
+        c.is_alphabetic() || c.is_ascii_digit() || c == '_'
     }
 
     name.chars().filter(|c| is_valid_symbol(*c)).collect()
-- 
2.43.0


From 086170844dd767b99d434c7585345b0be7c523e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:20 +0000
Subject: [PATCH 26/46] fix: the keyword try is used as a field name

---
 xsd-parser/src/generator/utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index 01c30cb..e7325bd 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 44ffa4a89199474edff03d6dbacf8f34e4f196d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:57 +0000
Subject: [PATCH 27/46] fix: a qualified type name can end in a keyword or
 start with a digit

---
 xsd-parser/src/generator/default.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..b8d2e96 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -25,7 +25,7 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
     let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
 
@@ -41,7 +41,7 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From ea8bbb0c7cab65826cab8600d64de4fdab590859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 28/46] fix: the anonymous item type of a list has no name, or
 its facets are checked on the list

---
 xsd-parser/src/parser/list.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index a5db2c1..7415831 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -4,7 +4,7 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{RsEntity, TupleStruct, TypeModifier},
-    utils::find_child,
+    utils::{find_child, get_parent_name},
 };
 
 pub fn parse_list(list: &Node) -> RsEntity {
@@ -16,13 +16,18 @@ pub fn parse_list(list: &Node) -> RsEntity {
             );
 
             match parse_node(&nested_simple_type, list) {
-                RsEntity::Enum(en) => TupleStruct {
-                    type_name: en.name.clone(),
-                    subtypes: vec![RsEntity::Enum(en)],
-                    ..Default::default()
-                },
-                RsEntity::TupleStruct(ts) => ts,
-                _ => unreachable!(),
+                RsEntity::TupleStruct(ts) if ts.facets.is_empty() => ts,
+                // Facets of the items do not apply to the list: the items need a type of their own.
+                mut item => {
+                    if item.name().is_empty() {
+                        item.set_name(&format!("{}Item", get_parent_name(list)));
+                    }
+                    TupleStruct {
+                        type_name: item.name().to_string(),
+                        subtypes: vec![item],
+                        ..Default::default()
+                    }
+                }
             }
         }
     };
-- 
2.43.0


From 0811e093035b687a9850bb01d146ae8de38d279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 29/46] fix: enumeration values that differ in case or
 punctuation only give variants of one name

---
 xsd-parser/src/parser/restriction.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 97ad950..a72d6d6 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -1,7 +1,8 @@
-use std::cell::RefCell;
+use std::{cell::RefCell, collections::BTreeSet};
 
 use roxmltree::Node;
 
+use crate::generator::default::default_format_type;
 use crate::parser::{
     constants::tag,
     node_parser::parse_node,
@@ -138,6 +139,16 @@ fn is_simple_enumerations(node: &Node) -> bool {
     node.children()
         .filter(|n| matches!(n.xsd_type(), ElementType::Facet(FacetType::Enumeration(_))))
         .all(|n| is_simple_enumeration(&n))
+        && has_distinct_variants(node)
+}
+
+// Values that differ only in case or punctuation cannot be told apart by the names of variants.
+fn has_distinct_variants(node: &Node) -> bool {
+    let mut names = BTreeSet::new();
+    node.children()
+        .filter(|n| matches!(n.xsd_type(), ElementType::Facet(FacetType::Enumeration(_))))
+        .filter_map(|n| n.attr_value().map(|value| default_format_type(value, &None)))
+        .all(|name| !name.is_empty() && names.insert(name))
 }
 
 fn is_simple_enumeration(node: &Node) -> bool {
-- 
2.43.0


From e6f7aaf58af73a2be07001c153550d744eb837ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:38 +0000
Subject: [PATCH 30/46] fix: generating the same schema twice qualifies the
 names of anonymous types twice

---
 xsd-parser/src/generator/struct.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..05d3d08 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -2,7 +2,7 @@ use std::borrow::Cow;
 
 use crate::{
     generator::{validator::gen_validate_impl, Generator},
-    parser::types::Struct,
+    parser::types::{Struct, StructField},
 };
 
 pub trait StructGenerator {
@@ -21,17 +21,20 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
-            if !f.subtypes.is_empty() {
-                f.type_name = format!("{}::{}", mod_name, f.type_name)
-            }
-        });
-
         let fields = entity
             .fields
             .borrow()
             .iter()
-            .map(|f| gen.struct_field_gen().generate(f, gen))
+            .map(|f| {
+                if f.subtypes.is_empty() {
+                    gen.struct_field_gen().generate(f, gen)
+                } else {
+                    // The type of the field is in the module of this struct.
+                    let type_name = format!("{}::{}", mod_name, f.type_name);
+                    let field = StructField { type_name, ..f.clone() };
+                    gen.struct_field_gen().generate(&field, gen)
+                }
+            })
             .filter(|s| !s.is_empty())
             .collect::<Vec<String>>()
             .join("\n\n");
-- 
2.43.0


From c5aea45b66a12fa1cfeb13dcbe8ae82c0c401481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:22 +0000
Subject: [PATCH 31/46] fix: lists reject items that are no value of the item
 type

They were silently dropped, so that a list with a misspelt item was read
as a shorter list.
---
 xsd-macro-utils/src/tuple.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..9d6ee91 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -28,8 +28,10 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
                 s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
+                    .map(|s| {
+                        <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())
+                    })
+                    .collect::<::std::result::Result<_, ::std::string::String>>()?
             },
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
-- 
2.43.0


From 4623df585fe021fc9ae3df699bd39e2f9836c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:43 +0000
Subject: [PATCH 32/46] fix: read the values 1 and 0 of xs:boolean in newtypes,
 lists and unions

---
 xsd-macro-utils/src/tuple.rs | 33 +++++++++++++++++++++++++--------
 xsd-macro-utils/src/union.rs |  6 +++++-
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 9d6ee91..1e1b7fa 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -23,16 +23,18 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let convert = match extract_field_type(ast) {
         Type::String(_) => quote! { s.to_string() },
         Type::Struct(ty) | Type::Simple(ty) => {
-            quote! { <#ty as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())? }
+            let parse = parse(ty);
+            quote! { #parse? }
         }
         Type::Vec(subtype) => match Type::from_path(subtype) {
-            Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
-                s.split_whitespace()
-                    .map(|s| {
-                        <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())
-                    })
-                    .collect::<::std::result::Result<_, ::std::string::String>>()?
-            },
+            Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => {
+                let parse = parse(subtype);
+                quote! {
+                    s.split_whitespace()
+                        .map(|s| #parse)
+                        .collect::<::std::result::Result<_, ::std::string::String>>()?
+                }
+            }
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
     };
@@ -50,6 +52,21 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     })
 }
 
+// Parses `s`. The lexical space of xs:boolean has "1" and "0", which `bool::from_str` rejects.
+pub(crate) fn parse(ty: &syn::Path) -> TokenStream {
+    if ty.segments.last().map_or(false, |segment| segment.ident == "bool") {
+        quote! {
+            match s {
+                "true" | "1" => ::std::result::Result::Ok(true),
+                "false" | "0" => ::std::result::Result::Ok(false),
+                _ => ::std::result::Result::Err(::std::format!("Invalid boolean: {}", s)),
+            }
+        }
+    } else {
+        quote! { <#ty as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()) }
+    }
+}
+
 fn display(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let write = match extract_field_type(ast) {
         Type::String(_) | Type::Simple(_) | Type::Struct(_) => quote! {
diff --git a/xsd-macro-utils/src/union.rs b/xsd-macro-utils/src/union.rs
index c809193..2b78a80 100644
--- a/xsd-macro-utils/src/union.rs
+++ b/xsd-macro-utils/src/union.rs
@@ -52,8 +52,12 @@ pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let de_variants = variants
         .iter()
         .map(|(ident, subtype)| {
+            let parse = match subtype {
+                syn::Type::Path(ty) if ty.qself.is_none() => crate::tuple::parse(&ty.path),
+                _ => quote! { s.parse::<#subtype>() },
+            };
             quote! {
-                if let Ok(de) = s.parse::<#subtype>() {
+                if let Ok(de) = #parse {
                     return Ok(#struct_name::#ident(de))
                 }
             }
-- 
2.43.0


From 8f8e93b5e4d7d33d208eba03221d024128cdad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 33/46] fix: read all of an element's text when a processing
 instruction splits it

---
 xsd-types/src/utils/yaserde.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/utils/yaserde.rs b/xsd-types/src/utils/yaserde.rs
index 6af7592..4d350d1 100644
--- a/xsd-types/src/utils/yaserde.rs
+++ b/xsd-types/src/utils/yaserde.rs
@@ -39,9 +39,12 @@ pub fn deserialize<S, R: Read>(
         return Err("Start element not found".to_string());
     }
 
-    if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-        de_fn(text)
-    } else {
-        de_fn("")
+    // A processing instruction splits the text in several events.
+    let mut text = String::new();
+    while let Ok(xml::reader::XmlEvent::Characters(part)) = reader.peek() {
+        text.push_str(part);
+        reader.next_event()?;
     }
+
+    de_fn(&text)
 }
-- 
2.43.0


From 8bf94a76428a3114091aa1ba715c711ebf6dcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:23 +0000
Subject: [PATCH 34/46] fix: only the white space of XML separates the items of
 a list

---
 xsd-macro-utils/src/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 1e1b7fa..6170585 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -30,7 +30,8 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => {
                 let parse = parse(subtype);
                 quote! {
-                    s.split_whitespace()
+                    s.split(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                        .filter(|s| !s.is_empty())
                         .map(|s| #parse)
                         .collect::<::std::result::Result<_, ::std::string::String>>()?
                 }
-- 
2.43.0


From b18fa899aab783d293e562975c83098e2b94f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:52 +0000
Subject: [PATCH 35/46] fix: length facets of texts count characters

---
 xsd-parser/src/generator/validator.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 3186aad..2a02aac 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -31,25 +31,39 @@ pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Co
     match facet {
         FacetType::Enumeration(_) => "".into(),
         FacetType::FractionDigits(_) => "".into(),
-        FacetType::Length(value) => gen_length_validation(value.as_str(), name).into(),
+        FacetType::Length(value) => {
+            count_characters(gen_length_validation(value.as_str(), name), typename).into()
+        }
         FacetType::MaxExclusive(value) => {
             gen_max_exclusive_validation(value.as_str(), name, typename).into()
         }
         FacetType::MaxInclusive(value) => {
             gen_max_inclusive_validation(value.as_str(), name, typename).into()
         }
-        FacetType::MaxLength(value) => gen_max_length_validation(value.as_str(), name).into(),
+        FacetType::MaxLength(value) => {
+            count_characters(gen_max_length_validation(value.as_str(), name), typename).into()
+        }
         FacetType::MinExclusive(value) => {
             gen_min_exclusive_validation(value.as_str(), name, typename).into()
         }
         FacetType::MinInclusive(value) => {
             gen_min_inclusive_validation(value.as_str(), name, typename).into()
         }
-        FacetType::MinLength(value) => gen_min_length_validation(value.as_str(), name).into(),
+        FacetType::MinLength(value) => {
+            count_characters(gen_min_length_validation(value.as_str(), name), typename).into()
+        }
         _ => "".into(), // TODO: All Facet Types
     }
 }
 
+// The length of a text is its number of characters, not of bytes.
+fn count_characters(validation: String, typename: &str) -> String {
+    match typename {
+        "String" => validation.replace(".len()", ".chars().count()"),
+        _ => validation,
+    }
+}
+
 fn gen_max_exclusive_validation(value: &str, name: &str, typename: &str) -> String {
     format!(
         r#"
-- 
2.43.0


From 9b93260abffd0fe1e1aa8af1322cf4f7be564f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 36/46] fix: functions of several port types are generated in
 random order

---
 wsdl-parser/src/generator/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..c68d493 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,9 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    let mut port_types: Vec<_> = definitions.port_types().values().collect();
+    port_types.sort_by_key(|port_type| port_type.name());
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
-- 
2.43.0


From c3c4d8dcd69b5aee178cde9dadfb7243eba5153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 37/46] fix: an operation without output is generated with an
 empty result type

---
 wsdl-parser/src/generator/function.rs | 2 +-
 wsdl-parser/src/generator/mod.rs      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..ebf155a 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -55,7 +55,7 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message.and_then(|m| m.parts().first()?.element()).unwrap_or(""),
             documentation: operation.documentation(),
             name: operation.name(),
         }
diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index c68d493..639e286 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -47,7 +47,8 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type =
+            if func.return_type.is_empty() { "()".into() } else { ftype(func.return_type) },
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From 93e5a3f3a1667a42cb770e5afa99afe3d8fd5443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 38/46] fix: a message whose part has a type panics or loses
 its type

---
 wsdl-parser/src/generator/function.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index ebf155a..75bd944 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -27,16 +27,16 @@ pub struct Param<'a> {
 
 impl<'a> Param<'a> {
     pub fn new(part: &'a Part<'_>) -> Self {
-        Param {
-            name: part.name(),
-            typename: part
-                .element()
-                .or_else(|| part.type_())
-                .expect("Element or type must be presented in wsdl:part"),
-        }
+        Param { name: part.name(), typename: part_type(part) }
     }
 }
 
+fn part_type<'a>(part: &'a Part<'_>) -> &'a str {
+    part.element()
+        .or_else(|| part.type_())
+        .expect("Element or type must be presented in wsdl:part")
+}
+
 impl<'a> Function<'a> {
     pub fn new(operation: &'a Operation<'_>, definitions: &'a Definitions<'_>) -> Self {
         let input_message;
@@ -55,7 +55,7 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts().first()?.element()).unwrap_or(""),
+            return_type: output_message.and_then(|m| m.parts().first()).map(part_type).unwrap_or(""),
             documentation: operation.documentation(),
             name: operation.name(),
         }
@@ -71,7 +71,7 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", typename: part_type(&input.parts()[0]) })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
-- 
2.43.0


From cde152244dbcb3930ace749cb1c695358e955e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 39/46] fix: names of operations and messages are not those of
 the generated types, or keywords

---
 wsdl-parser/src/generator/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 639e286..a6a5abe 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -84,7 +84,7 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
     let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
 
@@ -100,7 +100,7 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
 }
 
 pub fn default_format_name(name: &str) -> String {
@@ -116,7 +116,7 @@ fn split_name(name: &str) -> (Option<&str>, &str) {
 
 fn filter_type_name(name: &str) -> String {
     fn is_valid_symbol(c: char) -> bool {
-        (c.is_alphanumeric() || c == '_') && c.is_ascii() && !c.is_whitespace()
+        c.is_alphabetic() || c.is_ascii_digit() || c == '_'
     }
 
     name.chars().filter(|c| is_valid_symbol(*c)).collect()
@@ -181,6 +181,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From a08ab75de11917a62aaddf74a67832a0168c325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:56 +0000
Subject: [PATCH 40/46] fix: documentation is cut at markup and comments, and
 after the first element

---
 xsd-parser/src/parser/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 85714b5..4bb569c 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -21,9 +21,12 @@ pub fn find_child<'a, 'input>(node: &Node<'a, 'input>, tag_name: &str) -> Option
 }
 
 pub fn get_documentation(node: &Node<'_, '_>) -> Option<String> {
-    find_child(node, "annotation")
-        .and_then(|node| find_child(&node, "documentation"))
-        .and_then(|node| node.text().map(|s| s.to_string()))
+    let texts = find_child(node, "annotation")?
+        .children()
+        .filter(|n| n.is_element() && n.tag_name().name() == "documentation")
+        .map(|n| n.descendants().filter(|n| n.is_text()).filter_map(|n| n.text()).collect())
+        .collect::<Vec<String>>();
+    Some(texts.join("\n")).filter(|text| !text.is_empty())
 }
 
 pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
-- 
2.43.0


From ce77e507cecf5b48b607ad72efe98fa36fe64b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:56 +0000
Subject: [PATCH 41/46] fix: documentation of an operation is cut at markup and
 comments

---
 wsdl-parser/src/generator/function.rs |  2 +-
 wsdl-parser/src/generator/mod.rs      |  2 +-
 wsdl-parser/src/parser/port_type.rs   | 13 +++++--------
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 75bd944..585c1b7 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -15,7 +15,7 @@ pub struct Function<'a> {
     pub generic_params: Vec<Param<'a>>,
     pub arguments: Vec<Param<'a>>,
     pub return_type: &'a str,
-    pub documentation: Option<&'a str>,
+    pub documentation: Option<String>,
     pub name: &'a str,
 }
 
diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index a6a5abe..cb33cb1 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -33,7 +33,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
     {body}
 }}
 "#,
-        comment = default_format_comment(func.documentation, 80, 0),
+        comment = default_format_comment(func.documentation.as_deref(), 80, 0),
         name = default_format_name(func.name),
         generics = func
             .generic_params
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index dd17c0f..27844bd 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -96,14 +96,11 @@ impl<'a> Operation<'a> {
         &self.ty
     }
 
-    pub fn documentation(&self) -> Option<&'a str> {
-        self.node.children().find_map(|n| {
-            if n.wsdl_type() == ElementType::Documentation {
-                n.text()
-            } else {
-                None
-            }
-        })
+    pub fn documentation(&self) -> Option<String> {
+        self.node
+            .children()
+            .find(|n| n.is_element() && n.wsdl_type() == ElementType::Documentation)
+            .map(|n| n.descendants().filter(|n| n.is_text()).filter_map(|n| n.text()).collect())
     }
 }
 
-- 
2.43.0


From 896416bc8467c9974d187bed22d1262fe2e47bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:24 +0000
Subject: [PATCH 42/46] fix: durations are ordered by their components, sign
 ignored

---
 xsd-types/src/types/duration.rs | 50 +++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 09c967e..e012ea2 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -1,8 +1,8 @@
-use std::{fmt, fmt::Write, str::FromStr};
+use std::{cmp::Ordering, fmt, fmt::Write, str::FromStr};
 
 use xsd_macro_utils::UtilsDefaultSerde;
 
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Default, Clone, Debug, UtilsDefaultSerde)]
 pub struct Duration {
     pub is_negative: bool,
 
@@ -43,6 +43,52 @@ impl Duration {
     // converts months & years to days.
 }
 
+/// Days before the first day of a month, given as the number of months since January of year 0.
+fn days_before_month(month: i128) -> i128 {
+    // Years are counted from March, so that the leap day is their last one.
+    let (year, month) = ((month - 2).div_euclid(12), (month - 2).rem_euclid(12));
+    year * 365 + year.div_euclid(4) - year.div_euclid(100)
+        + year.div_euclid(400)
+        + (153 * month + 2) / 5
+}
+
+/// The order of https://www.w3.org/TR/xmlschema-2/#duration-order: durations are compared by the
+/// moments they lead to from four starting points, and are incomparable if those differ in order.
+impl PartialOrd for Duration {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        const STARTS: [i128; 4] = [1696 * 12 + 8, 1697 * 12 + 1, 1903 * 12 + 2, 1903 * 12 + 6];
+
+        // Whole seconds and the rest of them after adding the duration to the start of a month.
+        fn add(start: i128, duration: &Duration) -> (i128, f64) {
+            let sign: i8 = if duration.is_negative { -1 } else { 1 };
+            let months = i128::from(duration.years) * 12 + i128::from(duration.months);
+            let minutes = (i128::from(duration.days) * 24 + i128::from(duration.hours)) * 60
+                + i128::from(duration.minutes);
+            let seconds = (minutes * 60).saturating_add(duration.seconds.trunc() as i128);
+            let days = days_before_month(start + i128::from(sign) * months);
+            (
+                (days * 24 * 60 * 60).saturating_add(i128::from(sign) * seconds),
+                f64::from(sign) * duration.seconds.fract(),
+            )
+        }
+
+        let mut orders =
+            STARTS.iter().map(|start| add(*start, self).partial_cmp(&add(*start, other)));
+        let first = orders.next()??;
+        if orders.all(|order| order == Some(first)) {
+            Some(first)
+        } else {
+            None
+        }
+    }
+}
+
+impl PartialEq for Duration {
+    fn eq(&self, other: &Self) -> bool {
+        self.partial_cmp(other) == Some(Ordering::Equal)
+    }
+}
+
 impl FromStr for Duration {
     type Err = String;
 
-- 
2.43.0


From 000a6057eb6bcc89f3eab0b61b9c01449cd0f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 43/46] fix: resolve bases and attribute groups of the types in
 a WSDL document

---
 wsdl-parser-cli/src/main.rs  | 15 ++++++++++++---
 xsd-parser/src/parser/mod.rs | 12 ++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/wsdl-parser-cli/src/main.rs b/wsdl-parser-cli/src/main.rs
index 1843bed..45ab4cc 100644
--- a/wsdl-parser-cli/src/main.rs
+++ b/wsdl-parser-cli/src/main.rs
@@ -8,7 +8,10 @@ use anyhow::Context;
 use clap::Parser;
 use roxmltree::{Document, Node};
 use wsdl_parser::{generator::generate, parser::definitions::Definitions};
-use xsd_parser::{generator::builder::GeneratorBuilder, parser::schema::parse_schema};
+use xsd_parser::{
+    generator::builder::GeneratorBuilder,
+    parser::{resolve_references, schema::parse_schema},
+};
 
 #[derive(Parser)]
 #[clap(name = env!("CARGO_PKG_NAME"))]
@@ -64,8 +67,14 @@ fn process_single_file(input_path: &Path, output_path: Option<&Path>) -> anyhow:
     let gen = GeneratorBuilder::default().build();
     let schemas =
         definitions.types().iter().flat_map(|t| t.schemas()).collect::<Vec<Node<'_, '_>>>();
-    let mut code =
-        schemas.iter().map(|f| gen.generate_rs_file(&parse_schema(f))).collect::<Vec<String>>();
+    let mut code = schemas
+        .iter()
+        .map(|f| {
+            let schema_rs = parse_schema(f);
+            resolve_references(&schema_rs);
+            gen.generate_rs_file(&schema_rs)
+        })
+        .collect::<Vec<String>>();
 
     code.push(generate(&definitions));
     let code = code.join("");
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 304455b..7bd3763 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -36,12 +36,18 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).expect("Parse document error");
     let root = doc.root();
 
-    let mut map = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
     let schema_rs = parse_schema(&schema);
+    resolve_references(&schema_rs);
+
+    Ok(schema_rs)
+}
+
+/// Adds to the types of a schema what they take from their bases and attribute groups.
+pub fn resolve_references(schema_rs: &RsFile) {
+    let mut map = HashMap::new();
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
             map.extend(st.get_types_map());
@@ -63,6 +69,4 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
             st.extend_base(&map);
         }
     }
-
-    Ok(schema_rs)
 }
-- 
2.43.0


From f34aef0cac33ffc086097044ba8c44fc34805dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:15 +0000
Subject: [PATCH 44/46] fix: an element is recursive only if it is of the type
 it belongs to

---
 xsd-parser/src/parser/all.rs      |  4 ++--
 xsd-parser/src/parser/sequence.rs |  4 ++--
 xsd-parser/src/parser/utils.rs    | 21 +++++++++++++++++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 4f4375f..320eef1 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{enum_to_field, get_documentation, get_parent_name},
+    utils::{enum_to_field, get_documentation, get_parent_name, is_recursive},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -26,7 +26,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.split(':').last() == Some(parent_name) {
+                if is_recursive(&n) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 8b46d7f..8483df2 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -5,7 +5,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, TypeModifier},
-    utils::{choice_to_field, get_documentation, get_parent_name},
+    utils::{choice_to_field, get_documentation, get_parent_name, is_recursive},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -27,7 +27,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
             RsEntity::StructField(mut sf) => {
-                if sf.type_name.split(':').last() == Some(parent_name) {
+                if is_recursive(&n) {
                     sf.type_modifiers.push(TypeModifier::Recursive)
                 }
                 sf
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4bb569c..66fcd5d 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -45,6 +45,27 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
     }
 }
 
+// Whether the element is declared to be of the global type or element that it belongs to.
+pub fn is_recursive(element: &Node) -> bool {
+    let (prefix, name) = match element.attr_type().or_else(|| element.attr_ref()) {
+        Some(qname) => match qname.split_once(':') {
+            Some((prefix, name)) => (Some(prefix), name),
+            None => (None, qname),
+        },
+        None => return false,
+    };
+    let owner = element.ancestors().skip(1).find(|n| n.has_attribute(attribute::NAME));
+    let schema =
+        match owner.filter(|n| n.attr_name() == Some(name)).and_then(|n| n.parent_element()) {
+            Some(parent) if parent.xsd_type() == ElementType::Schema => parent,
+            _ => return false,
+        };
+    match element.lookup_namespace_uri(prefix) {
+        Some(uri) => schema.attribute(attribute::TARGET_NAMESPACE) == Some(uri),
+        None => true,
+    }
+}
+
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
     node.attribute(attribute::BASE).expect("The base value is required")
 }
-- 
2.43.0


From eadbcdfffb105cbd03108df3b906a4b467a88d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:35 +0000
Subject: [PATCH 45/46] fix: the default of an enumeration whose base is no
 text compiles

---
 xsd-parser/src/generator/enum.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 449d1b7..0de9071 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -8,13 +8,20 @@ use crate::{
 pub trait EnumGenerator {
     fn generate(&self, entity: &Enum, gen: &Generator) -> String {
         let name = self.get_name(entity, gen);
+        let typename = self.get_type_name(entity, gen);
+        let default_value = if typename == "String" {
+            "\"No valid variants\".into()"
+        } else {
+            "Default::default()"
+        };
         let default_case = format!(
             "impl Default for {name} {{\n\
             {indent}fn default() -> {name} {{\n\
-            {indent}{indent}Self::__Unknown__(\"No valid variants\".into())\n\
+            {indent}{indent}Self::__Unknown__({default_value})\n\
             {indent}}}\n\
             }}",
             name = name,
+            default_value = default_value,
             indent = gen.base().indent()
         );
 
@@ -32,7 +39,7 @@ pub trait EnumGenerator {
             macros = self.macros(entity, gen),
             name = name,
             cases = self.cases(entity, gen),
-            typename = self.get_type_name(entity, gen),
+            typename = typename,
             default = default_case,
             subtypes = self.subtypes(entity, gen),
             validation = self.validation(entity, gen),
-- 
2.43.0


From 6baa275da556d47f103c19f8bac754b3e21bd0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:57 +0000
Subject: [PATCH 46/46] fix: the type parameter of a WSDL function does not
 hide a type T of the schema

---
 wsdl-parser/src/generator/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index cb33cb1..5e3d599 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -25,6 +25,14 @@ const REQUEST_FUNC_BODY: &str = "transport::request(transport, request).await";
 
 fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> String {
     let ftype = |t| default_format_type(t, target_ns);
+
+    // The type parameter must not hide a type of the request or the response.
+    let mut transport = String::from("T");
+    let types = func.arguments.iter().skip(1).map(|p| p.typename).chain([func.return_type]);
+    while types.clone().any(|t| ftype(t) == transport) {
+        transport.push('0');
+    }
+
     format!(
         r#"
 {comment}pub async fn {name}<{generics}>(
@@ -38,13 +46,17 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
         generics = func
             .generic_params
             .iter()
-            .map(|p| format!("{}: {}", p.name, ftype(p.typename)))
+            .map(|p| format!("{}: {}", transport, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(", "),
         arguments = func
             .arguments
             .iter()
-            .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
+            .enumerate()
+            .map(|(i, p)| match i {
+                0 => format!("{}: &{}", p.name, transport),
+                _ => format!("{}: &{}", p.name, ftype(p.typename)),
+            })
             .collect::<Vec<String>>()
             .join(",\n    "),
         return_type =
-- 
2.43.0

