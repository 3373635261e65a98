From 32a463391ddbe869cd44cefa69b6572f2f22c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 01/48] fix: reject non-ASCII recurring dates and malformed
 timezones instead of panicking

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 xsd-types/src/types/utils.rs     | 3 ++-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..e7e050a 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if !s.is_ascii() || s.len() != 5 || &s[0..3] != "---" {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..eb714e8 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if !s.is_ascii() || s.len() != 4 || &s[0..2] != "--" {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..2dfe516 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if !s.is_ascii() || s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..f0a1165 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,8 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let offset = s.get(1..).ok_or("bad timezone format")?;
+    let tokens: Vec<&str> = offset.split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From 2b931deb4464722654fd0e6dcc9d424f7f0d4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:00 +0000
Subject: [PATCH 02/48] fix: integer types accepted '_' separators and
 nonNegativeInteger refused -0

---
 xsd-types/src/types/integer.rs              |  4 +++-
 xsd-types/src/types/negative_integer.rs     |  4 +++-
 xsd-types/src/types/non_negative_integer.rs | 11 ++++++-----
 xsd-types/src/types/non_positive_integer.rs |  4 +++-
 xsd-types/src/types/positive_integer.rs     |  5 ++++-
 xsd-types/src/types/utils.rs                | 11 +++++++++++
 6 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/xsd-types/src/types/integer.rs b/xsd-types/src/types/integer.rs
index 610189c..ad89f8d 100644
--- a/xsd-types/src/types/integer.rs
+++ b/xsd-types/src/types/integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ParseBigIntError, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#integer
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct Integer(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for Integer {
     type Err = ParseBigIntError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Integer(BigInt::from_str(s)?))
+        Ok(Integer(parse_bigint(s)?))
     }
 }
 
diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..a04da5e 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
         if value >= 0.to_bigint().unwrap() {
             Err("Bad value for NegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..a7896c9 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonNegativeInteger(pub BigUint);
@@ -23,11 +25,10 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
-        if value < 0.to_biguint().unwrap() {
-            Err("Bad value for NonNegativeInteger".to_string())
-        } else {
-            Ok(NonNegativeInteger(value))
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
+        match value.to_biguint() {
+            Some(value) => Ok(NonNegativeInteger(value)),
+            None => Err("Bad value for NonNegativeInteger".to_string()),
         }
     }
 }
diff --git a/xsd-types/src/types/non_positive_integer.rs b/xsd-types/src/types/non_positive_integer.rs
index b0565a6..9546af9 100644
--- a/xsd-types/src/types/non_positive_integer.rs
+++ b/xsd-types/src/types/non_positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#nonPositiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonPositiveInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NonPositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
         if value > 0.to_bigint().unwrap() {
             Err("Bad value for NonPositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..ab9d2f7 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_bigint;
+
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
@@ -23,7 +25,8 @@ impl FromStr for PositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = parse_bigint(s).map_err(|e| e.to_string())?;
+        let value = value.to_biguint().ok_or("Bad value for PositiveInteger")?;
         if value <= 0.to_biguint().unwrap() {
             Err("Bad value for PositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index f0a1165..e1723bc 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -1,4 +1,15 @@
+use std::str::FromStr;
+
 use chrono::FixedOffset;
+use num_bigint::{BigInt, ParseBigIntError};
+
+// Parses an integer literal. Unlike `BigInt::from_str`, does not accept '_' as a digit separator.
+pub fn parse_bigint(s: &str) -> Result<BigInt, ParseBigIntError> {
+    if s.contains('_') {
+        return BigInt::from_str("_");
+    }
+    BigInt::from_str(s)
+}
 
 // Parses ISO 8601 timezone.
 pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
-- 
2.43.0


From 8f89795bebadf69ef027125dc165e446121e2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 03/48] fix: default of positiveInteger and negativeInteger was
 zero, outside their range

---
 xsd-types/src/types/negative_integer.rs | 8 +++++++-
 xsd-types/src/types/positive_integer.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index a04da5e..00ddab0 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::parse_bigint;
 
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
 
 impl NegativeInteger {
@@ -21,6 +21,12 @@ impl ToBigInt for NegativeInteger {
     }
 }
 
+impl Default for NegativeInteger {
+    fn default() -> NegativeInteger {
+        Self((-1).to_bigint().unwrap())
+    }
+}
+
 impl FromStr for NegativeInteger {
     type Err = String;
 
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ab9d2f7..8f669aa 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -6,7 +6,7 @@ use xsd_macro_utils::UtilsDefaultSerde;
 use crate::types::utils::parse_bigint;
 
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
-#[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
+#[derive(Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
 
 impl PositiveInteger {
@@ -21,6 +21,12 @@ impl ToBigUint for PositiveInteger {
     }
 }
 
+impl Default for PositiveInteger {
+    fn default() -> PositiveInteger {
+        Self(1.to_biguint().unwrap())
+    }
+}
+
 impl FromStr for PositiveInteger {
     type Err = String;
 
-- 
2.43.0


From 5915af7d285b78c2fe9eeffde369725cd619cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 04/48] fix: decimal accepted exponents, digit separators and
 signs after the point

---
 xsd-types/src/types/decimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..4b68101 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,6 +20,11 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // Unlike `BigDecimal`, XSD allows neither exponents nor digit separators.
+        let digits = s.strip_prefix(['+', '-']).unwrap_or(s);
+        if !digits.chars().all(|c| c.is_ascii_digit() || c == '.') {
+            return Err(ParseBigDecimalError::Other("bad decimal format".to_string()));
+        }
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
-- 
2.43.0


From 9250201ba288660fa74a2768ecc4785bffbddb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 05/48] fix: decimals were printed in exponential notation,
 which reads as invalid

---
 xsd-types/src/types/decimal.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index 4b68101..1d1720a 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,7 @@
 use std::{fmt, str::FromStr};
 
 use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use num_bigint::BigInt;
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -31,7 +32,18 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // `BigDecimal` switches to exponential notation, which XSD does not allow.
+        let (digits, scale) = self.0.as_bigint_and_exponent();
+        let sign = if digits < BigInt::from(0) { "-" } else { "" };
+        let mut digits = digits.magnitude().to_string();
+        if scale > 0 {
+            let scale = scale as usize;
+            digits = format!("{:0>1$}", digits, scale + 1);
+            digits.insert(digits.len() - scale, '.');
+        } else if digits != "0" {
+            digits.push_str(&"0".repeat(scale.unsigned_abs() as usize));
+        }
+        write!(f, "{}{}", sign, digits)
     }
 }
 
-- 
2.43.0


From bea44042ff911b4700f4fbdd2374b65405ef43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 06/48] fix: smallest gYear and gYearMonth could not be printed
 or read back

---
 xsd-types/src/types/gyear.rs      | 24 +++++++++++-------------
 xsd-types/src/types/gyearmonth.rs | 24 +++++++++++-------------
 2 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..dee9bed 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -31,27 +31,25 @@ impl FromStr for GYear {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(s) = s.strip_prefix('-') {
-            let mut gyear = parse_str_positive(s)?;
-            gyear.value *= -1;
-            return Ok(gyear);
+            return parse_str(s, "-");
         }
-        parse_str_positive(s)
+        parse_str(s, "")
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYear, String> {
-    fn parse_value(s: &str) -> Result<i32, String> {
+fn parse_str(s: &str, sign: &str) -> Result<GYear, String> {
+    fn parse_value(s: &str, sign: &str) -> Result<i32, String> {
         if s.len() < 4 {
             return Err("bad gYear format: to short".to_string());
         }
         if !s.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad gYear format".to_string());
         }
-        s.parse::<i32>().map_err(|e| e.to_string())
+        format!("{}{}", sign, s).parse::<i32>().map_err(|e| e.to_string())
     }
 
     if let Some(s) = s.strip_suffix('Z') {
-        return GYear::new(parse_value(s)?, Some(FixedOffset::east_opt(0).unwrap()));
+        return GYear::new(parse_value(s, sign)?, Some(FixedOffset::east_opt(0).unwrap()));
     }
 
     if s.contains('+') {
@@ -62,7 +60,7 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         let idx: usize = s.match_indices('+').collect::<Vec<_>>()[0].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        return GYear::new(parse_value(value_token)?, Some(parse_timezone(tz_token)?));
+        return GYear::new(parse_value(value_token, sign)?, Some(parse_timezone(tz_token)?));
     }
 
     if s.contains('-') {
@@ -73,10 +71,10 @@ fn parse_str_positive(s: &str) -> Result<GYear, String> {
         let idx: usize = s.match_indices('-').collect::<Vec<_>>()[0].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        return GYear::new(parse_value(value_token)?, Some(parse_timezone(tz_token)?));
+        return GYear::new(parse_value(value_token, sign)?, Some(parse_timezone(tz_token)?));
     }
 
-    GYear::new(parse_value(s)?, None)
+    GYear::new(parse_value(s, sign)?, None)
 }
 
 impl fmt::Display for GYear {
@@ -88,8 +86,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..5f74c09 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -45,16 +45,14 @@ impl FromStr for GYearMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(s) = s.strip_prefix('-') {
-            let mut gyearmonth = parse_str_positive(s)?;
-            gyearmonth.year *= -1;
-            return Ok(gyearmonth);
+            return parse_str(s, "-");
         }
-        parse_str_positive(s)
+        parse_str(s, "")
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
-    fn parse_value(s: &str) -> Result<(i32, i32), String> {
+fn parse_str(s: &str, sign: &str) -> Result<GYearMonth, String> {
+    fn parse_value(s: &str, sign: &str) -> Result<(i32, i32), String> {
         if s.matches('-').count() != 1 {
             return Err("bad gYearMonth format".to_string());
         }
@@ -69,7 +67,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         if !year_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad year format within gYearMonth".to_string());
         }
-        let year = year_token.parse::<i32>().map_err(|e| e.to_string())?;
+        let year = format!("{}{}", sign, year_token).parse::<i32>().map_err(|e| e.to_string())?;
 
         if !month_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad month format within gYearMonth".to_string());
@@ -80,7 +78,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
     }
 
     if let Some(s) = s.strip_suffix('Z') {
-        let (year, month) = parse_value(s)?;
+        let (year, month) = parse_value(s, sign)?;
         return GYearMonth::new(year, month, Some(FixedOffset::east_opt(0).unwrap()));
     }
 
@@ -92,7 +90,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let idx: usize = s.match_indices('+').collect::<Vec<_>>()[0].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        let (year, month) = parse_value(value_token)?;
+        let (year, month) = parse_value(value_token, sign)?;
         return GYearMonth::new(year, month, Some(parse_timezone(tz_token)?));
     }
 
@@ -100,11 +98,11 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let idx: usize = s.match_indices('-').collect::<Vec<_>>()[1].0;
         let value_token = &s[..idx];
         let tz_token = &s[idx..];
-        let (year, month) = parse_value(value_token)?;
+        let (year, month) = parse_value(value_token, sign)?;
         return GYearMonth::new(year, month, Some(parse_timezone(tz_token)?));
     }
 
-    let (year, month) = parse_value(s)?;
+    let (year, month) = parse_value(s, sign)?;
     GYearMonth::new(year, month, None)
 }
 
@@ -117,8 +115,8 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz),
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From c25d42bc6e0a25b925ec439fc18e2f4cf46e6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:14 +0000
Subject: [PATCH 07/48] fix: date misread negative years, accepted malformed
 dates and printed long years with a plus sign

---
 xsd-types/src/types/date.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 820f930..10bfc78 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use chrono::{format::strftime::StrftimeItems, FixedOffset, NaiveDate};
+use chrono::{format::strftime::StrftimeItems, Datelike, FixedOffset, NaiveDate};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 use crate::types::utils::parse_timezone;
@@ -32,7 +32,28 @@ impl FromStr for Date {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
-            NaiveDate::parse_from_str(s, "%Y-%m-%d").map_err(|e| e.to_string())
+            fn parse_digits(token: &str, min_len: usize, max_len: usize) -> Result<u32, String> {
+                if !(min_len..=max_len).contains(&token.len())
+                    || !token.chars().all(|c| c.is_ascii_digit())
+                {
+                    return Err("bad date format".to_string());
+                }
+                token.parse::<u32>().map_err(|e| e.to_string())
+            }
+
+            let (sign, positive) = match s.strip_prefix('-') {
+                Some(s) => (-1, s),
+                None => (1, s),
+            };
+            let tokens: Vec<&str> = positive.split('-').collect();
+            if tokens.len() != 3 {
+                return Err("bad date format".to_string());
+            }
+            // Years have at least 4 digits, the value type holds no more than 6.
+            let year = sign * parse_digits(tokens[0], 4, 6)? as i32;
+            let month = parse_digits(tokens[1], 2, 2)?;
+            let day = parse_digits(tokens[2], 2, 2)?;
+            NaiveDate::from_ymd_opt(year, month, day).ok_or("date is out of range".to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -56,8 +77,10 @@ impl FromStr for Date {
             });
         }
 
-        if s.matches('-').count() == 3 {
-            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[2].0;
+        // A negative year starts with one more '-'.
+        let date_dashes = if s.starts_with('-') { 3 } else { 2 };
+        if s.matches('-').count() == date_dashes + 1 {
+            let idx: usize = s.match_indices('-').collect::<Vec<_>>()[date_dashes].0;
             let date_token = &s[..idx];
             let tz_token = &s[idx..];
             return Ok(Date {
@@ -72,7 +95,11 @@ impl FromStr for Date {
 
 impl fmt::Display for Date {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%Y-%m-%d");
+        // Unlike chrono, XSD puts no '+' in front of years with more than 4 digits.
+        let sign = if self.value.year() < 0 { "-" } else { "" };
+        write!(f, "{}{:04}", sign, self.value.year().unsigned_abs())?;
+
+        let fmt = StrftimeItems::new("-%m-%d");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From 6b3c8e06170cef74e6a70fa4dc26cffe8da09e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 08/48] fix: time refused and dropped fractions of a second and
 accepted malformed times

---
 xsd-types/src/types/time.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..4f7b75d 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,7 +32,18 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
+            // chrono also accepts shorter tokens and blanks between them.
+            let (time, fraction) = s.split_once('.').unwrap_or((s, "0"));
+            let mut digits = time.split(':').collect::<Vec<_>>();
+            if digits.len() != 3 || !digits.iter().all(|t| t.len() == 2) || fraction.is_empty() {
+                return Err("bad time format".to_string());
+            }
+            digits.push(fraction);
+            if !digits.iter().all(|t| t.chars().all(|c| c.is_ascii_digit())) {
+                return Err("bad time format".to_string());
+            }
+
+            NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -76,7 +87,7 @@ impl FromStr for Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From 27c6df46613319263f1542f54885e445c144679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:12 +0000
Subject: [PATCH 09/48] fix: date-times accepted other separators than T,
 lowercase z and offsets beyond 14:00

---
 xsd-types/src/types/datetime.rs      | 13 ++++++++++++-
 xsd-types/src/types/datetimestamp.rs |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/xsd-types/src/types/datetime.rs b/xsd-types/src/types/datetime.rs
index 5bbddbb..c3b3825 100644
--- a/xsd-types/src/types/datetime.rs
+++ b/xsd-types/src/types/datetime.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::parse_timezone;
+
 #[derive(PartialEq, PartialOrd, Debug, Clone, UtilsDefaultSerde)]
 pub struct DateTime {
     pub value: CDateTime<FixedOffset>,
@@ -35,13 +37,22 @@ impl FromStr for DateTime {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let tz_provided = s.ends_with('Z') || s.contains('+') || s.matches('-').count() == 3;
         let s_with_timezone = if tz_provided { s.to_string() } else { format!("{}Z", s) };
-        match CDateTime::parse_from_rfc3339(&s_with_timezone) {
+        match parse_xsd_datetime(&s_with_timezone) {
             Ok(cdt) => Ok(DateTime { value: cdt }),
             Err(err) => Err(err),
         }
     }
 }
 
+// RFC 3339 allows more than XSD: other separators than 'T', lowercase 'z' and offsets over 14:00.
+pub(crate) fn parse_xsd_datetime(s: &str) -> Result<CDateTime<FixedOffset>, ParseError> {
+    let tz_idx = s.rfind(['Z', '+', '-']).unwrap_or(0);
+    if s.get(10..11) != Some("T") || parse_timezone(&s[tz_idx..]).is_err() {
+        return CDateTime::parse_from_rfc3339("");
+    }
+    CDateTime::parse_from_rfc3339(s)
+}
+
 impl fmt::Display for DateTime {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", self.value.to_rfc3339())
diff --git a/xsd-types/src/types/datetimestamp.rs b/xsd-types/src/types/datetimestamp.rs
index a4bc81f..b0f8199 100644
--- a/xsd-types/src/types/datetimestamp.rs
+++ b/xsd-types/src/types/datetimestamp.rs
@@ -3,7 +3,7 @@ use std::{fmt, str::FromStr};
 use chrono::{format::ParseError, DateTime as CDateTime, FixedOffset};
 use xsd_macro_utils::UtilsDefaultSerde;
 
-use crate::types::datetime::DateTime;
+use crate::types::datetime::{parse_xsd_datetime, DateTime};
 
 // The only difference from DateTime is that the time zone expression is required at the end of the value.
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -25,7 +25,7 @@ impl FromStr for DateTimeStamp {
     type Err = ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match CDateTime::parse_from_rfc3339(s) {
+        match parse_xsd_datetime(s) {
             Ok(cdt) => Ok(DateTimeStamp::from_chrono_datetime(cdt)),
             Err(err) => Err(err),
         }
-- 
2.43.0


From 5cc7e38a0abba23a2f51a3c449501a523aa3aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:25 +0000
Subject: [PATCH 10/48] fix: duration accepted stray zeros and misread numbers
 too big for its fields

---
 xsd-types/src/types/duration.rs | 58 +++++++++++----------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..68a2b9e 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -48,14 +48,14 @@ impl FromStr for Duration {
             name: &str,
             symbol: char,
         ) -> Result<(), String> {
-            if context.is_number_empty {
+            if context.number.is_empty() {
                 return Err(format!(
                     "No value is specified for {}, so '{}' must not be present",
                     name, symbol
                 ));
             }
 
-            if context.is_dot_found {
+            if context.number.contains('.') {
                 return Err("Only the seconds can be expressed as a decimal".into());
             }
 
@@ -63,10 +63,9 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components".into());
             }
 
-            *component = context.number;
+            *component = context.number.parse::<u64>().map_err(|e| e.to_string())?;
             context.last_filled_component = idx;
-            context.number = 0;
-            context.is_number_empty = true;
+            context.number.clear();
 
             Ok(())
         }
@@ -75,11 +74,11 @@ impl FromStr for Duration {
             context: &mut ParsingContext,
             seconds: &mut f64,
         ) -> Result<(), &'static str> {
-            if context.is_number_empty {
+            if context.number.is_empty() {
                 return Err("No value is specified for seconds, so 'S' must not be present");
             }
 
-            if context.is_dot_found && context.denom == 1 {
+            if context.number.ends_with('.') {
                 return Err("At least one digit must follow the decimal point if it appears");
             }
 
@@ -87,10 +86,12 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components");
             }
 
-            *seconds = context.number as f64 + context.numer as f64 / context.denom as f64;
+            *seconds = context.number.parse::<f64>().map_err(|_| "Bad value for seconds")?;
+            if seconds.is_infinite() {
+                return Err("Value is too big for seconds");
+            }
             context.last_filled_component = 6;
-            context.number = 0;
-            context.is_number_empty = true;
+            context.number.clear();
 
             Ok(())
         }
@@ -123,7 +124,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.number.is_empty() {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -160,37 +161,27 @@ impl FromStr for Duration {
 
                 // Number:
                 '.' => {
-                    if context.is_dot_found {
+                    if context.number.contains('.') {
                         return Err("Dot occurred twice".into());
                     }
 
-                    if context.is_number_empty {
+                    if context.number.is_empty() {
                         return Err("No digits before dot".into());
                     }
 
-                    context.is_dot_found = true;
+                    context.number.push('.');
                 }
                 digit => {
                     if !digit.is_ascii_digit() {
                         return Err("Incorrect character occurred".into());
                     }
 
-                    if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
-                    } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.is_number_empty = false;
-                    }
+                    context.number.push(digit);
                 }
             }
         }
 
-        if context.number > 0 {
+        if !context.number.is_empty() {
             return Err("Number at the end of the string".into());
         }
 
@@ -257,13 +248,7 @@ struct ParsingContext {
     is_t_found: bool,           // Is 'T' delimiter occurred.
     last_filled_component: i32, // 1 to 6 for Year to Minute.
 
-    number: u64,
-    is_number_empty: bool,
-
-    is_dot_found: bool,
-    // Numerator and denominator of seconds fraction part.
-    numer: u64,
-    denom: u64,
+    number: String, // Digits (and dot) of the component being read.
 }
 
 impl ParsingContext {
@@ -273,12 +258,7 @@ impl ParsingContext {
             is_t_found: false,
             last_filled_component: 0,
 
-            number: 0,
-            is_number_empty: true,
-
-            is_dot_found: false,
-            numer: 0,
-            denom: 1,
+            number: String::new(),
         }
     }
 }
-- 
2.43.0


From 725fd1a07c1de1d6e6c1aff5fea293575fe61d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 11/48] fix: conversion of durations to std lost the sign,
 nanoseconds and overflowed silently

---
 xsd-types/src/types/duration.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index 68a2b9e..3097362 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -20,12 +20,23 @@ impl Duration {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
         } else {
-            let secs = self.seconds as u64;
-
-            let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
-
-            Ok(std::time::Duration::new(secs, nanos))
+            let too_big = || "Duration is too big to be converted".to_string();
+            let secs =
+                std::time::Duration::try_from_secs_f64(self.seconds).map_err(|_| too_big())?;
+
+            let rest_secs = (self.days.checked_mul(24))
+                .and_then(|hours| hours.checked_add(self.hours))
+                .and_then(|hours| hours.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes))
+                .and_then(|minutes| minutes.checked_mul(60))
+                .ok_or_else(too_big)?;
+
+            let duration =
+                secs.checked_add(std::time::Duration::from_secs(rest_secs)).ok_or_else(too_big)?;
+            if self.is_negative && !duration.is_zero() {
+                return Err("Negative duration cannot be converted".into());
+            }
+            Ok(duration)
         }
     }
 
-- 
2.43.0


From 177dc6bc00b9b558b77c7aff2786d7a30e6187aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 12/48] fix: element with minOccurs=0 and maxOccurs=1 was not
 optional

---
 xsd-parser/src/parser/element.rs | 34 ++++++++++----------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..943506e 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -142,30 +142,16 @@ fn parse_global_element(node: &Node) -> RsEntity {
 pub fn element_modifier(node: &Node) -> TypeModifier {
     let min = min_occurs(node);
     let max = max_occurs(node);
-    match min {
-        0 => match max {
-            MaxOccurs::None => TypeModifier::Option,
-            MaxOccurs::Unbounded => TypeModifier::Array,
-            MaxOccurs::Bounded(val) => {
-                if val > 1 {
-                    TypeModifier::Array
-                } else {
-                    TypeModifier::None
-                }
-            }
-        },
-        1 => match max {
-            MaxOccurs::None => TypeModifier::None,
-            MaxOccurs::Unbounded => TypeModifier::Array,
-            MaxOccurs::Bounded(val) => {
-                if val > 1 {
-                    TypeModifier::Array
-                } else {
-                    TypeModifier::None
-                }
-            }
-        },
-        _ => TypeModifier::Array,
+    let repeated = match max {
+        MaxOccurs::None => min > 1,
+        MaxOccurs::Bounded(val) => val > 1 || min > 1,
+        MaxOccurs::Unbounded => true,
+    };
+
+    match (repeated, min) {
+        (true, _) => TypeModifier::Array,
+        (false, 0) => TypeModifier::Option,
+        (false, _) => TypeModifier::None,
     }
 }
 
-- 
2.43.0


From ea72b2ace24c9ba51772ac08c65f7ceb0ceae003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 13/48] fix: an element was taken for recursive when its type
 name merely ended in the name of the enclosing declaration

---
 xsd-parser/src/parser/all.rs      |  9 ++----
 xsd-parser/src/parser/element.rs  | 54 +++++++++++++++++++++++++++++--
 xsd-parser/src/parser/sequence.rs |  9 ++----
 3 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 04d3e9b..7f4d29f 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -4,7 +4,7 @@ use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::{RsEntity, Struct, StructField, TypeModifier},
+    types::{RsEntity, Struct, StructField},
     utils::{enum_to_field, get_documentation, get_parent_name},
     xsd_elements::{ElementType, XsdNode},
 };
@@ -25,12 +25,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
         .children()
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, choice) {
-            RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
-                    sf.type_modifiers.push(TypeModifier::Recursive)
-                }
-                sf
-            }
+            RsEntity::StructField(sf) => sf,
             RsEntity::Enum(mut en) => {
                 en.name = format!("{}Choice", parent_name);
                 enum_to_field(en)
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 943506e..4ceecb1 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -42,7 +42,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
             value: String::default(),
             type_name: Some(ref_attr.to_string()),
             comment: get_documentation(element),
-            type_modifiers: vec![element_modifier(element)],
+            type_modifiers: reference_modifiers(element),
             source: EnumSource::Choice,
         });
     }
@@ -55,7 +55,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
             value: String::default(),
             type_name: Some(element.attr_type().unwrap().to_string()),
             comment: get_documentation(element),
-            type_modifiers: vec![element_modifier(element)],
+            type_modifiers: reference_modifiers(element),
             source: EnumSource::Choice,
         });
     }
@@ -85,7 +85,7 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
             type_name,
             comment: get_documentation(node),
             source: StructFieldSource::Element,
-            type_modifiers: vec![element_modifier(node)],
+            type_modifiers: reference_modifiers(node),
             ..Default::default()
         });
     }
@@ -139,6 +139,54 @@ fn parse_global_element(node: &Node) -> RsEntity {
     })
 }
 
+// Modifiers for an element with 'type' or 'ref' attribute
+fn reference_modifiers(node: &Node) -> Vec<TypeModifier> {
+    let mut modifiers = vec![element_modifier(node)];
+    if is_recursive(node) {
+        modifiers.push(TypeModifier::Recursive);
+    }
+    modifiers
+}
+
+// Checks if the element is of the very type (or a reference to the very element) it is declared in
+fn is_recursive(node: &Node) -> bool {
+    let owner = node.ancestors().find(|n| n.xsd_type() == ElementType::ComplexType).map(|n| {
+        if n.attr_name().is_some() {
+            Some(n)
+        } else {
+            n.parent_element()
+        }
+    });
+
+    match owner.flatten() {
+        Some(owner)
+            if owner.parent_element().map(|p| p.xsd_type()) == Some(ElementType::Schema) =>
+        {
+            let reference = match owner.xsd_type() {
+                ElementType::ComplexType => node.attr_type(),
+                _ => node.attr_ref(),
+            };
+            reference.map(|r| refers_to(node, r, &owner)).unwrap_or(false)
+        }
+        _ => false,
+    }
+}
+
+// Checks if the qualified name denotes the given component of the schema
+fn refers_to(node: &Node, qname: &str, component: &Node) -> bool {
+    let (prefix, name) = match qname.find(':') {
+        Some(index) => (Some(&qname[..index]), &qname[index + 1..]),
+        None => (None, qname),
+    };
+    let target_namespace =
+        component.parent_element().and_then(|n| n.attribute(attribute::TARGET_NAMESPACE));
+    let same_namespace = match node.lookup_namespace_uri(prefix) {
+        Some(uri) => Some(uri) == target_namespace,
+        None => prefix.is_none(),
+    };
+    same_namespace && component.attr_name() == Some(name)
+}
+
 pub fn element_modifier(node: &Node) -> TypeModifier {
     let min = min_occurs(node);
     let max = max_occurs(node);
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 48b8a19..5731b50 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -4,7 +4,7 @@ use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::{RsEntity, Struct, StructField, TypeModifier},
+    types::{RsEntity, Struct, StructField},
     utils::{enum_to_field, get_documentation, get_parent_name},
     xsd_elements::{ElementType, XsdNode},
 };
@@ -25,12 +25,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
         .children()
         .filter(|n| n.is_element() && n.xsd_type() != ElementType::Annotation)
         .map(|n| match parse_node(&n, sequence) {
-            RsEntity::StructField(mut sf) => {
-                if sf.type_name.ends_with(parent_name) {
-                    sf.type_modifiers.push(TypeModifier::Recursive)
-                }
-                sf
-            }
+            RsEntity::StructField(sf) => sf,
             RsEntity::Enum(mut en) => {
                 en.name = format!("{}Choice", parent_name);
                 enum_to_field(en)
-- 
2.43.0


From 011ee37469a6ffd4fb8bdd395ae8f08060e94371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 14/48] fix: a choice inside a sequence or all-group was not
 flattened

---
 xsd-parser/src/parser/all.rs      | 4 ++--
 xsd-parser/src/parser/sequence.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/parser/all.rs b/xsd-parser/src/parser/all.rs
index 7f4d29f..1cf3abc 100644
--- a/xsd-parser/src/parser/all.rs
+++ b/xsd-parser/src/parser/all.rs
@@ -4,7 +4,7 @@ use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::{RsEntity, Struct, StructField},
+    types::{RsEntity, Struct, StructField, StructFieldSource},
     utils::{enum_to_field, get_documentation, get_parent_name},
     xsd_elements::{ElementType, XsdNode},
 };
@@ -28,7 +28,7 @@ fn elements_to_fields(choice: &Node, parent_name: &str) -> Vec<StructField> {
             RsEntity::StructField(sf) => sf,
             RsEntity::Enum(mut en) => {
                 en.name = format!("{}Choice", parent_name);
-                enum_to_field(en)
+                StructField { source: StructFieldSource::Choice, ..enum_to_field(en) }
             }
             _ => unreachable!("\nError: {:?}\n{:?}", n, parse_node(&n, choice)),
         })
diff --git a/xsd-parser/src/parser/sequence.rs b/xsd-parser/src/parser/sequence.rs
index 5731b50..88a63f0 100644
--- a/xsd-parser/src/parser/sequence.rs
+++ b/xsd-parser/src/parser/sequence.rs
@@ -4,7 +4,7 @@ use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::{RsEntity, Struct, StructField},
+    types::{RsEntity, Struct, StructField, StructFieldSource},
     utils::{enum_to_field, get_documentation, get_parent_name},
     xsd_elements::{ElementType, XsdNode},
 };
@@ -28,7 +28,7 @@ fn elements_to_fields(sequence: &Node, parent_name: &str) -> Vec<StructField> {
             RsEntity::StructField(sf) => sf,
             RsEntity::Enum(mut en) => {
                 en.name = format!("{}Choice", parent_name);
-                enum_to_field(en)
+                StructField { source: StructFieldSource::Choice, ..enum_to_field(en) }
             }
             _ => unreachable!("\nError: {:?}\n{:?}", n, parse_node(&n, sequence)),
         })
-- 
2.43.0


From 55658f20302597a2ae7415ddcf4148b95dd2fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 15/48] fix: names qualified with another prefix of the target
 namespace or of XML Schema were taken for foreign

---
 xsd-parser/src/parser/attribute.rs       | 13 +++---
 xsd-parser/src/parser/attribute_group.rs |  3 +-
 xsd-parser/src/parser/element.rs         | 44 ++++++++-----------
 xsd-parser/src/parser/extension.rs       |  8 ++--
 xsd-parser/src/parser/list.rs            |  6 ++-
 xsd-parser/src/parser/restriction.rs     |  6 +--
 xsd-parser/src/parser/schema.rs          | 12 +-----
 xsd-parser/src/parser/union.rs           | 12 ++++--
 xsd-parser/src/parser/utils.rs           | 55 ++++++++++++++++++++++--
 xsd-parser/src/parser/xsd_elements.rs    | 14 +++---
 10 files changed, 107 insertions(+), 66 deletions(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 9d7ef18..64b18f2 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -14,11 +14,12 @@ pub fn parse_attribute(node: &Node, parent: &Node) -> RsEntity {
 
     let name = node
         .attr_name()
+        .map(|name| name.to_string())
         .or_else(|| node.attr_ref())
-        .expect("All attributes have name or ref")
-        .to_string();
+        .expect("All attributes have name or ref");
 
-    let type_name = node.attr_type().or_else(|| node.attr_ref()).unwrap_or("String").to_string();
+    let type_name =
+        node.attr_type().or_else(|| node.attr_ref()).unwrap_or_else(|| "String".to_string());
 
     let type_modifier = match node.attr_use() {
         UseType::Optional => TypeModifier::Option,
@@ -39,8 +40,8 @@ pub fn parse_attribute(node: &Node, parent: &Node) -> RsEntity {
 fn parse_global_attribute(node: &Node) -> RsEntity {
     if let Some(reference) = node.attr_ref() {
         return RsEntity::Alias(Alias {
-            name: reference.to_string(),
-            original: reference.to_string(),
+            name: reference.clone(),
+            original: reference,
             comment: get_documentation(node),
             ..Default::default()
         });
@@ -51,7 +52,7 @@ fn parse_global_attribute(node: &Node) -> RsEntity {
     if let Some(ty) = node.attr_type() {
         return RsEntity::Alias(Alias {
             name: name.to_string(),
-            original: ty.to_string(),
+            original: ty,
             comment: get_documentation(node),
             ..Default::default()
         });
diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..a7f72bb 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -12,8 +12,7 @@ pub fn parse_attribute_group(node: &Node, parent: &Node) -> RsEntity {
         return parse_global_attribute_group(node);
     }
 
-    let reference =
-        node.attr_ref().expect("Non-global attributeGroups must be references.").to_string();
+    let reference = node.attr_ref().expect("Non-global attributeGroups must be references.");
 
     RsEntity::Alias(Alias {
         name: reference.to_string(),
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 4ceecb1..27703f4 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -6,7 +6,7 @@ use crate::parser::{
     types::{
         Alias, EnumCase, EnumSource, RsEntity, Struct, StructField, StructFieldSource, TypeModifier,
     },
-    utils::get_documentation,
+    utils::{canonical_name, get_documentation},
     xsd_elements::{max_occurs, min_occurs, ElementType, MaxOccurs, XsdNode},
 };
 
@@ -24,10 +24,10 @@ pub fn parse_element(node: &Node, parent: &Node) -> RsEntity {
 }
 
 fn element_default(node: &Node) -> RsEntity {
-    let ty = node.attr_type().unwrap_or("UNSUPPORTED");
+    let ty = node.attr_type().unwrap_or_else(|| "UNSUPPORTED".into());
     RsEntity::Alias(Alias {
         name: "UNSUPPORTED".into(),
-        original: ty.into(),
+        original: ty,
         comment: get_documentation(node),
         subtypes: vec![],
     })
@@ -38,9 +38,9 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
         let ref_attr = element.attr_ref().unwrap();
 
         return RsEntity::EnumCase(EnumCase {
-            name: ref_attr.to_string(),
+            name: ref_attr.clone(),
             value: String::default(),
-            type_name: Some(ref_attr.to_string()),
+            type_name: Some(ref_attr),
             comment: get_documentation(element),
             type_modifiers: reference_modifiers(element),
             source: EnumSource::Choice,
@@ -53,7 +53,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
         return RsEntity::EnumCase(EnumCase {
             name: name.to_string(),
             value: String::default(),
-            type_name: Some(element.attr_type().unwrap().to_string()),
+            type_name: element.attr_type(),
             comment: get_documentation(element),
             type_modifiers: reference_modifiers(element),
             source: EnumSource::Choice,
@@ -73,12 +73,13 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
 fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
     let name = node
         .attr_name()
-        .unwrap_or_else(|| node.attr_ref().unwrap_or("UNSUPPORTED_ELEMENT_NAME"))
-        .to_string();
+        .map(|name| name.to_string())
+        .or_else(|| node.attr_ref())
+        .unwrap_or_else(|| "UNSUPPORTED_ELEMENT_NAME".to_string());
 
     if node.has_attribute(attribute::TYPE) || node.has_attribute(attribute::REF) {
         let type_name =
-            node.attr_type().unwrap_or_else(|| node.attr_ref().unwrap_or("String")).to_string();
+            node.attr_type().or_else(|| node.attr_ref()).unwrap_or_else(|| "String".to_string());
 
         return RsEntity::StructField(StructField {
             name,
@@ -116,7 +117,7 @@ fn parse_global_element(node: &Node) -> RsEntity {
     if node.has_attribute(attribute::TYPE) {
         return RsEntity::Alias(Alias {
             name: name.into(),
-            original: node.attr_type().unwrap().into(),
+            original: node.attr_type().unwrap(),
             comment: get_documentation(node),
             subtypes: vec![],
         });
@@ -166,27 +167,18 @@ fn is_recursive(node: &Node) -> bool {
                 ElementType::ComplexType => node.attr_type(),
                 _ => node.attr_ref(),
             };
-            reference.map(|r| refers_to(node, r, &owner)).unwrap_or(false)
+            match (reference, owner.attr_name()) {
+                (Some(reference), Some(name)) => {
+                    reference == canonical_name(&owner, name)
+                        || reference == name && node.lookup_namespace_uri(None).is_none()
+                }
+                _ => false,
+            }
         }
         _ => false,
     }
 }
 
-// Checks if the qualified name denotes the given component of the schema
-fn refers_to(node: &Node, qname: &str, component: &Node) -> bool {
-    let (prefix, name) = match qname.find(':') {
-        Some(index) => (Some(&qname[..index]), &qname[index + 1..]),
-        None => (None, qname),
-    };
-    let target_namespace =
-        component.parent_element().and_then(|n| n.attribute(attribute::TARGET_NAMESPACE));
-    let same_namespace = match node.lookup_namespace_uri(prefix) {
-        Some(uri) => Some(uri) == target_namespace,
-        None => prefix.is_none(),
-    };
-    same_namespace && component.attr_name() == Some(name)
-}
-
 pub fn element_modifier(node: &Node) -> TypeModifier {
     let min = min_occurs(node);
     let max = max_occurs(node);
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..76d2d6e 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -3,7 +3,7 @@ use std::cell::RefCell;
 use roxmltree::Node;
 
 use crate::parser::{
-    constants::{attribute, tag},
+    constants::tag,
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
     utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
@@ -34,7 +34,7 @@ fn simple_content_extension(node: &Node) -> RsEntity {
 
     fields.push(StructField {
         name: tag::BASE.to_string(),
-        type_name: base.to_string(),
+        type_name: base,
         comment: get_documentation(node),
         source: StructFieldSource::Base,
         ..Default::default()
@@ -50,13 +50,13 @@ fn simple_content_extension(node: &Node) -> RsEntity {
 }
 
 fn complex_content_extension(node: &Node) -> RsEntity {
-    let base = node.attribute(attribute::BASE).expect("The base value is required");
+    let base = get_base(node);
 
     let mut fields = attributes_to_fields(node);
 
     fields.push(StructField {
         name: tag::BASE.to_string(),
-        type_name: base.to_string(),
+        type_name: base,
         comment: get_documentation(node),
         source: StructFieldSource::Base,
         ..Default::default()
diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index a5db2c1..777e88e 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -4,12 +4,14 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{RsEntity, TupleStruct, TypeModifier},
-    utils::find_child,
+    utils::{canonical_qname, find_child},
 };
 
 pub fn parse_list(list: &Node) -> RsEntity {
     let mut result = match list.attribute(attribute::ITEM_TYPE) {
-        Some(item_type) => TupleStruct { type_name: item_type.to_string(), ..Default::default() },
+        Some(item_type) => {
+            TupleStruct { type_name: canonical_qname(list, item_type), ..Default::default() }
+        }
         None => {
             let nested_simple_type = find_child(list, "simpleType").expect(
                 "itemType not allowed if the content contains a simpleType element. Otherwise, required."
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..44139c7 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -46,14 +46,14 @@ fn simple_type_restriction(node: &Node) -> RsEntity {
             return RsEntity::Enum(Enum {
                 name: format!("{}Enum", get_parent_name(node)),
                 cases,
-                type_name: base.to_string(),
+                type_name: base,
                 source: EnumSource::Restriction,
                 ..Default::default()
             });
         }
     };
 
-    RsEntity::TupleStruct(TupleStruct { type_name: base.to_string(), facets, ..Default::default() })
+    RsEntity::TupleStruct(TupleStruct { type_name: base, facets, ..Default::default() })
 }
 
 fn simple_content_restriction(node: &Node) -> RsEntity {
@@ -68,7 +68,7 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     fields.push(StructField {
         name: tag::BASE.to_string(),
-        type_name: base.to_string(),
+        type_name: base,
         comment: get_documentation(node),
         source: StructFieldSource::Base,
         ..Default::default()
diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index 36be5ef..59ac42f 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -3,24 +3,16 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::RsFile,
-    utils::target_namespace,
+    utils::{target_namespace, xsd_namespace},
     xsd_elements::{ElementType, XsdNode},
 };
 
 pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
-    let mut xsd_namespaces = schema
-        .namespaces()
-        .filter(|namespace| namespace.uri() == "http://www.w3.org/2001/XMLSchema");
-
     RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
-        xsd_ns: xsd_namespaces
-            .clone()
-            .find(|namespace| namespace.name().is_some())
-            .or_else(|| xsd_namespaces.next())
-            .cloned(),
+        xsd_ns: xsd_namespace(schema).cloned(),
         types: schema
             .children()
             .filter(|n| {
diff --git a/xsd-parser/src/parser/union.rs b/xsd-parser/src/parser/union.rs
index 4c47ff6..d17d8f9 100644
--- a/xsd-parser/src/parser/union.rs
+++ b/xsd-parser/src/parser/union.rs
@@ -6,13 +6,19 @@ use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
     types::{Enum, EnumCase, EnumSource, RsEntity, Struct},
-    utils::{attributes_to_fields, enum_to_field, get_documentation, get_parent_name},
+    utils::{
+        attributes_to_fields, canonical_qname, enum_to_field, get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, XsdNode},
 };
 
 pub fn parse_union(union: &Node) -> RsEntity {
-    let mut cases =
-        union.attribute(attribute::MEMBER_TYPES).map(create_enum_cases).unwrap_or_default();
+    let member_types = union
+        .attribute(attribute::MEMBER_TYPES)
+        .map(|types| types.split_whitespace().map(|mt| canonical_qname(union, mt)))
+        .map(|types| types.collect::<Vec<String>>().join(" "));
+
+    let mut cases = member_types.as_deref().map(create_enum_cases).unwrap_or_default();
 
     let subtypes = union
         .children()
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..1d164ac 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -11,11 +11,59 @@ use crate::parser::{
 
 pub fn target_namespace<'a, 'input>(node: &Node<'a, 'input>) -> Option<&'a Namespace<'input>> {
     match node.attribute(attribute::TARGET_NAMESPACE) {
-        Some(tn) => node.namespaces().find(|a| a.uri() == tn),
+        Some(tn) => preferred_namespace(node, tn),
         None => None,
     }
 }
 
+pub fn xsd_namespace<'a, 'input>(node: &Node<'a, 'input>) -> Option<&'a Namespace<'input>> {
+    preferred_namespace(node, "http://www.w3.org/2001/XMLSchema")
+}
+
+// A namespace can be bound to several prefixes, a named one is preferred
+fn preferred_namespace<'a, 'input>(
+    node: &Node<'a, 'input>,
+    uri: &str,
+) -> Option<&'a Namespace<'input>> {
+    let mut namespaces = node.namespaces().filter(|namespace| namespace.uri() == uri);
+
+    namespaces.clone().find(|namespace| namespace.name().is_some()).or_else(|| namespaces.next())
+}
+
+// Spells names from the target namespace and from the XML Schema namespace with the same prefix
+// everywhere, no matter which of the prefixes bound to the namespace is used in the document
+pub fn canonical_qname(node: &Node<'_, '_>, qname: &str) -> String {
+    let (prefix, name) = match qname.find(':') {
+        Some(index) => (Some(&qname[..index]), &qname[index + 1..]),
+        None => (None, qname),
+    };
+
+    let schema = node.ancestors().find(|n| n.xsd_type() == ElementType::Schema);
+    let namespace = match (schema, node.lookup_namespace_uri(prefix)) {
+        (Some(schema), Some(uri)) => xsd_namespace(&schema)
+            .into_iter()
+            .chain(target_namespace(&schema))
+            .find(|namespace| namespace.uri() == uri),
+        _ => None,
+    };
+
+    match namespace.map(|namespace| namespace.name()) {
+        Some(Some(prefix)) => format!("{}:{}", prefix, name),
+        Some(None) => name.to_string(),
+        None => qname.to_string(),
+    }
+}
+
+// Spells the name of a global component the way canonical_qname spells references to it
+pub fn canonical_name(component: &Node<'_, '_>, name: &str) -> String {
+    let schema = component.ancestors().find(|n| n.xsd_type() == ElementType::Schema);
+
+    match schema.as_ref().and_then(target_namespace).and_then(|namespace| namespace.name()) {
+        Some(prefix) => format!("{}:{}", prefix, name),
+        None => name.to_string(),
+    }
+}
+
 pub fn find_child<'a, 'input>(node: &Node<'a, 'input>, tag_name: &str) -> Option<Node<'a, 'input>> {
     node.children().find(|e| e.is_element() && e.tag_name().name() == tag_name)
 }
@@ -42,8 +90,9 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
     }
 }
 
-pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
-    node.attribute(attribute::BASE).expect("The base value is required")
+pub fn get_base(node: &Node<'_, '_>) -> String {
+    let base = node.attribute(attribute::BASE).expect("The base value is required");
+    canonical_qname(node, base)
 }
 
 pub fn attributes_to_fields(node: &Node) -> Vec<StructField> {
diff --git a/xsd-parser/src/parser/xsd_elements.rs b/xsd-parser/src/parser/xsd_elements.rs
index bbeda21..d693589 100644
--- a/xsd-parser/src/parser/xsd_elements.rs
+++ b/xsd-parser/src/parser/xsd_elements.rs
@@ -1,4 +1,4 @@
-use crate::parser::constants::attribute;
+use crate::parser::{constants::attribute, utils::canonical_qname};
 
 #[derive(Debug, PartialEq)]
 pub enum ElementType {
@@ -76,8 +76,8 @@ pub enum RestrictionType {
 pub trait XsdNode {
     fn xsd_type(&self) -> ElementType;
     fn attr_name(&self) -> Option<&str>;
-    fn attr_type(&self) -> Option<&str>;
-    fn attr_ref(&self) -> Option<&str>;
+    fn attr_type(&self) -> Option<String>;
+    fn attr_ref(&self) -> Option<String>;
     fn attr_use(&self) -> UseType;
     fn attr_value(&self) -> Option<&str>;
 }
@@ -167,12 +167,12 @@ impl<'a> XsdNode for roxmltree::Node<'a, '_> {
         self.attribute(attribute::NAME)
     }
 
-    fn attr_type(&self) -> Option<&str> {
-        self.attribute(attribute::TYPE)
+    fn attr_type(&self) -> Option<String> {
+        self.attribute(attribute::TYPE).map(|name| canonical_qname(self, name))
     }
 
-    fn attr_ref(&self) -> Option<&str> {
-        self.attribute(attribute::REF)
+    fn attr_ref(&self) -> Option<String> {
+        self.attribute(attribute::REF).map(|name| canonical_qname(self, name))
     }
 
     fn attr_use(&self) -> UseType {
-- 
2.43.0


From fb75c4f3698ce47f06f834eda712073d9755ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 16/48] fix: the choice enum of an anonymous type took the name
 of the type itself

---
 xsd-parser/src/parser/element.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 27703f4..2f73022 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -99,11 +99,12 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
 
     let mut field_type = parse_node(&content_node, node);
 
-    field_type.set_name(format!("{}Type", name).as_str());
+    let type_name = format!("{}Type", name);
+    set_type_name(&mut field_type, &type_name);
 
     RsEntity::StructField(StructField {
         name,
-        type_name: field_type.name().to_string(),
+        type_name,
         comment: get_documentation(node),
         subtypes: vec![field_type],
         source: StructFieldSource::Element,
@@ -128,7 +129,7 @@ fn parse_global_element(node: &Node) -> RsEntity {
 
     if let Some(content) = content_node {
         let mut content_entity = parse_node(&content, node);
-        content_entity.set_name(name);
+        set_type_name(&mut content_entity, name);
         return content_entity;
     }
 
@@ -140,6 +141,17 @@ fn parse_global_element(node: &Node) -> RsEntity {
     })
 }
 
+// Names an anonymous type. A complex type with choice content is parsed to the enum of
+// alternatives with the type itself among the subtypes of the enum, and only the latter is named
+fn set_type_name(entity: &mut RsEntity, name: &str) {
+    match entity {
+        RsEntity::Enum(en) if en.source == EnumSource::Choice => {
+            en.subtypes.iter_mut().for_each(|subtype| subtype.set_name(name))
+        }
+        _ => entity.set_name(name),
+    }
+}
+
 // Modifiers for an element with 'type' or 'ref' attribute
 fn reference_modifiers(node: &Node) -> Vec<TypeModifier> {
     let mut modifiers = vec![element_modifier(node)];
-- 
2.43.0


From fb8d227599ca3353c85c19b3331181a9f2b98ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:40 +0000
Subject: [PATCH 17/48] fix: attribute groups were dropped next to other
 content, in nested types and in other groups

---
 xsd-parser/src/parser/attribute_group.rs |  3 +-
 xsd-parser/src/parser/complex_type.rs    |  1 +
 xsd-parser/src/parser/extension.rs       | 17 +++-----
 xsd-parser/src/parser/mod.rs             | 23 ++++++++---
 xsd-parser/src/parser/restriction.rs     | 20 ++++------
 xsd-parser/src/parser/types.rs           | 49 ++++++++++++++++++------
 6 files changed, 71 insertions(+), 42 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index a7f72bb..1652f56 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -30,6 +30,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 76d2d6e..af947d1 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -10,12 +10,10 @@ use crate::parser::{
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 6] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::Attribute,
-    ElementType::AttributeGroup,
-    ElementType::Choice,
-    ElementType::Group, // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,    // Not presented in ONVIF
+    ElementType::Choice, // Not presented in ONVIF
+    ElementType::Group,  // Not presented in ONVIF
     ElementType::Sequence,
 ];
 
@@ -64,16 +62,13 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.fields.borrow_mut().append(&mut fields);
             s.comment = get_documentation(node);
             return res;
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..90b6074 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -27,7 +27,7 @@ use std::collections::HashMap;
 
 use crate::parser::{
     schema::parse_schema,
-    types::{RsEntity, RsFile},
+    types::{RsEntity, RsFile, Struct},
 };
 
 // FIXME: Actually pass up errors
@@ -47,17 +47,28 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
             map.extend(st.get_types_map());
         }
     }
-    for ag in &schema_rs.attribute_groups {
-        if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
-        }
+    let attribute_groups = named_structs(&schema_rs, &schema_rs.attribute_groups);
+    for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
+        st.extend_attribute_group(&attribute_groups);
     }
     for ty in &schema_rs.types {
         if let RsEntity::Struct(st) = ty {
             st.extend_base(&map);
-            st.extend_attribute_group(&map);
         }
     }
 
     Ok(schema_rs)
 }
+
+// Structs by the names they are referred to with from the same schema
+fn named_structs<'a>(schema: &RsFile, entities: &'a [RsEntity]) -> HashMap<String, &'a Struct> {
+    let prefix = schema.target_ns.as_ref().and_then(|namespace| namespace.name());
+    let mut map = HashMap::new();
+    for st in entities.iter().flat_map(RsEntity::structs) {
+        map.insert(st.name.clone(), st);
+        if let Some(prefix) = prefix {
+            map.insert(format!("{}:{}", prefix, st.name), st);
+        }
+    }
+    map
+}
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 44139c7..9d7d091 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -16,14 +16,11 @@ use crate::parser::{
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::AnyAttribute,
-    ElementType::Attribute,
-    ElementType::AttributeGroup, // Not presented in ONVIF
-    ElementType::Choice,         // Not presented in ONVIF
-    ElementType::Group,          // Not presented in ONVIF
-    ElementType::Sequence,       // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,    // Not presented in ONVIF
+    ElementType::Choice, // Not presented in ONVIF
+    ElementType::Group,  // Not presented in ONVIF
+    ElementType::Sequence,
 ];
 
 pub fn parse_restriction(node: &Node, _: &Node) -> RsEntity {
@@ -76,16 +73,13 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
         let mut res = parse_node(&cont, node);
         if let RsEntity::Struct(s) = &mut res {
+            s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             s.comment = get_documentation(node);
             s.fields.borrow_mut().append(&mut fields);
             return res;
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..bc6b730 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -64,18 +64,36 @@ impl Struct {
         }
     }
 
-    pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
-        let mut fields = self
-            .attribute_groups
-            .borrow()
-            .iter()
-            .flat_map(|f| {
-                let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .collect::<Vec<StructField>>();
-
+    /// Adds the attributes of the referenced groups, in this type and in the types nested in it
+    pub fn extend_attribute_group(&self, groups: &HashMap<String, &Self>) {
+        let mut seen = vec![];
+        let mut fields = self.attribute_group_fields(groups, &mut seen);
         self.fields.borrow_mut().append(&mut fields);
+
+        for field in self.fields.borrow().iter() {
+            field.subtypes.iter().flat_map(RsEntity::structs).for_each(|st| {
+                st.extend_attribute_group(groups);
+            });
+        }
+    }
+
+    // A group can be reached in several ways, its attributes are taken once
+    fn attribute_group_fields(
+        &self,
+        groups: &HashMap<String, &Self>,
+        seen: &mut Vec<String>,
+    ) -> Vec<StructField> {
+        let mut fields = vec![];
+        for reference in self.attribute_groups.borrow().iter() {
+            let group = match groups.get(&reference.original) {
+                Some(group) if !seen.contains(&reference.original) => group,
+                _ => continue,
+            };
+            seen.push(reference.original.clone());
+            fields.extend(group.fields.borrow().iter().cloned());
+            fields.extend(group.attribute_group_fields(groups, seen));
+        }
+        fields
     }
 }
 
@@ -192,6 +210,15 @@ pub enum RsEntity {
 }
 
 impl RsEntity {
+    /// The complex types the entity consists of: a type with choice content is a subtype of the enum
+    pub fn structs(&self) -> Vec<&Struct> {
+        match self {
+            RsEntity::Struct(st) => vec![st],
+            RsEntity::Enum(en) => en.subtypes.iter().flat_map(|s| s.structs()).collect(),
+            _ => vec![],
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From e06c84c42ed3da9aa6d5084138703eae5126553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 18/48] fix: members of some base types were not inherited

---
 xsd-parser/src/parser/any.rs           |  2 +-
 xsd-parser/src/parser/any_attribute.rs |  2 +-
 xsd-parser/src/parser/mod.rs           | 15 ++----
 xsd-parser/src/parser/types.rs         | 71 ++++++++++++--------------
 4 files changed, 39 insertions(+), 51 deletions(-)

diff --git a/xsd-parser/src/parser/any.rs b/xsd-parser/src/parser/any.rs
index b73cbcb..aeace44 100644
--- a/xsd-parser/src/parser/any.rs
+++ b/xsd-parser/src/parser/any.rs
@@ -10,7 +10,7 @@ pub fn parse_any(node: &Node) -> RsEntity {
         name: "any".to_string(),
         type_name: "String".to_string(),
         comment: get_documentation(node),
-        source: StructFieldSource::Element,
+        source: StructFieldSource::NA,
         type_modifiers: vec![TypeModifier::Empty],
         ..Default::default()
     })
diff --git a/xsd-parser/src/parser/any_attribute.rs b/xsd-parser/src/parser/any_attribute.rs
index b3a89f5..ddc9eb7 100644
--- a/xsd-parser/src/parser/any_attribute.rs
+++ b/xsd-parser/src/parser/any_attribute.rs
@@ -10,7 +10,7 @@ pub fn parse_any_attribute(node: &Node) -> RsEntity {
         name: "any_attribute".to_string(),
         type_name: "String".to_string(),
         comment: get_documentation(node),
-        source: StructFieldSource::Attribute,
+        source: StructFieldSource::NA,
         type_modifiers: vec![TypeModifier::Empty],
         ..Default::default()
     })
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 90b6074..000bf63 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -36,25 +36,18 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).expect("Parse document error");
     let root = doc.root();
 
-    let mut map = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
     let schema_rs = parse_schema(&schema);
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            map.extend(st.get_types_map());
-        }
-    }
     let attribute_groups = named_structs(&schema_rs, &schema_rs.attribute_groups);
     for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
         st.extend_attribute_group(&attribute_groups);
     }
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
-        }
+
+    let types = named_structs(&schema_rs, &schema_rs.types);
+    for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
+        st.extend_base(&types);
     }
 
     Ok(schema_rs)
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index bc6b730..5019426 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -2,7 +2,7 @@ use std::{cell::RefCell, collections::HashMap};
 
 use roxmltree::Namespace;
 
-use crate::parser::{constants::tag, xsd_elements::FacetType};
+use crate::parser::xsd_elements::FacetType;
 
 #[derive(Debug, Clone, Default)]
 pub struct RsFile<'input> {
@@ -24,44 +24,42 @@ pub struct Struct {
 }
 
 impl Struct {
-    pub fn get_types_map(&self) -> HashMap<&String, &Self> {
-        let mut map = HashMap::new();
-        map.insert(&self.name, self);
-        for ty in &self.subtypes {
-            if let RsEntity::Struct(st) = ty {
-                map.extend(st.get_types_map());
-            }
-        }
-        map
+    /// Replaces the links to base types with the members of those types
+    pub fn extend_base(&self, types: &HashMap<String, &Self>) {
+        self.extend_base_within(types, &[]);
     }
 
-    pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
-        self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
+    // 'outer' are the types which are being extended at the moment
+    fn extend_base_within(&self, types: &HashMap<String, &Self>, outer: &[&Self]) {
+        if outer.iter().any(|st| std::ptr::eq(*st, self)) {
+            return;
+        }
+        let outer = [outer, &[self]].concat();
 
-        let mut fields = self
-            .fields
-            .borrow()
-            .iter()
-            .filter(|f| f.name.as_str() == tag::BASE)
-            .flat_map(|f| {
-                let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .filter(|f| {
-                //TODO: remove this workaround for fields names clash
-                !self.fields.borrow().iter().any(|field| field.name == f.name)
-            })
-            .collect::<Vec<StructField>>();
+        for base in self.take_bases().iter().filter_map(|name| types.get(name)) {
+            base.extend_base_within(types, &outer);
 
-        self.fields.borrow_mut().append(&mut fields);
+            let mut inherited = base.fields.borrow().clone();
+            //TODO: remove this workaround for fields names clash
+            inherited.retain(|f| !self.fields.borrow().iter().any(|own| own.overrides(f)));
+            self.fields.borrow_mut().append(&mut inherited);
+        }
 
-        self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+        for field in self.fields.borrow().iter() {
+            field.subtypes.iter().flat_map(RsEntity::structs).for_each(|st| {
+                st.extend_base_within(types, &outer);
+            });
+        }
+    }
 
-        for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_base(types);
-            }
+    fn take_bases(&self) -> Vec<String> {
+        let is_base = |f: &StructField| matches!(f.source, StructFieldSource::Base);
+        if !self.fields.borrow().iter().any(is_base) {
+            return vec![];
         }
+        let (bases, own) = self.fields.take().into_iter().partition(is_base);
+        self.fields.replace(own);
+        bases.into_iter().map(|f| f.type_name).collect()
     }
 
     /// Adds the attributes of the referenced groups, in this type and in the types nested in it
@@ -108,12 +106,9 @@ pub struct StructField {
 }
 
 impl StructField {
-    pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
-                st.extend_base(types);
-            }
-        }
+    // Wildcards have no name of their own
+    fn overrides(&self, inherited: &Self) -> bool {
+        !matches!(self.source, StructFieldSource::NA) && self.name == inherited.name
     }
 }
 
-- 
2.43.0


From fdd9f57bfe09fe180454dccbcb1cc8332931d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 19/48] fix: choice content of an extension or restriction was
 dropped

---
 xsd-parser/src/parser/extension.rs   | 9 ++++++++-
 xsd-parser/src/parser/restriction.rs | 8 ++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index af947d1..cfe62cd 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -6,7 +6,10 @@ use crate::parser::{
     constants::tag,
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
@@ -73,6 +76,10 @@ fn complex_content_extension(node: &Node) -> RsEntity {
             s.comment = get_documentation(node);
             return res;
         }
+        if let RsEntity::Enum(mut en) = res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.push(StructField { source: StructFieldSource::Choice, ..enum_to_field(en) });
+        }
     }
 
     RsEntity::Struct(Struct {
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 9d7d091..d0bf67b 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -10,8 +10,8 @@ use crate::parser::{
         TupleStruct,
     },
     utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
-        get_parent_name,
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
     },
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
@@ -84,6 +84,10 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
             s.fields.borrow_mut().append(&mut fields);
             return res;
         }
+        if let RsEntity::Enum(mut en) = res {
+            en.name = format!("{}Choice", get_parent_name(node));
+            fields.push(StructField { source: StructFieldSource::Choice, ..enum_to_field(en) });
+        }
     }
 
     RsEntity::Struct(Struct {
-- 
2.43.0


From c980b3d2e6d3b5cfcdbcb638ebe1a5543f5d9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 20/48] fix: generation changed the parsed schema, a second run
 nested the types twice

---
 xsd-parser/src/generator/struct.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..40ee944 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -2,7 +2,7 @@ use std::borrow::Cow;
 
 use crate::{
     generator::{validator::gen_validate_impl, Generator},
-    parser::types::Struct,
+    parser::types::{Struct, StructField},
 };
 
 pub trait StructGenerator {
@@ -21,17 +21,17 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
-            if !f.subtypes.is_empty() {
-                f.type_name = format!("{}::{}", mod_name, f.type_name)
-            }
-        });
-
         let fields = entity
             .fields
             .borrow()
             .iter()
-            .map(|f| gen.struct_field_gen().generate(f, gen))
+            .map(|f| {
+                if f.subtypes.is_empty() {
+                    return gen.struct_field_gen().generate(f, gen);
+                }
+                let type_name = format!("{}::{}", mod_name, f.type_name);
+                gen.struct_field_gen().generate(&StructField { type_name, ..f.clone() }, gen)
+            })
             .filter(|s| !s.is_empty())
             .collect::<Vec<String>>()
             .join("\n\n");
-- 
2.43.0


From c7c126592a5c04623743b4128c397d277aff199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 21/48] fix: modules named as the prefix of the target
 namespace were dropped from type names

---
 xsd-parser/src/generator/default.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..ccf53c9 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -23,6 +23,8 @@ pub fn default_format_name(name: &str) -> String {
 
 pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Cow<'static, str> {
     let (prefix, name) = split_name(type_name);
+    // A type nested in a module, not a qualified name
+    let is_nested = name.starts_with(':');
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
     let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
@@ -31,7 +33,7 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-            if ns == tns {
+            if ns == tns && !is_nested {
                 pascalized_name
             } else {
                 qname(ns)
-- 
2.43.0


From 72aa04e322d34bcdad7e84b22d73d545fc01e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 22/48] fix: declared names were taken for built-in types when
 XML Schema is the default namespace

---
 xsd-parser/src/generator/alias.rs        |  2 +-
 xsd-parser/src/generator/enum.rs         |  2 +-
 xsd-parser/src/generator/mod.rs          | 16 ++++++++++++++++
 xsd-parser/src/generator/struct.rs       |  2 +-
 xsd-parser/src/generator/tuple_struct.rs |  2 +-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 7908df2..9d584c9 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -15,7 +15,7 @@ pub trait AliasGenerator {
     }
 
     fn format_name(&self, name: &str, gen: &Generator) -> String {
-        gen.base().format_type_name(name, gen).into()
+        gen.format_declared_name(name)
     }
 
     fn format_original_type(&self, name: &str, gen: &Generator) -> String {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 449d1b7..da16e64 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -57,7 +57,7 @@ pub trait EnumGenerator {
     }
 
     fn get_name(&self, entity: &Enum, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.format_declared_name(entity.name.as_str())
     }
 
     fn macros(&self, entity: &Enum, gen: &Generator) -> Cow<'static, str> {
diff --git a/xsd-parser/src/generator/mod.rs b/xsd-parser/src/generator/mod.rs
index c9863c1..9e6a19d 100644
--- a/xsd-parser/src/generator/mod.rs
+++ b/xsd-parser/src/generator/mod.rs
@@ -63,6 +63,22 @@ impl<'input> Generator<'input> {
         self.base.as_ref().unwrap().borrow()
     }
 
+    /// Formats the name of a component declared in the schema. It belongs to the target namespace,
+    /// so it must not be taken for a built-in type if XML Schema is the default namespace
+    pub fn format_declared_name(&self, name: &str) -> String {
+        let is_xsd_default =
+            self.xsd_ns.borrow().as_ref().map(|ns| ns.name().is_none()).unwrap_or(false);
+        let target_ns = self.target_ns.borrow();
+        let prefix = target_ns.as_ref().and_then(|ns| ns.name());
+
+        match prefix {
+            Some(prefix) if is_xsd_default && !name.contains(':') => {
+                self.base().format_type_name(&format!("{}:{}", prefix, name), self).into()
+            }
+            _ => self.base().format_type_name(name, self).into(),
+        }
+    }
+
     pub fn struct_field_gen(&self) -> &dyn StructFieldGenerator {
         self.struct_field_gen.as_ref().unwrap().borrow()
     }
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index 40ee944..ee46e22 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -75,7 +75,7 @@ pub trait StructGenerator {
     }
 
     fn get_type_name(&self, entity: &Struct, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.format_declared_name(entity.name.as_str())
     }
 
     fn macros(&self, _entity: &Struct, gen: &Generator) -> Cow<'static, str> {
diff --git a/xsd-parser/src/generator/tuple_struct.rs b/xsd-parser/src/generator/tuple_struct.rs
index c340eca..2659ee1 100644
--- a/xsd-parser/src/generator/tuple_struct.rs
+++ b/xsd-parser/src/generator/tuple_struct.rs
@@ -35,7 +35,7 @@ pub trait TupleStructGenerator {
     }
 
     fn get_name(&self, entity: &TupleStruct, gen: &Generator) -> String {
-        gen.base().format_type_name(entity.name.as_str(), gen).into()
+        gen.format_declared_name(entity.name.as_str())
     }
 
     fn macros(&self, _entity: &TupleStruct, _gen: &Generator) -> Cow<'static, str> {
-- 
2.43.0


From c9e174c7cbd4d1ae6942d682fc623ea1cf0276fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:27 +0000
Subject: [PATCH 23/48] fix: documentation of a global element or attribute
 made its commented out alias real

---
 xsd-parser/src/generator/alias.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/alias.rs b/xsd-parser/src/generator/alias.rs
index 9d584c9..0fc38b6 100644
--- a/xsd-parser/src/generator/alias.rs
+++ b/xsd-parser/src/generator/alias.rs
@@ -3,7 +3,7 @@ use crate::{generator::Generator, parser::types::Alias};
 pub trait AliasGenerator {
     fn generate(&self, entity: &Alias, gen: &Generator) -> String {
         format!(
-            "//{comment} pub type {name} = {original};\n",
+            "{comment}// pub type {name} = {original};\n",
             comment = self.format_comment(entity.comment.as_deref(), gen),
             name = self.format_name(entity.name.as_str(), gen),
             original = self.format_original_type(entity.original.as_str(), gen)
-- 
2.43.0


From 1499b08b3cf0a2d31a718c62982700d6567138c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 24/48] fix: the keyword 'try' was not escaped in generated
 names

---
 wsdl-parser/src/generator/mod.rs  | 1 +
 xsd-parser/src/generator/utils.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..e9a8346 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -178,6 +178,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..308444c 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -169,6 +169,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From 7486095ac3369f9d7710e5ff87f52471855627f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 25/48] fix: an enumeration value without letters and digits
 gave a variant without a name

---
 xsd-parser/src/parser/restriction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index d0bf67b..92a8c9b 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -132,7 +132,7 @@ fn is_simple_enumerations(node: &Node) -> bool {
 
 fn is_simple_enumeration(node: &Node) -> bool {
     let val = node.attr_value().expect("Value required for xsd:enumeration");
-    !val.is_empty() && val.chars().all(|c| c.is_alphanumeric() || c == '-')
+    val.chars().any(char::is_alphanumeric) && val.chars().all(|c| c.is_alphanumeric() || c == '-')
 }
 
 #[cfg(test)]
-- 
2.43.0


From 650fcf57f815e32a5db1fd050496317cf73f84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 26/48] fix: letters beyond ASCII were dropped from type names,
 leaving some of them empty

---
 wsdl-parser/src/generator/mod.rs  | 2 +-
 xsd-parser/src/generator/utils.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e9a8346..e200cb9 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -113,7 +113,7 @@ fn split_name(name: &str) -> (Option<&str>, &str) {
 
 fn filter_type_name(name: &str) -> String {
     fn is_valid_symbol(c: char) -> bool {
-        (c.is_alphanumeric() || c == '_') && c.is_ascii() && !c.is_whitespace()
+        c.is_alphanumeric() || c == '_'
     }
 
     name.chars().filter(|c| is_valid_symbol(*c)).collect()
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index 308444c..a051bf7 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -107,7 +107,7 @@ pub fn sanitize(s: String) -> String {
 
 pub fn filter_type_name(name: &str) -> String {
     fn is_valid_symbol(c: char) -> bool {
-        (c.is_alphanumeric() || c == '_') && c.is_ascii() && !c.is_whitespace()
+        c.is_alphanumeric() || c == '_'
     }
 
     name.chars().filter(|c| is_valid_symbol(*c)).collect()
-- 
2.43.0


From 4d2d98a2878c63721e0cef0a48659a1d1a8c2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:05 +0000
Subject: [PATCH 27/48] fix: foreign names which are digits or reserved words
 in Rust were not escaped

---
 wsdl-parser/src/generator/mod.rs    | 11 ++++++++---
 xsd-parser/src/generator/default.rs | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e200cb9..1478e82 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -81,9 +81,9 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
     let (prefix, name) = split_name(type_name);
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname = |prefix| format!("{}::{}", module_name(prefix), pascalized_name);
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
@@ -97,7 +97,12 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
+}
+
+// Namespace prefixes may contain characters which are not allowed in Rust names
+fn module_name(prefix: &str) -> String {
+    sanitize(prefix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect())
 }
 
 pub fn default_format_name(name: &str) -> String {
diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index ccf53c9..e1b6fe5 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -27,9 +27,9 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
     let is_nested = name.starts_with(':');
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
-    let pascalized_name = filter_type_name(to_pascal_case(name).as_str());
+    let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", prefix, pascalized_name);
+    let qname = |prefix| format!("{}::{}", module_name(prefix), pascalized_name);
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
@@ -43,7 +43,12 @@ pub fn default_format_type(type_name: &str, target_ns: &Option<Namespace>) -> Co
         _ => pascalized_name,
     };
 
-    sanitize(res).into()
+    res.into()
+}
+
+// Namespace prefixes may contain characters which are not allowed in Rust names
+fn module_name(prefix: &str) -> String {
+    sanitize(prefix.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect())
 }
 
 pub fn default_modify_type(type_name: &str, modifiers: &[TypeModifier]) -> Cow<'static, str> {
-- 
2.43.0


From de89e3a1a69241e6c75d07ad87032240ca7fdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 28/48] fix: documentation of types with derived content and of
 global components with anonymous types was lost

---
 xsd-parser/src/parser/attribute.rs    | 10 ++++++++--
 xsd-parser/src/parser/complex_type.rs |  6 ++++++
 xsd-parser/src/parser/element.rs      | 17 ++++++++++++++++-
 xsd-parser/src/parser/types.rs        | 13 +++++++++++++
 xsd-parser/src/parser/utils.rs        |  7 +++++++
 5 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 64b18f2..96dc77e 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField, StructFieldSource, TypeModifier},
-    utils::get_documentation,
+    utils::{get_documentation, join_documentation},
     xsd_elements::{ElementType, UseType, XsdNode},
 };
 
@@ -63,10 +63,16 @@ fn parse_global_attribute(node: &Node) -> RsEntity {
     {
         let mut entity = parse_node(&content, node);
         entity.set_name(name);
+        let comment = entity.comment().map(|comment| comment.to_string());
+        entity.set_comment(join_documentation(get_documentation(node), comment));
         return entity;
     }
 
-    RsEntity::Struct(Struct { name: name.to_string(), ..Default::default() })
+    RsEntity::Struct(Struct {
+        name: name.to_string(),
+        comment: get_documentation(node),
+        ..Default::default()
+    })
 }
 
 #[cfg(test)]
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 2dbcd23..32ef2b5 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -7,6 +7,7 @@ use crate::parser::{
     types::{RsEntity, Struct, StructField, StructFieldSource},
     utils::{
         attribute_groups_to_aliases, attributes_to_fields, get_documentation, get_parent_name,
+        join_documentation,
     },
     xsd_elements::{ElementType, XsdNode},
 };
@@ -56,6 +57,11 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
             st.fields.borrow_mut().append(&mut fields);
             st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
+            if content_node.xsd_type() != ElementType::All
+                && content_node.xsd_type() != ElementType::Sequence
+            {
+                st.comment = join_documentation(get_documentation(node), st.comment.take());
+            }
         }
         RsEntity::Enum(en) => {
             en.name = format!("{}Choice", name);
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 2f73022..7cae578 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -6,7 +6,7 @@ use crate::parser::{
     types::{
         Alias, EnumCase, EnumSource, RsEntity, Struct, StructField, StructFieldSource, TypeModifier,
     },
-    utils::{canonical_name, get_documentation},
+    utils::{canonical_name, get_documentation, join_documentation},
     xsd_elements::{max_occurs, min_occurs, ElementType, MaxOccurs, XsdNode},
 };
 
@@ -130,6 +130,7 @@ fn parse_global_element(node: &Node) -> RsEntity {
     if let Some(content) = content_node {
         let mut content_entity = parse_node(&content, node);
         set_type_name(&mut content_entity, name);
+        add_type_documentation(&mut content_entity, get_documentation(node));
         return content_entity;
     }
 
@@ -152,6 +153,20 @@ fn set_type_name(entity: &mut RsEntity, name: &str) {
     }
 }
 
+fn add_type_documentation(entity: &mut RsEntity, documentation: Option<String>) {
+    match entity {
+        RsEntity::Enum(en) if en.source == EnumSource::Choice => {
+            for subtype in en.subtypes.iter_mut() {
+                add_type_documentation(subtype, documentation.clone());
+            }
+        }
+        _ => {
+            let comment = entity.comment().map(|comment| comment.to_string());
+            entity.set_comment(join_documentation(documentation, comment));
+        }
+    }
+}
+
 // Modifiers for an element with 'type' or 'ref' attribute
 fn reference_modifiers(node: &Node) -> Vec<TypeModifier> {
     let mut modifiers = vec![element_modifier(node)];
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 5019426..77cf106 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -240,6 +240,19 @@ impl RsEntity {
         }
     }
 
+    pub fn comment(&self) -> Option<&str> {
+        use RsEntity::*;
+        match self {
+            Struct(s) => s.comment.as_deref(),
+            TupleStruct(tp) => tp.comment.as_deref(),
+            Enum(e) => e.comment.as_deref(),
+            EnumCase(ec) => ec.comment.as_deref(),
+            Alias(al) => al.comment.as_deref(),
+            StructField(sf) => sf.comment.as_deref(),
+            Import(im) => im.comment.as_deref(),
+        }
+    }
+
     pub fn set_comment(&mut self, comment: Option<String>) {
         use RsEntity::*;
         match self {
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 1d164ac..46b7e5c 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -74,6 +74,13 @@ pub fn get_documentation(node: &Node<'_, '_>) -> Option<String> {
         .and_then(|node| node.text().map(|s| s.to_string()))
 }
 
+pub fn join_documentation(first: Option<String>, second: Option<String>) -> Option<String> {
+    match (first, second) {
+        (Some(first), Some(second)) => Some(format!("{}\n{}", first, second)),
+        (first, second) => first.or(second),
+    }
+}
+
 pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
     match node.parent_element() {
         Some(parent) => {
-- 
2.43.0


From 5c27589f7e8c95c0ab5d4f2b9adecc3d8ddc5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 29/48] fix: functions of several port types came in random
 order

---
 wsdl-parser/src/generator/mod.rs    | 5 ++++-
 wsdl-parser/src/parser/port_type.rs | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 1478e82..765a96d 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,10 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    let mut port_types: Vec<_> = definitions.port_types().values().collect();
+    port_types.sort_by_key(|port_type| port_type.position());
+
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index dd17c0f..ffc39ab 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -40,6 +40,11 @@ impl<'a> PortType<'a> {
         self.node.attribute(attribute::NAME).expect("Name required for wsdl:portType")
     }
 
+    /// Position in the document
+    pub(crate) fn position(&self) -> usize {
+        self.node.range().start
+    }
+
     pub fn operations(&self) -> &[Operation] {
         self.operations.as_ref()
     }
-- 
2.43.0


From bab729f9a2f6b5c0c40b86023180c19d25daad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 30/48] fix: function of a one-way operation had no result type
 and was not valid Rust

---
 wsdl-parser/src/generator/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index 765a96d..c538de4 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -26,6 +26,10 @@ const REQUEST_FUNC_BODY: &str = "transport::request(transport, request).await";
 
 fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> String {
     let ftype = |t| default_format_type(t, target_ns);
+    let return_type = match func.return_type {
+        "" => "()".into(),
+        t => ftype(t),
+    };
     format!(
         r#"
 {comment}pub async fn {name}<{generics}>(
@@ -48,7 +52,7 @@ fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> Stri
             .map(|p| format!("{}: &{}", p.name, ftype(p.typename)))
             .collect::<Vec<String>>()
             .join(",\n    "),
-        return_type = ftype(func.return_type),
+        return_type = return_type,
         body = REQUEST_FUNC_BODY
     )
 }
-- 
2.43.0


From 6cc64e598e91469d874237e34f585739cac61e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 31/48] fix: the transport was not found when the target prefix
 is named transport

---
 wsdl-parser/src/generator/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index c538de4..e35df29 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -86,6 +86,8 @@ fn default_format_comment(doc: Option<&str>, max_len: usize, indent: usize) -> S
 
 fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'static, str> {
     let (prefix, name) = split_name(type_name);
+    // A path in Rust, not a qualified name
+    let is_path = name.starts_with(':');
     let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
     let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
@@ -94,7 +96,7 @@ fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'s
 
     let res = match (prefix, option_tns) {
         (Some(ns), Some(tns)) => {
-            if ns == tns {
+            if ns == tns && !is_path {
                 pascalized_name
             } else {
                 qname(ns)
-- 
2.43.0


From 450c9ebf26482e5587eaef797f5fe826f97f133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 32/48] fix: messages with a typed part or without parts made
 the WSDL generator panic

---
 wsdl-parser/src/generator/function.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/wsdl-parser/src/generator/function.rs b/wsdl-parser/src/generator/function.rs
index 29c845c..9e22001 100644
--- a/wsdl-parser/src/generator/function.rs
+++ b/wsdl-parser/src/generator/function.rs
@@ -27,13 +27,7 @@ pub struct Param<'a> {
 
 impl<'a> Param<'a> {
     pub fn new(part: &'a Part<'_>) -> Self {
-        Param {
-            name: part.name(),
-            typename: part
-                .element()
-                .or_else(|| part.type_())
-                .expect("Element or type must be presented in wsdl:part"),
-        }
+        Param { name: part.name(), typename: get_part_type(part) }
     }
 }
 
@@ -55,7 +49,10 @@ impl<'a> Function<'a> {
         Function {
             generic_params: vec![GENERIC_TRANSPORT],
             arguments: get_input_params(input_message),
-            return_type: output_message.and_then(|m| m.parts()[0].element()).unwrap_or(""),
+            return_type: output_message
+                .and_then(|m| m.parts().first())
+                .map(get_part_type)
+                .unwrap_or(""),
             documentation: operation.documentation(),
             name: operation.name(),
         }
@@ -71,9 +68,13 @@ fn get_input_params<'a>(input: Option<&'a Message<'_>>) -> Vec<Param<'a>> {
 
     if input.parts().len() == 1 {
         // ONVIF case
-        result.push(Param { name: "request", typename: input.parts()[0].element().unwrap() })
+        result.push(Param { name: "request", typename: get_part_type(&input.parts()[0]) })
     } else {
         result.append(&mut input.parts().iter().map(Param::new).collect());
     };
     result
 }
+
+fn get_part_type<'a>(part: &'a Part<'_>) -> &'a str {
+    part.element().or_else(|| part.type_()).expect("Element or type must be presented in wsdl:part")
+}
-- 
2.43.0


From 624321a81f89cff94d54b37df0c47c00c20bb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 33/48] fix: types qualified with another prefix of the target
 namespace of a WSDL were taken for foreign

---
 wsdl-parser/src/generator/mod.rs      | 26 ++++++++------------------
 wsdl-parser/src/parser/definitions.rs |  7 +++++++
 2 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e35df29..a4ae508 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -1,9 +1,7 @@
 use std::borrow::Cow;
 
-use inflector::cases::{pascalcase::to_pascal_case, snakecase::to_snake_case};
-use roxmltree::Namespace;
-
 use crate::{generator::function::Function, parser::definitions::Definitions};
+use inflector::cases::{pascalcase::to_pascal_case, snakecase::to_snake_case};
 
 pub mod function;
 
@@ -16,7 +14,7 @@ pub fn generate(definitions: &Definitions) -> String {
     for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
-            res.push(generate_function(&func, definitions.target_namespace()));
+            res.push(generate_function(&func, definitions));
         }
     }
     res.join("")
@@ -24,8 +22,8 @@ pub fn generate(definitions: &Definitions) -> String {
 
 const REQUEST_FUNC_BODY: &str = "transport::request(transport, request).await";
 
-fn generate_function(func: &Function<'_>, target_ns: Option<&Namespace>) -> String {
-    let ftype = |t| default_format_type(t, target_ns);
+fn generate_function(func: &Function<'_>, definitions: &Definitions<'_>) -> String {
+    let ftype = |t| default_format_type(t, definitions);
     let return_type = match func.return_type {
         "" => "()".into(),
         t => ftype(t),
@@ -84,25 +82,17 @@ fn default_format_comment(doc: Option<&str>, max_len: usize, indent: usize) -> S
         .fold(String::new(), |x, y| (x + &y))
 }
 
-fn default_format_type(type_name: &str, target_ns: Option<&Namespace>) -> Cow<'static, str> {
+fn default_format_type(type_name: &str, definitions: &Definitions<'_>) -> Cow<'static, str> {
     let (prefix, name) = split_name(type_name);
     // A path in Rust, not a qualified name
     let is_path = name.starts_with(':');
-    let option_tns = target_ns.as_ref().and_then(|ns| ns.name());
 
     let pascalized_name = sanitize(filter_type_name(to_pascal_case(name).as_str()));
 
-    let qname = |prefix| format!("{}::{}", module_name(prefix), pascalized_name);
-
-    let res = match (prefix, option_tns) {
-        (Some(ns), Some(tns)) => {
-            if ns == tns && !is_path {
-                pascalized_name
-            } else {
-                qname(ns)
-            }
+    let res = match prefix {
+        Some(prefix) if is_path || !definitions.is_target_prefix(prefix) => {
+            format!("{}::{}", module_name(prefix), pascalized_name)
         }
-        (Some(ns), None) => qname(ns),
         _ => pascalized_name,
     };
 
diff --git a/wsdl-parser/src/parser/definitions.rs b/wsdl-parser/src/parser/definitions.rs
index df04a62..c17a6a5 100644
--- a/wsdl-parser/src/parser/definitions.rs
+++ b/wsdl-parser/src/parser/definitions.rs
@@ -53,6 +53,13 @@ impl<'a> Definitions<'a> {
         }
     }
 
+    /// Several prefixes may stand for the target namespace
+    pub fn is_target_prefix(&self, prefix: &str) -> bool {
+        self.node().attribute(attribute::TARGET_NAMESPACE).map_or(false, |tn| {
+            self.node().lookup_namespace_uri(Some(prefix)).map_or(false, |uri| uri == tn)
+        })
+    }
+
     pub fn node(&self) -> &Node<'_, '_> {
         &self.node
     }
-- 
2.43.0


From c259f14e05448bb444b998b00c5617648ca8958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 34/48] fix: types of schemas embedded in a WSDL did not
 inherit members or attribute groups

---
 xsd-parser/src/parser/mod.rs    | 33 ++-------------------------------
 xsd-parser/src/parser/schema.rs | 31 +++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index 000bf63..a2f5831 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -23,12 +23,7 @@ mod union;
 mod utils;
 pub mod xsd_elements;
 
-use std::collections::HashMap;
-
-use crate::parser::{
-    schema::parse_schema,
-    types::{RsEntity, RsFile, Struct},
-};
+use crate::parser::{schema::parse_schema, types::RsFile};
 
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
@@ -39,29 +34,5 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
-    let schema_rs = parse_schema(&schema);
-    let attribute_groups = named_structs(&schema_rs, &schema_rs.attribute_groups);
-    for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
-        st.extend_attribute_group(&attribute_groups);
-    }
-
-    let types = named_structs(&schema_rs, &schema_rs.types);
-    for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
-        st.extend_base(&types);
-    }
-
-    Ok(schema_rs)
-}
-
-// Structs by the names they are referred to with from the same schema
-fn named_structs<'a>(schema: &RsFile, entities: &'a [RsEntity]) -> HashMap<String, &'a Struct> {
-    let prefix = schema.target_ns.as_ref().and_then(|namespace| namespace.name());
-    let mut map = HashMap::new();
-    for st in entities.iter().flat_map(RsEntity::structs) {
-        map.insert(st.name.clone(), st);
-        if let Some(prefix) = prefix {
-            map.insert(format!("{}:{}", prefix, st.name), st);
-        }
-    }
-    map
+    Ok(parse_schema(&schema))
 }
diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index 59ac42f..f79f047 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -1,14 +1,16 @@
+use std::collections::HashMap;
+
 use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::RsFile,
+    types::{RsEntity, RsFile, Struct},
     utils::{target_namespace, xsd_namespace},
     xsd_elements::{ElementType, XsdNode},
 };
 
 pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
-    RsFile {
+    let schema_rs = RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
@@ -27,7 +29,32 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
             .filter(|n| n.is_element() && n.xsd_type() == ElementType::AttributeGroup)
             .map(|node| parse_node(&node, schema))
             .collect(),
+    };
+
+    let attribute_groups = named_structs(&schema_rs, &schema_rs.attribute_groups);
+    for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
+        st.extend_attribute_group(&attribute_groups);
+    }
+
+    let types = named_structs(&schema_rs, &schema_rs.types);
+    for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
+        st.extend_base(&types);
+    }
+
+    schema_rs
+}
+
+// Structs by the names they are referred to with from the same schema
+fn named_structs<'a>(schema: &RsFile, entities: &'a [RsEntity]) -> HashMap<String, &'a Struct> {
+    let prefix = schema.target_ns.as_ref().and_then(|namespace| namespace.name());
+    let mut map = HashMap::new();
+    for st in entities.iter().flat_map(RsEntity::structs) {
+        map.insert(st.name.clone(), st);
+        if let Some(prefix) = prefix {
+            map.insert(format!("{}:{}", prefix, st.name), st);
+        }
     }
+    map
 }
 
 #[cfg(test)]
-- 
2.43.0


From e86f6756c67b0cb885323b8b921f3de66c8c08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:45 +0000
Subject: [PATCH 35/48] fix: read the whole text of a value element when a
 processing instruction splits it

---
 xsd-types/src/utils/yaserde.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/utils/yaserde.rs b/xsd-types/src/utils/yaserde.rs
index 6af7592..90e6a8b 100644
--- a/xsd-types/src/utils/yaserde.rs
+++ b/xsd-types/src/utils/yaserde.rs
@@ -39,9 +39,15 @@ pub fn deserialize<S, R: Read>(
         return Err("Start element not found".to_string());
     }
 
-    if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-        de_fn(text)
-    } else {
-        de_fn("")
+    // The content may come in several pieces, e.g. when a processing instruction splits it.
+    // The end of the element is left to the caller.
+    let mut content = String::new();
+    loop {
+        match reader.peek()? {
+            xml::reader::XmlEvent::Characters(text) => content.push_str(text),
+            xml::reader::XmlEvent::EndElement { .. } => return de_fn(&content),
+            event => return Err(format!("Unexpected content of a simple type: {:?}", event)),
+        }
+        reader.next_event()?;
     }
 }
-- 
2.43.0


From f01e12dc54982140ac5a7ec9a1bcd1d26c1f15ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:48 +0000
Subject: [PATCH 36/48] fix: report a bad item of a list value instead of
 dropping it

---
 xsd-macro-utils/src/tuple.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..6038da8 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -27,9 +27,11 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         }
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
-                s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
+                // Items are separated by XML whitespace; a bad item makes the whole list bad.
+                s.split(|c: ::std::primitive::char| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                    .filter(|s| !s.is_empty())
+                    .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
+                    .collect::<::std::result::Result<_, ::std::string::String>>()?
             },
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
-- 
2.43.0


From 318ed34ee9174fac29f677d9887ad92a08d6eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 37/48] fix: read the digits 1 and 0 as booleans in wrappers,
 lists and unions

---
 xsd-macro-utils/src/tuple.rs | 38 ++++++++++++++++++++++++++++--------
 xsd-macro-utils/src/union.rs |  8 +++++++-
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 6038da8..1bd8642 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -23,16 +23,23 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let convert = match extract_field_type(ast) {
         Type::String(_) => quote! { s.to_string() },
         Type::Struct(ty) | Type::Simple(ty) => {
-            quote! { <#ty as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string())? }
+            let literal = literal(ty);
+            quote! { <#ty as ::std::str::FromStr>::from_str(#literal).map_err(|e| e.to_string())? }
         }
         Type::Vec(subtype) => match Type::from_path(subtype) {
-            Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
-                // Items are separated by XML whitespace; a bad item makes the whole list bad.
-                s.split(|c: ::std::primitive::char| matches!(c, ' ' | '\t' | '\n' | '\r'))
-                    .filter(|s| !s.is_empty())
-                    .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
-                    .collect::<::std::result::Result<_, ::std::string::String>>()?
-            },
+            Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => {
+                let literal = literal(subtype);
+                quote! {
+                    // Items are separated by XML whitespace; a bad item makes the whole list bad.
+                    s.split(|c: ::std::primitive::char| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                        .filter(|s| !s.is_empty())
+                        .map(|s| {
+                            <#subtype as ::std::str::FromStr>::from_str(#literal)
+                                .map_err(|e| e.to_string())
+                        })
+                        .collect::<::std::result::Result<_, ::std::string::String>>()?
+                }
+            }
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
     };
@@ -82,6 +89,21 @@ fn display(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     })
 }
 
+// The literal in `s` as Rust spells it: XML Schema booleans may also be written as digits.
+pub(crate) fn literal(ty: &syn::Path) -> TokenStream {
+    if ty.is_ident("bool") {
+        quote! {
+            match s {
+                "1" => "true",
+                "0" => "false",
+                _ => s,
+            }
+        }
+    } else {
+        quote! { s }
+    }
+}
+
 impl Type<'_> {
     pub fn from_path(path: &syn::Path) -> Type {
         match path.segments.last().expect("Empty type").ident.to_string().as_str() {
diff --git a/xsd-macro-utils/src/union.rs b/xsd-macro-utils/src/union.rs
index c809193..2abb54a 100644
--- a/xsd-macro-utils/src/union.rs
+++ b/xsd-macro-utils/src/union.rs
@@ -1,6 +1,8 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 
+use crate::tuple::literal;
+
 pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let struct_name = &ast.ident;
     let struct_name_literal = &ast.ident.to_string();
@@ -52,8 +54,12 @@ pub fn serde(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
     let de_variants = variants
         .iter()
         .map(|(ident, subtype)| {
+            let literal = match subtype {
+                syn::Type::Path(ty) => literal(&ty.path),
+                _ => quote! { s },
+            };
             quote! {
-                if let Ok(de) = s.parse::<#subtype>() {
+                if let Ok(de) = (#literal).parse::<#subtype>() {
                     return Ok(#struct_name::#ident(de))
                 }
             }
-- 
2.43.0


From 205d4b463e8b0e580798099df8b303783ef28b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 38/48] fix: write the alternatives of a choice in the target
 namespace

---
 xsd-parser/src/generator/enum_case.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index a5580db..d532fb3 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -43,6 +43,12 @@ pub trait EnumCaseGenerator {
         }
 
         let (prefix, field_name) = split_name(entity.name.as_str());
+        // The alternatives of a choice are elements, the other cases are values
+        let target_ns = gen.target_ns.borrow();
+        let prefix = match entity.source {
+            EnumSource::Choice => prefix.or_else(|| target_ns.as_ref().and_then(|ns| ns.name())),
+            _ => prefix,
+        };
         match prefix {
             Some(p) => format!(
                 "{indent}#[yaserde(prefix = \"{prefix}\", rename = \"{rename}\")]\n",
-- 
2.43.0


From 2ec096db30729c2b5b547372e3f641aff712f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 39/48] fix: ignore white space around facet values

---
 xsd-parser/src/generator/validator.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 3186aad..3c0ec40 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -28,24 +28,25 @@ pub fn gen_validate_impl(name: &str, body: &str) -> String {
 }
 
 pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Cow<'static, str> {
+    // White space around the value of these facets is not significant
     match facet {
         FacetType::Enumeration(_) => "".into(),
         FacetType::FractionDigits(_) => "".into(),
-        FacetType::Length(value) => gen_length_validation(value.as_str(), name).into(),
+        FacetType::Length(value) => gen_length_validation(value.trim(), name).into(),
         FacetType::MaxExclusive(value) => {
-            gen_max_exclusive_validation(value.as_str(), name, typename).into()
+            gen_max_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MaxInclusive(value) => {
-            gen_max_inclusive_validation(value.as_str(), name, typename).into()
+            gen_max_inclusive_validation(value.trim(), name, typename).into()
         }
-        FacetType::MaxLength(value) => gen_max_length_validation(value.as_str(), name).into(),
+        FacetType::MaxLength(value) => gen_max_length_validation(value.trim(), name).into(),
         FacetType::MinExclusive(value) => {
-            gen_min_exclusive_validation(value.as_str(), name, typename).into()
+            gen_min_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MinInclusive(value) => {
-            gen_min_inclusive_validation(value.as_str(), name, typename).into()
+            gen_min_inclusive_validation(value.trim(), name, typename).into()
         }
-        FacetType::MinLength(value) => gen_min_length_validation(value.as_str(), name).into(),
+        FacetType::MinLength(value) => gen_min_length_validation(value.trim(), name).into(),
         _ => "".into(), // TODO: All Facet Types
     }
 }
-- 
2.43.0


From eea1f7c3765fc21eb295c33c7de54948e9b2cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:17 +0000
Subject: [PATCH 40/48] fix: default of enumerations over types other than
 string

---
 xsd-parser/src/generator/enum.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index da16e64..6aae1f4 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -8,13 +8,18 @@ use crate::{
 pub trait EnumGenerator {
     fn generate(&self, entity: &Enum, gen: &Generator) -> String {
         let name = self.get_name(entity, gen);
+        let unknown = match gen.base().format_type_name(entity.type_name.as_str(), gen).as_ref() {
+            "String" => "\"No valid variants\".into()",
+            _ => "Default::default()",
+        };
         let default_case = format!(
             "impl Default for {name} {{\n\
             {indent}fn default() -> {name} {{\n\
-            {indent}{indent}Self::__Unknown__(\"No valid variants\".into())\n\
+            {indent}{indent}Self::__Unknown__({unknown})\n\
             {indent}}}\n\
             }}",
             name = name,
+            unknown = unknown,
             indent = gen.base().indent()
         );
 
-- 
2.43.0


From 72f99d3e18fab24eb537171330cf915e8c508458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 41/48] fix: measure the length of strings in characters

---
 xsd-parser/src/generator/validator.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 3c0ec40..9167422 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -32,25 +32,40 @@ pub fn gen_facet_validation(facet: &FacetType, name: &str, typename: &str) -> Co
     match facet {
         FacetType::Enumeration(_) => "".into(),
         FacetType::FractionDigits(_) => "".into(),
-        FacetType::Length(value) => gen_length_validation(value.trim(), name).into(),
+        FacetType::Length(value) => {
+            count_characters(gen_length_validation(value.trim(), name), typename).into()
+        }
         FacetType::MaxExclusive(value) => {
             gen_max_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MaxInclusive(value) => {
             gen_max_inclusive_validation(value.trim(), name, typename).into()
         }
-        FacetType::MaxLength(value) => gen_max_length_validation(value.trim(), name).into(),
+        FacetType::MaxLength(value) => {
+            count_characters(gen_max_length_validation(value.trim(), name), typename).into()
+        }
         FacetType::MinExclusive(value) => {
             gen_min_exclusive_validation(value.trim(), name, typename).into()
         }
         FacetType::MinInclusive(value) => {
             gen_min_inclusive_validation(value.trim(), name, typename).into()
         }
-        FacetType::MinLength(value) => gen_min_length_validation(value.trim(), name).into(),
+        FacetType::MinLength(value) => {
+            count_characters(gen_min_length_validation(value.trim(), name), typename).into()
+        }
         _ => "".into(), // TODO: All Facet Types
     }
 }
 
+// The length of a string is measured in characters, not in bytes
+fn count_characters(check: String, typename: &str) -> String {
+    if typename == "String" {
+        check.replace(".len()", ".chars().count()")
+    } else {
+        check
+    }
+}
+
 fn gen_max_exclusive_validation(value: &str, name: &str, typename: &str) -> String {
     format!(
         r#"
-- 
2.43.0


From 2111d6affb5084759825f697f6e59565211f1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 42/48] fix: length facets beyond 32 bits made the generator
 panic

---
 xsd-parser/src/generator/validator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsd-parser/src/generator/validator.rs b/xsd-parser/src/generator/validator.rs
index 9167422..53ecf1f 100644
--- a/xsd-parser/src/generator/validator.rs
+++ b/xsd-parser/src/generator/validator.rs
@@ -91,7 +91,7 @@ fn gen_max_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value: usize = value.parse().unwrap();
     format!(
         r#"
         if self.{name}.len() != {value} {{
@@ -103,7 +103,7 @@ fn gen_length_validation(value: &str, name: &str) -> String {
 }
 
 fn gen_max_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value: usize = value.parse().unwrap();
     format!(
         r#"
         if self.{name}.len() > {value} {{
@@ -139,7 +139,7 @@ fn gen_min_inclusive_validation(value: &str, name: &str, typename: &str) -> Stri
 }
 
 fn gen_min_length_validation(value: &str, name: &str) -> String {
-    let value: u32 = value.parse().unwrap();
+    let value: usize = value.parse().unwrap();
     if value == 0 {
         return "".into();
     }
-- 
2.43.0


From c2fd6b40aaf3003281aa799a270e5dca4600650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:43 +0000
Subject: [PATCH 43/48] fix: facets of the items of a list were applied to the
 list

---
 xsd-parser/src/parser/list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/list.rs b/xsd-parser/src/parser/list.rs
index 777e88e..546632e 100644
--- a/xsd-parser/src/parser/list.rs
+++ b/xsd-parser/src/parser/list.rs
@@ -23,7 +23,8 @@ pub fn parse_list(list: &Node) -> RsEntity {
                     subtypes: vec![RsEntity::Enum(en)],
                     ..Default::default()
                 },
-                RsEntity::TupleStruct(ts) => ts,
+                // The facets of the items do not restrict the list
+                RsEntity::TupleStruct(ts) => TupleStruct { facets: vec![], ..ts },
                 _ => unreachable!(),
             }
         }
-- 
2.43.0


From fc9c3ac71573a0b464e966dce8faa7cc021aa1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 44/48] fix: documents of a target namespace declared without
 prefix could not be read

---
 xsd-parser/src/generator/default.rs   | 2 +-
 xsd-parser/src/generator/enum.rs      | 3 ++-
 xsd-parser/src/generator/enum_case.rs | 4 +++-
 xsd-parser/src/generator/struct.rs    | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index e1b6fe5..186912f 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -92,7 +92,7 @@ pub fn yaserde_for_element(
     let (prefix, field_name) = if let Some(index) = name.find(':') {
         (Some(&name[0..index]), &name[index + 1..])
     } else {
-        (target_namespace.and_then(|ns| ns.name()), name)
+        (target_namespace.map(|ns| ns.name().unwrap_or("")), name)
     };
 
     match prefix {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 6aae1f4..c57b1d9 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -80,8 +80,9 @@ pub trait EnumGenerator {
                     prefix = name,
                     uri = tn.uri()
                 ),
+                // The namespace without prefix, as in the schema
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index d532fb3..90e4c32 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -46,7 +46,9 @@ pub trait EnumCaseGenerator {
         // The alternatives of a choice are elements, the other cases are values
         let target_ns = gen.target_ns.borrow();
         let prefix = match entity.source {
-            EnumSource::Choice => prefix.or_else(|| target_ns.as_ref().and_then(|ns| ns.name())),
+            EnumSource::Choice => {
+                prefix.or_else(|| target_ns.as_ref().map(|ns| ns.name().unwrap_or("")))
+            }
             _ => prefix,
         };
         match prefix {
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index ee46e22..0493bc1 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -89,8 +89,9 @@ pub trait StructGenerator {
                     prefix = name,
                     uri = tn.uri()
                 ),
+                // The namespace without prefix, as in the schema
                 None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
+                    "{derives}#[yaserde(prefix = \"\", default_namespace = \"\", namespace = \"{uri}\")]\n",
                     derives = derives,
                     uri = tn.uri()
                 ),
-- 
2.43.0


From d9b9bf5d4e1b7c797a5df725570695b6de47fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 45/48] fix: members are inherited from types only, not from
 elements of the same name

---
 xsd-parser/src/parser/schema.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index f79f047..1fd4033 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -10,20 +10,21 @@ use crate::parser::{
 };
 
 pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
+    let declarations: Vec<_> = schema
+        .children()
+        .filter(|n| {
+            n.is_element()
+                && n.xsd_type() != ElementType::Annotation
+                && n.xsd_type() != ElementType::AttributeGroup
+        })
+        .collect();
+
     let schema_rs = RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
         xsd_ns: xsd_namespace(schema).cloned(),
-        types: schema
-            .children()
-            .filter(|n| {
-                n.is_element()
-                    && n.xsd_type() != ElementType::Annotation
-                    && n.xsd_type() != ElementType::AttributeGroup
-            })
-            .map(|node| parse_node(&node, schema))
-            .collect(),
+        types: declarations.iter().map(|node| parse_node(node, schema)).collect(),
         attribute_groups: schema
             .children()
             .filter(|n| n.is_element() && n.xsd_type() == ElementType::AttributeGroup)
@@ -31,12 +32,15 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
             .collect(),
     };
 
-    let attribute_groups = named_structs(&schema_rs, &schema_rs.attribute_groups);
+    let attribute_groups = named_structs(&schema_rs, schema_rs.attribute_groups.iter());
     for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
         st.extend_attribute_group(&attribute_groups);
     }
 
-    let types = named_structs(&schema_rs, &schema_rs.types);
+    // An element is no base for a type, even if the type inside it gets its name
+    let complex_types = declarations.iter().zip(&schema_rs.types);
+    let complex_types = complex_types.filter(|(n, _)| n.xsd_type() == ElementType::ComplexType);
+    let types = named_structs(&schema_rs, complex_types.map(|(_, entity)| entity));
     for st in schema_rs.types.iter().flat_map(RsEntity::structs) {
         st.extend_base(&types);
     }
@@ -45,10 +49,13 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
 }
 
 // Structs by the names they are referred to with from the same schema
-fn named_structs<'a>(schema: &RsFile, entities: &'a [RsEntity]) -> HashMap<String, &'a Struct> {
+fn named_structs<'a>(
+    schema: &RsFile,
+    entities: impl Iterator<Item = &'a RsEntity>,
+) -> HashMap<String, &'a Struct> {
     let prefix = schema.target_ns.as_ref().and_then(|namespace| namespace.name());
     let mut map = HashMap::new();
-    for st in entities.iter().flat_map(RsEntity::structs) {
+    for st in entities.flat_map(RsEntity::structs) {
         map.insert(st.name.clone(), st);
         if let Some(prefix) = prefix {
             map.insert(format!("{}:{}", prefix, st.name), st);
-- 
2.43.0


From d344165cf454e77b65948cd0cd9f5a3cab1a4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:39 +0000
Subject: [PATCH 46/48] fix: white space around names, references and bounds is
 not part of them

---
 xsd-parser/src/parser/utils.rs        |  3 ++-
 xsd-parser/src/parser/xsd_elements.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 46b7e5c..1ce245f 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -33,6 +33,7 @@ fn preferred_namespace<'a, 'input>(
 // Spells names from the target namespace and from the XML Schema namespace with the same prefix
 // everywhere, no matter which of the prefixes bound to the namespace is used in the document
 pub fn canonical_qname(node: &Node<'_, '_>, qname: &str) -> String {
+    let qname = qname.trim();
     let (prefix, name) = match qname.find(':') {
         Some(index) => (Some(&qname[..index]), &qname[index + 1..]),
         None => (None, qname),
@@ -89,7 +90,7 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
             }
 
             match parent.attribute(attribute::NAME) {
-                Some(s) => s,
+                Some(s) => s.trim(),
                 None => get_parent_name(&parent),
             }
         }
diff --git a/xsd-parser/src/parser/xsd_elements.rs b/xsd-parser/src/parser/xsd_elements.rs
index d693589..5616942 100644
--- a/xsd-parser/src/parser/xsd_elements.rs
+++ b/xsd-parser/src/parser/xsd_elements.rs
@@ -150,7 +150,7 @@ impl<'a> XsdNode for roxmltree::Node<'a, '_> {
             "pattern" => Facet(FacetType::Pattern(get_string_value(self))),
             "totalDigits" => Facet(FacetType::TotalDigits(get_string_value(self))),
             "whiteSpace" => match self.attr_value() {
-                Some(val) => match val {
+                Some(val) => match val.trim() {
                     "preserve" => Facet(FacetType::WhiteSpace(WhiteSpace::Preserve)),
                     "replace" => Facet(FacetType::WhiteSpace(WhiteSpace::Replace)),
                     "collapse" => Facet(FacetType::WhiteSpace(WhiteSpace::Collapse)),
@@ -164,7 +164,7 @@ impl<'a> XsdNode for roxmltree::Node<'a, '_> {
     }
 
     fn attr_name(&self) -> Option<&str> {
-        self.attribute(attribute::NAME)
+        self.attribute(attribute::NAME).map(|name| name.trim())
     }
 
     fn attr_type(&self) -> Option<String> {
@@ -176,7 +176,7 @@ impl<'a> XsdNode for roxmltree::Node<'a, '_> {
     }
 
     fn attr_use(&self) -> UseType {
-        match self.attribute(attribute::USE).unwrap_or("optional") {
+        match self.attribute(attribute::USE).unwrap_or("optional").trim() {
             "optional" => UseType::Optional,
             "prohibited" => UseType::Prohibited,
             "required" => UseType::Required,
@@ -211,12 +211,12 @@ pub enum MaxOccurs {
 }
 
 pub fn min_occurs(node: &roxmltree::Node) -> MinOccurs {
-    node.attribute(attribute::MIN_OCCURS).and_then(|v| v.parse::<usize>().ok()).unwrap_or(1)
+    node.attribute(attribute::MIN_OCCURS).and_then(|v| v.trim().parse::<usize>().ok()).unwrap_or(1)
 }
 
 pub fn max_occurs(node: &roxmltree::Node) -> MaxOccurs {
     match node.attribute(attribute::MAX_OCCURS) {
-        Some(s) => match s {
+        Some(s) => match s.trim() {
             "unbounded" => MaxOccurs::Unbounded,
             s => s.parse::<usize>().ok().map(MaxOccurs::Bounded).unwrap_or(MaxOccurs::None),
         },
-- 
2.43.0


From 65fe537855c4600adf68da1f73a9379599548111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:02 +0000
Subject: [PATCH 47/48] fix: line breaks in the location of an import do not
 end its comment

---
 xsd-parser/src/parser/import.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/parser/import.rs b/xsd-parser/src/parser/import.rs
index c19d993..99831ff 100644
--- a/xsd-parser/src/parser/import.rs
+++ b/xsd-parser/src/parser/import.rs
@@ -6,9 +6,13 @@ use crate::parser::{
 };
 
 pub fn parse_import(node: &Node) -> RsEntity {
+    // URIs are one line, no matter how they are written
+    let uri =
+        |name| node.attribute(name).unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ");
+
     RsEntity::Import(Import {
-        name: node.attribute(attribute::NAMESPACE).unwrap_or("").into(),
-        location: node.attribute(attribute::SCHEMA_LOCATION).unwrap_or("").into(),
+        name: uri(attribute::NAMESPACE),
+        location: uri(attribute::SCHEMA_LOCATION),
         comment: None,
     })
 }
-- 
2.43.0


From 6a63a35bf912dd7ea8d65629f3d75d4716c3da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:02 +0000
Subject: [PATCH 48/48] fix: white space around attribute values of a WSDL is
 insignificant

---
 wsdl-parser/src/parser/definitions.rs | 16 +++++++++++-----
 wsdl-parser/src/parser/message.rs     |  8 ++++----
 wsdl-parser/src/parser/port_type.rs   | 20 +++++++++++++++-----
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/wsdl-parser/src/parser/definitions.rs b/wsdl-parser/src/parser/definitions.rs
index c17a6a5..2c77d10 100644
--- a/wsdl-parser/src/parser/definitions.rs
+++ b/wsdl-parser/src/parser/definitions.rs
@@ -47,7 +47,7 @@ pub struct Definitions<'a> {
 
 impl<'a> Definitions<'a> {
     pub fn target_namespace(&self) -> Option<&'a Namespace<'_>> {
-        match self.node().attribute(attribute::TARGET_NAMESPACE) {
+        match self.node().attribute(attribute::TARGET_NAMESPACE).map(str::trim) {
             Some(tn) => self.node().namespaces().find(|a| a.uri() == tn),
             None => None,
         }
@@ -55,7 +55,7 @@ impl<'a> Definitions<'a> {
 
     /// Several prefixes may stand for the target namespace
     pub fn is_target_prefix(&self, prefix: &str) -> bool {
-        self.node().attribute(attribute::TARGET_NAMESPACE).map_or(false, |tn| {
+        self.node().attribute(attribute::TARGET_NAMESPACE).map(str::trim).map_or(false, |tn| {
             self.node().lookup_namespace_uri(Some(prefix)).map_or(false, |uri| uri == tn)
         })
     }
@@ -65,7 +65,7 @@ impl<'a> Definitions<'a> {
     }
 
     pub fn name(&self) -> Option<&str> {
-        self.node().attribute(attribute::NAME)
+        self.node().attribute(attribute::NAME).map(str::trim)
     }
 
     pub fn imports(&self) -> &HashMap<&'a str, Import<'a>> {
@@ -167,11 +167,17 @@ pub struct Import<'a> {
 
 impl<'a> Import<'a> {
     pub fn namespace(&self) -> &'a str {
-        self.node.attribute(attribute::NAMESPACE).expect("Namespace required for wsdl:Import")
+        self.node
+            .attribute(attribute::NAMESPACE)
+            .map(str::trim)
+            .expect("Namespace required for wsdl:Import")
     }
 
     pub fn location(&self) -> &'a str {
-        self.node.attribute(attribute::LOCATION).expect("Location required for wsdl:Import")
+        self.node
+            .attribute(attribute::LOCATION)
+            .map(str::trim)
+            .expect("Location required for wsdl:Import")
     }
 
     pub fn new(node: &Node<'a, '_>) -> Self {
diff --git a/wsdl-parser/src/parser/message.rs b/wsdl-parser/src/parser/message.rs
index 1ca04dd..9f204dd 100644
--- a/wsdl-parser/src/parser/message.rs
+++ b/wsdl-parser/src/parser/message.rs
@@ -47,7 +47,7 @@ impl<'a> Message<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:message")
+        self.node.attribute(attribute::NAME).map(str::trim).expect("Name required for wsdl:message")
     }
 
     pub fn parts(&self) -> &[Part<'a>] {
@@ -79,15 +79,15 @@ pub struct Part<'a> {
 
 impl<'a> Part<'a> {
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:part")
+        self.node.attribute(attribute::NAME).map(str::trim).expect("Name required for wsdl:part")
     }
 
     pub fn element(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::ELEMENT)
+        self.node.attribute(attribute::ELEMENT).map(str::trim)
     }
 
     pub fn type_(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::TYPE)
+        self.node.attribute(attribute::TYPE).map(str::trim)
     }
 
     pub fn new(node: &Node<'a, '_>) -> Self {
diff --git a/wsdl-parser/src/parser/port_type.rs b/wsdl-parser/src/parser/port_type.rs
index ffc39ab..b88b037 100644
--- a/wsdl-parser/src/parser/port_type.rs
+++ b/wsdl-parser/src/parser/port_type.rs
@@ -37,7 +37,10 @@ impl<'a> PortType<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:portType")
+        self.node
+            .attribute(attribute::NAME)
+            .map(str::trim)
+            .expect("Name required for wsdl:portType")
     }
 
     /// Position in the document
@@ -90,7 +93,10 @@ impl<'a> Operation<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:operation")
+        self.node
+            .attribute(attribute::NAME)
+            .map(str::trim)
+            .expect("Name required for wsdl:operation")
     }
 
     pub fn parameter_order(&self) -> Option<&'a str> {
@@ -188,12 +194,13 @@ impl<'a> Param<'a> {
     }
 
     pub fn name(&self) -> Option<&'a str> {
-        self.node.attribute(attribute::NAME)
+        self.node.attribute(attribute::NAME).map(str::trim)
     }
 
     pub fn message(&self) -> &'a str {
         self.node
             .attribute(attribute::MESSAGE)
+            .map(str::trim)
             .expect("Message required for wsdl:input and wsdl:output")
     }
 }
@@ -209,10 +216,13 @@ impl<'a> Fault<'a> {
     }
 
     pub fn name(&self) -> &'a str {
-        self.node.attribute(attribute::NAME).expect("Name required for wsdl:fault")
+        self.node.attribute(attribute::NAME).map(str::trim).expect("Name required for wsdl:fault")
     }
 
     pub fn message(&self) -> &'a str {
-        self.node.attribute(attribute::MESSAGE).expect("Message required for wsdl:fault")
+        self.node
+            .attribute(attribute::MESSAGE)
+            .map(str::trim)
+            .expect("Message required for wsdl:fault")
     }
 }
-- 
2.43.0

