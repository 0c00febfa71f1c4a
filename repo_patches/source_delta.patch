From bcd71f420cbea7b65e5b763651cd0544aba719a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 01/86] fix: dates before the epoch were converted to the wrong
 day

---
 keramics-datetime/src/util.rs | 68 +++++++++++++----------------------
 1 file changed, 24 insertions(+), 44 deletions(-)

diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..92fb354 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -100,34 +100,32 @@ fn get_days_in_century(year: i16) -> i32 {
     }
 }
 
+/// Number of days in 400 years.
+const DAYS_IN_400_YEARS: i64 = 146097;
+
 /// Retrieves date values.
 pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
-
     let mut year: i16 = epoch.year;
     let mut month: u8 = epoch.month;
-    number_of_days += epoch.day_of_month as i64;
 
-    if before_epoch {
-        month -= 1;
+    if number_of_days < 0 {
+        // The calendar repeats every 400 years, hence move the epoch back such
+        // that the date does not predate it.
+        let number_of_cycles: i64 = -(number_of_days.div_euclid(DAYS_IN_400_YEARS));
 
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
+        year -= (number_of_cycles * 400) as i16;
+        number_of_days += number_of_cycles * DAYS_IN_400_YEARS;
     }
+    number_of_days += epoch.day_of_month as i64;
+
     // Align with the start of the year.
     while month > 1 {
         let days_in_month: i64 = get_days_in_month(year, month) as i64;
         if number_of_days < days_in_month {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
+        month += 1;
+
         if month > 12 {
             month = 1;
             year += 1;
@@ -135,52 +133,37 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
         number_of_days -= days_in_month;
     }
     // Align with the start of the next century.
-    let remaining_years: usize = (year as usize) % 100;
+    let remaining_years: usize = year.rem_euclid(100) as usize;
     for _ in remaining_years..100 {
         let days_in_year: i64 = get_days_in_year(year) as i64;
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
+
         number_of_days -= days_in_year;
     }
     let mut days_in_century: i64 = get_days_in_century(year) as i64;
     while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
+        year += 100;
+
         number_of_days -= days_in_century;
 
         days_in_century = get_days_in_century(year) as i64;
     }
     let mut days_in_year: i64 = get_days_in_year(year) as i64;
     while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
+
         number_of_days -= days_in_year;
 
         days_in_year = get_days_in_year(year) as i64;
     }
     let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
     while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
+        month += 1;
+
+        if month > 12 {
             month = 1;
             year += 1;
         }
@@ -188,10 +171,7 @@ pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8)
 
         days_in_month = get_days_in_month(year, month) as i64;
     }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
+    if number_of_days == 0 {
         number_of_days = 31;
         month = 12;
         year -= 1;
-- 
2.43.0


From 050d107452a34dc081d3fa6f8f5e033be59336bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 02/86] fix: year 10000 indexed past the end of the days in
 year and century tables

---
 keramics-datetime/src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 92fb354..b9450dd 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -59,7 +59,7 @@ const DAYS_IN_YEAR: [i16; 10000] = calculate_days_in_year_lookup_table();
 /// Retrieves the number of days in a specific year.
 #[inline(always)]
 fn get_days_in_year(year: i16) -> i16 {
-    if year >= 0 && year <= 10000 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_YEAR[year as usize]
     } else if is_leap_year(year) {
         366
@@ -91,7 +91,7 @@ const DAYS_IN_CENTURY: [i32; 100] = calculate_days_in_century_lookup_table();
 /// Retrieves the number of days in a specific century.
 #[inline(always)]
 fn get_days_in_century(year: i16) -> i32 {
-    if year >= 0 && year <= 10000 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_CENTURY[(year / 100) as usize]
     } else if is_leap_year(year) {
         36525
-- 
2.43.0


From c5dba8c2630830764c69753465210881834d529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:40 +0000
Subject: [PATCH 03/86] fix: dates past the year 32767 overflowed the year

---
 keramics-datetime/src/filetime.rs |  2 +-
 keramics-datetime/src/posix.rs    |  4 ++--
 keramics-datetime/src/util.rs     | 23 ++++++++++-------------
 3 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..df389b6 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..3d1e8c0 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index b9450dd..808e1ed 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -15,13 +15,13 @@ use super::epoch::Epoch;
 
 /// Determines if the year is a leap-year.
 #[inline(always)]
-fn is_leap_year(year: i16) -> bool {
+fn is_leap_year(year: i64) -> bool {
     (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
 }
 
 /// Retrieves the number of days in a specific month.
 #[inline(always)]
-fn get_days_in_month(year: i16, month: u8) -> u8 {
+fn get_days_in_month(year: i64, month: u8) -> u8 {
     match month {
         1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
         2 => {
@@ -58,7 +58,7 @@ const DAYS_IN_YEAR: [i16; 10000] = calculate_days_in_year_lookup_table();
 
 /// Retrieves the number of days in a specific year.
 #[inline(always)]
-fn get_days_in_year(year: i16) -> i16 {
+fn get_days_in_year(year: i64) -> i16 {
     if year >= 0 && year < 10000 {
         DAYS_IN_YEAR[year as usize]
     } else if is_leap_year(year) {
@@ -90,7 +90,7 @@ const DAYS_IN_CENTURY: [i32; 100] = calculate_days_in_century_lookup_table();
 
 /// Retrieves the number of days in a specific century.
 #[inline(always)]
-fn get_days_in_century(year: i16) -> i32 {
+fn get_days_in_century(year: i64) -> i32 {
     if year >= 0 && year < 10000 {
         DAYS_IN_CENTURY[(year / 100) as usize]
     } else if is_leap_year(year) {
@@ -104,18 +104,15 @@ fn get_days_in_century(year: i16) -> i32 {
 const DAYS_IN_400_YEARS: i64 = 146097;
 
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let mut year: i16 = epoch.year;
+pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i64, u8, u8) {
+    let mut year: i64 = epoch.year as i64;
     let mut month: u8 = epoch.month;
 
-    if number_of_days < 0 {
-        // The calendar repeats every 400 years, hence move the epoch back such
-        // that the date does not predate it.
-        let number_of_cycles: i64 = -(number_of_days.div_euclid(DAYS_IN_400_YEARS));
+    // The calendar repeats every 400 years, hence move the epoch such that the
+    // date is less than 400 years past it.
+    year += number_of_days.div_euclid(DAYS_IN_400_YEARS) * 400;
 
-        year -= (number_of_cycles * 400) as i16;
-        number_of_days += number_of_cycles * DAYS_IN_400_YEARS;
-    }
+    number_of_days = number_of_days.rem_euclid(DAYS_IN_400_YEARS);
     number_of_days += epoch.day_of_month as i64;
 
     // Align with the start of the year.
-- 
2.43.0


From 772b6ff79a216f609d7f3bd9190e55efcc867ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 04/86] fix: do not encode unmapped code points as 0x1a in
 ISO-8859-2 and ISO-8859-4

---
 keramics-encodings/src/iso8859_2.rs | 6 +++---
 keramics-encodings/src/iso8859_4.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
-- 
2.43.0


From 17db5b34f7bc9e3406cf62d7de13031624968fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 05/86] fix: consume input when the ASCII and ISO-8859-1
 encoders and the UTF-8 decoder return an error

---
 keramics-encodings/src/ascii.rs     | 4 ++--
 keramics-encodings/src/iso8859_1.rs | 4 ++--
 keramics-encodings/src/utf8.rs      | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..802cc69 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,6 +51,9 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
+        // An invalid sequence consumes its first byte.
+        self.byte_index = byte_index;
+
         if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
-- 
2.43.0


From 825519abcd3a7d66717a836e5346e5f9edf10cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 06/86] fix: reject overlong UTF-8 sequences and code points
 above U+10FFFF (RFC 3629)

---
 keramics-encodings/src/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index 802cc69..82f0cbb 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -54,7 +54,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
         // An invalid sequence consumes its first byte.
         self.byte_index = byte_index;
 
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -78,6 +78,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
-- 
2.43.0


From 13a4d8f0b38ee365e0a9b9b59de4a13010163ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 07/86] fix: Base64 decode panicked when the decoded data did
 not fit the buffer

---
 keramics-encodings/src/base64.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..19e96fc 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,6 +130,11 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
+            if data_offset >= data.len() {
+                return Err(keramics_core::error_trace_new!(
+                    "Invalid data value too small"
+                ));
+            }
             data[data_offset] = byte_value;
             data_offset += 1;
         }
-- 
2.43.0


From def889052bce9a29cd255164f1bafb63154ff646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 08/86] fix: reject malformed UUID strings before parsing them

Uuid::from_string panicked when a separator or part boundary fell inside a
multi-byte character, accepted parts with a leading '+' and left the UUID
partially overwritten when a later part was invalid.
---
 keramics-types/src/uuid.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..eced481 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,12 +83,14 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
-        if &string[8..9] != "-"
-            || &string[13..14] != "-"
-            || &string[18..19] != "-"
-            || &string[23..24] != "-"
-        {
-            return Err(ParseError::new(format!("Unsupported string")));
+        for (index, value) in string.as_bytes().iter().enumerate() {
+            let is_supported: bool = match index {
+                8 | 13 | 18 | 23 => *value == b'-',
+                _ => value.is_ascii_hexdigit(),
+            };
+            if !is_supported {
+                return Err(ParseError::new(format!("Unsupported string")));
+            }
         }
         self.part1 = match u32::from_str_radix(&string[0..8], 16) {
             Ok(value) => value,
-- 
2.43.0


From b12ea99629cb39a3abd3b89605e701c57e64eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 09/86] fix: ignore a trailing byte when reading 16-bit strings

Reading a UCS-2 or UTF-16 string from a byte sequence of odd length without
end-of-string character panicked.
---
 keramics-types/src/ucs2_string.rs  | 6 +++---
 keramics-types/src/utf16_string.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..b1a9cfa 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -47,7 +47,7 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in big-endian.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() & !1;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -62,7 +62,7 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in little-endian.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() & !1;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -89,7 +89,7 @@ impl Ucs2String {
 
     /// Reads a string from a buffer in little-endian.
     pub fn read_data_le(&mut self, data: &[u8]) {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() & !1;
 
         for data_offset in (0..data_size).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..2770ed1 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -30,7 +30,7 @@ impl Utf16String {
 
     /// Reads a big-endian UTF-16 string from a byte sequence.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() & !1;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -45,7 +45,7 @@ impl Utf16String {
 
     /// Reads a little-endian UTF-16 string from a byte sequence.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = data.len() & !1;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
-- 
2.43.0


From 7b28d3afb4c178a72c7709256678bf8d8d45795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 10/86] fix: convert UTF-16 strings with unpaired surrogates

Utf16String::to_string panicked on an unpaired surrogate.
---
 keramics-types/src/utf16_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 2770ed1..41a2de3 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -60,7 +60,7 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        String::from_utf16_lossy(&self.elements)
     }
 }
 
-- 
2.43.0


From c81e321a034d6b8bfb78fc4ac63757cded7f0675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 11/86] fix: convert byte strings with invalid byte sequences

ByteString::to_string reached a todo!() when a byte sequence could not be decoded.
---
 keramics-types/src/byte_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..6321ece 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,7 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => string_parts.push(String::from("\u{fffd}")),
             }
         }
         string_parts.join("")
-- 
2.43.0


From 7d79c06b2f0c91bb89ff72015ff1b22df242f827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 12/86] fix: zero fill reads across the end of the data of a
 fake data stream

A read that crossed the end of the data repeated the data instead.
---
 keramics-core/src/fake_data_stream.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..df5358c 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -88,9 +88,8 @@ impl DataStream for FakeDataStream {
                 read_remainder_size
             };
             buf_offset += read_count;
+            self.current_offset += read_count as u64;
         }
-        self.current_offset += buf_offset as u64;
-
         Ok(buf_offset)
     }
 
-- 
2.43.0


From 545bd9737088d63cd04ab025fe2194b57cefa7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 13/86] fix: reject seeks of a fake data stream before its
 start

A seek to a negative offset wrapped around to a very large offset, and offsets
beyond the signed range overflowed.
---
 keramics-core/src/fake_data_stream.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index df5358c..115bab1 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -95,18 +95,18 @@ impl DataStream for FakeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(crate::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
-- 
2.43.0


From 78b0ff3f8be7c094f8825246319c46c07c9e45ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 14/86] fix: complete the last line of a hexdump with a single
 byte

The padding, ASCII column and end-of-line were omitted when the last line held
one byte.
---
 keramics-core/src/formatters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..89d8dfb 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -115,7 +115,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if data_size > groups_data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From a69a0a79cca913c0278a6f010655bd1240a1ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 15/86] fix: format arrays of any size for debugging

Empty arrays panicked, and values were repeated when the number of values was
more than 16 and not a multiple of 16.
---
 keramics-core/src/formatters.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 89d8dfb..c5759b7 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,10 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+
+    if number_of_values == 0 {
+        return String::from("[]");
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
@@ -29,7 +33,7 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
     }
     if number_of_values > 16 {
         let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
+        let last_value_index: usize = ((number_of_values - 1) / 16) * 16;
         for value_index in (0..last_value_index).step_by(16) {
             string_parts.push(array[value_index..value_index + 16].join(", "));
         }
-- 
2.43.0


From ec325a89198516578ea005fb10da5029ed6467b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 16/86] fix: encode code points as UTF-8 instead of panicking

---
 keramics-encodings/src/character_encoder.rs |  2 +
 keramics-encodings/src/lib.rs               |  2 +-
 keramics-encodings/src/utf8.rs              | 55 +++++++++++++++++++++
 3 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/character_encoder.rs b/keramics-encodings/src/character_encoder.rs
index a830a69..c1e6ec3 100644
--- a/keramics-encodings/src/character_encoder.rs
+++ b/keramics-encodings/src/character_encoder.rs
@@ -40,6 +40,7 @@ use super::mac_cyrillic::EncoderMacCyrillic;
 use super::mac_dingbats::EncoderMacDingbats;
 use super::mac_farsi::EncoderMacFarsi;
 use super::mac_gaelic::EncoderMacGaelic;
+use super::utf8::EncoderUtf8;
 use super::windows874::EncoderWindows874;
 use super::windows932::EncoderWindows932;
 use super::windows1250::EncoderWindows1250;
@@ -88,6 +89,7 @@ pub fn new_character_encoder<'a>(
         CharacterEncoding::MacDingbats => Box::new(EncoderMacDingbats::new(code_points)),
         CharacterEncoding::MacFarsi => Box::new(EncoderMacFarsi::new(code_points)),
         CharacterEncoding::MacGaelic => Box::new(EncoderMacGaelic::new(code_points)),
+        CharacterEncoding::Utf8 => Box::new(EncoderUtf8::new(code_points)),
         CharacterEncoding::Windows874 => Box::new(EncoderWindows874::new(code_points)),
         CharacterEncoding::Windows932 => Box::new(EncoderWindows932::new(code_points)),
         CharacterEncoding::Windows1250 => Box::new(EncoderWindows1250::new(code_points)),
diff --git a/keramics-encodings/src/lib.rs b/keramics-encodings/src/lib.rs
index ebe3194..7f6c695 100644
--- a/keramics-encodings/src/lib.rs
+++ b/keramics-encodings/src/lib.rs
@@ -84,7 +84,7 @@ pub use mac_cyrillic::{DecoderMacCyrillic, EncoderMacCyrillic};
 pub use mac_dingbats::{DecoderMacDingbats, EncoderMacDingbats};
 pub use mac_farsi::{DecoderMacFarsi, EncoderMacFarsi};
 pub use mac_gaelic::{DecoderMacGaelic, EncoderMacGaelic};
-pub use utf8::DecoderUtf8;
+pub use utf8::{DecoderUtf8, EncoderUtf8};
 pub use windows874::{DecoderWindows874, EncoderWindows874};
 pub use windows932::{DecoderWindows932, EncoderWindows932};
 pub use windows1250::{DecoderWindows1250, EncoderWindows1250};
diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index 82f0cbb..a6ba7d5 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -164,6 +164,61 @@ impl<'a> Iterator for DecoderUtf8<'a> {
     }
 }
 
+/// UTF-8 encoder.
+pub struct EncoderUtf8<'a> {
+    /// Code points.
+    code_points: &'a [u32],
+
+    /// Code point index.
+    code_point_index: usize,
+}
+
+impl<'a> EncoderUtf8<'a> {
+    /// Creates a new encoder.
+    pub fn new(code_points: &'a [u32]) -> Self {
+        Self {
+            code_points: code_points,
+            code_point_index: 0,
+        }
+    }
+}
+
+impl<'a> Iterator for EncoderUtf8<'a> {
+    type Item = Result<Vec<u8>, ErrorTrace>;
+
+    /// Retrieves the next encoded byte sequence.
+    fn next(&mut self) -> Option<Self::Item> {
+        let code_point: u32 = match self.code_points.get(self.code_point_index) {
+            Some(code_point) => *code_point,
+            None => return None,
+        };
+        self.code_point_index += 1;
+
+        match code_point {
+            0x0000..=0x007f => Some(Ok(vec![code_point as u8])),
+            0x0080..=0x07ff => Some(Ok(vec![
+                0xc0 | (code_point >> 6) as u8,
+                0x80 | (code_point & 0x3f) as u8,
+            ])),
+            0x0800..=0xd7ff | 0xe000..=0xffff => Some(Ok(vec![
+                0xe0 | (code_point >> 12) as u8,
+                0x80 | ((code_point >> 6) & 0x3f) as u8,
+                0x80 | (code_point & 0x3f) as u8,
+            ])),
+            0x10000..=0x10ffff => Some(Ok(vec![
+                0xf0 | (code_point >> 18) as u8,
+                0x80 | ((code_point >> 12) & 0x3f) as u8,
+                0x80 | ((code_point >> 6) & 0x3f) as u8,
+                0x80 | (code_point & 0x3f) as u8,
+            ])),
+            _ => Some(Err(keramics_core::error_trace_new!(format!(
+                "Unable to encode code point: U+{:04x} as UTF-8",
+                code_point
+            )))),
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0bfcfc5c274495223f24017ad896dd32531e4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 17/86] fix: tell signatures with the same pattern at different
 offsets apart

---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..980776b 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,9 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From f6149432f4e4c899c57acf416dcc714265764087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 18/86] fix: determine the smallest pattern offset of a
 signature table

It was always 0, so that signatures that do not overlap could recurse
without end when building a scan tree.
---
 keramics-sigscan/src/signature_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..13128c0 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -384,7 +384,11 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
+                self.smallest_pattern_offset = if self.byte_value_groups.len() == 0 {
+                    pattern_offset
+                } else {
+                    min(pattern_offset, self.smallest_pattern_offset)
+                };
 
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
-- 
2.43.0


From 43e6754c31cfcc459ba9a767c5e69d810b8a2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 19/86] fix: match signatures only within the data, without
 overflow

---
 keramics-sigscan/src/signature.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 980776b..4c92faa 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,10 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
@@ -84,9 +87,13 @@ impl Signature {
             PatternType::Unbound => buffer_offset,
             _ => (pattern_offset - data_offset) as usize,
         };
-        let scan_end_offset: usize = scan_offset + self.pattern_size;
-
-        if scan_end_offset > buffer_size || (scan_end_offset as u64) > data_size {
+        let scan_end_offset: usize = match scan_offset.checked_add(self.pattern_size) {
+            Some(scan_end_offset) => scan_end_offset,
+            None => return false,
+        };
+        if scan_end_offset > buffer_size
+            || (scan_end_offset as u64) > data_size.saturating_sub(data_offset)
+        {
             return false;
         }
         if buffer[scan_offset..scan_end_offset] != self.pattern {
-- 
2.43.0


From 5ab1bf3a70413293b8fee301f4970f8de600b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 20/86] fix: scan a single byte without overflow

---
 keramics-sigscan/src/scan_context.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..549f2a6 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -111,7 +111,7 @@ impl<'a> ScanContext<'a> {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
                     let mut skip_value_offset: usize =
-                        min(buffer_offset + smallest_pattern_size - 1, buffer_end_offset);
+                        min((buffer_offset + smallest_pattern_size).saturating_sub(1), buffer_end_offset);
 
                     loop {
                         let byte_value: u8 = buffer[skip_value_offset];
@@ -122,11 +122,10 @@ impl<'a> ScanContext<'a> {
                                 _ => scan_tree.skip_table.smallest_pattern_size,
                             };
                         }
-                        skip_value_offset -= 1;
-
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
                         }
+                        skip_value_offset -= 1;
                     }
                 }
             };
-- 
2.43.0


From 8008965d36600d8413d63fdd32ff872a3d02e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 21/86] fix: report unbound signatures at their offset, scan on
 from the root node

---
 keramics-sigscan/src/scan_context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 549f2a6..1fbfa12 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
@@ -133,6 +133,7 @@ impl<'a> ScanContext<'a> {
                 break;
             }
             buffer_offset += skip_value;
+            scan_tree_node = &scan_tree.root_node;
         }
     }
 
-- 
2.43.0


From 9c2d23167fb1c5c40610f586f28bb217a93c1098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:17 +0000
Subject: [PATCH 22/86] fix: scan a single byte without overflow (formatting)

---
 keramics-sigscan/src/scan_context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 1fbfa12..f3af6a0 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -110,8 +110,10 @@ impl<'a> ScanContext<'a> {
                 _ => {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
-                    let mut skip_value_offset: usize =
-                        min((buffer_offset + smallest_pattern_size).saturating_sub(1), buffer_end_offset);
+                    let mut skip_value_offset: usize = min(
+                        (buffer_offset + smallest_pattern_size).saturating_sub(1),
+                        buffer_end_offset,
+                    );
 
                     loop {
                         let byte_value: u8 = buffer[skip_value_offset];
-- 
2.43.0


From 71cdf720ae7914917feb4db00274b291e98df9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 23/86] fix: reject a zero distance in LZVN compressed data

A copy with distance zero took bytes that were not decompressed: the stale
contents of the output buffer.
---
 keramics-compression/src/lzvn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..f24ff2d 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,7 +477,7 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
-                if distance as usize > uncompressed_data_offset {
+                if distance == 0 || distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid distance value exceeds uncompressed data offset"
                     ));
-- 
2.43.0


From 52d86ab2487f5aa8e7865cef134a5ea5981a7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:18 +0000
Subject: [PATCH 24/86] fix: decompress DEFLATE blocks without distance codes

---
 keramics-compression/src/deflate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..486d247 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,8 +400,13 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
 
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
+
+        // Note that a block that only contains literals can have no distance codes.
+        if distance_code_sizes.iter().any(|code_size| *code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 8be00ad504f7466bf74bc9049a6d5ae89709635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 25/86] fix: verify the checksum of ZLIB compressed data

---
 keramics-compression/src/zlib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..1b846b2 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,11 +160,12 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
+        if 4 <= bitstream.data_size - bitstream.data_offset {
             let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
             let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
+            adler32_context
+                .update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
             let calculated_checksum: u32 = adler32_context.finalize();
 
             if stored_checksum != calculated_checksum {
-- 
2.43.0


From bc573e238262c12d7a67d5730a929e015c7bc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 26/86] fix: verify the check value of the ZLIB data header

---
 keramics-compression/src/zlib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 1b846b2..6cb742a 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -97,10 +97,15 @@ impl ZlibDataHeader {
                 compression_window_size
             )));
         }
-        self.header_size = 2;
-
         let flags: u8 = data[1];
 
+        if ((compression_data as u16) * 256 + (flags as u16)) % 31 != 0 {
+            return Err(keramics_core::error_trace_new!(
+                "Invalid zlib data header check value"
+            ));
+        }
+        self.header_size = 2;
+
         if flags & 0x20 != 0 {
             if data.len() < 6 {
                 return Err(keramics_core::error_trace_new!(
-- 
2.43.0


From b1c6b5c55a71cff1502040ac822a05a8dabf7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 27/86] fix: reject seeks of data streams before their start,
 without overflow

---
 keramics-formats/src/apm/partition.rs          | 18 +++++++++---------
 keramics-formats/src/ewf/image.rs              | 18 +++++++++---------
 keramics-formats/src/ext/block_stream.rs       | 18 +++++++++---------
 keramics-formats/src/fat/block_stream.rs       | 18 ++++++++++--------
 keramics-formats/src/gpt/partition.rs          | 18 +++++++++---------
 keramics-formats/src/mbr/partition.rs          | 18 +++++++++---------
 keramics-formats/src/ntfs/block_stream.rs      | 18 +++++++++---------
 keramics-formats/src/ntfs/compressed_stream.rs | 18 +++++++++---------
 .../src/ntfs/wof_compressed_stream.rs          | 18 +++++++++---------
 keramics-formats/src/qcow/file.rs              | 18 +++++++++---------
 keramics-formats/src/sparsebundle/image.rs     | 18 +++++++++---------
 keramics-formats/src/sparseimage/file.rs       | 18 +++++++++---------
 keramics-formats/src/udif/file.rs              | 18 +++++++++---------
 keramics-formats/src/vhd/file.rs               | 18 +++++++++---------
 keramics-formats/src/vhdx/file.rs              | 18 +++++++++---------
 keramics-tools/src/range_stream.rs             | 18 +++++++++---------
 16 files changed, 145 insertions(+), 143 deletions(-)

diff --git a/keramics-formats/src/apm/partition.rs b/keramics-formats/src/apm/partition.rs
index b3024ac..24e16ea 100644
--- a/keramics-formats/src/apm/partition.rs
+++ b/keramics-formats/src/apm/partition.rs
@@ -103,18 +103,18 @@ impl DataStream for ApmPartition {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 0ee6d0c..2e240d2 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -963,18 +963,18 @@ impl DataStream for EwfImage {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 1063cbc..64b13cf 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -177,18 +177,18 @@ impl DataStream for ExtBlockStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index cc6cc2b..c081881 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -199,18 +199,20 @@ impl DataStream for FatBlockStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
             SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+                (self.size as u64).checked_add_signed(relative_offset)
+            }
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/gpt/partition.rs b/keramics-formats/src/gpt/partition.rs
index 8c61eb2..1fd88f4 100644
--- a/keramics-formats/src/gpt/partition.rs
+++ b/keramics-formats/src/gpt/partition.rs
@@ -103,18 +103,18 @@ impl DataStream for GptPartition {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/mbr/partition.rs b/keramics-formats/src/mbr/partition.rs
index d1cb5ca..1395193 100644
--- a/keramics-formats/src/mbr/partition.rs
+++ b/keramics-formats/src/mbr/partition.rs
@@ -102,18 +102,18 @@ impl DataStream for MbrPartition {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 1d2713a..20ca2f2 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -254,18 +254,18 @@ impl DataStream for NtfsBlockStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/ntfs/compressed_stream.rs b/keramics-formats/src/ntfs/compressed_stream.rs
index 3c1e159..ebbfb3b 100644
--- a/keramics-formats/src/ntfs/compressed_stream.rs
+++ b/keramics-formats/src/ntfs/compressed_stream.rs
@@ -360,18 +360,18 @@ impl DataStream for NtfsCompressedStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/ntfs/wof_compressed_stream.rs b/keramics-formats/src/ntfs/wof_compressed_stream.rs
index 79ee328..4b645fa 100644
--- a/keramics-formats/src/ntfs/wof_compressed_stream.rs
+++ b/keramics-formats/src/ntfs/wof_compressed_stream.rs
@@ -386,18 +386,18 @@ impl DataStream for NtfsWofCompressedStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46bf951..46cbc15 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -564,18 +564,18 @@ impl DataStream for QcowFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-formats/src/sparsebundle/image.rs b/keramics-formats/src/sparsebundle/image.rs
index 107ab14..e924477 100644
--- a/keramics-formats/src/sparsebundle/image.rs
+++ b/keramics-formats/src/sparsebundle/image.rs
@@ -296,18 +296,18 @@ impl DataStream for SparseBundleImage {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 5a23feb..4ef5b7b 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -282,18 +282,18 @@ impl DataStream for SparseImageFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index b37fef4..3141cbc 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -580,18 +580,18 @@ impl DataStream for UdifFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 6dd0d7d..0020afc 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -500,18 +500,18 @@ impl DataStream for VhdFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 022ce89..3aaaad3 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -865,18 +865,18 @@ impl DataStream for VhdxFile {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.media_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.media_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.media_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.media_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.media_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.media_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.media_offset)
     }
diff --git a/keramics-tools/src/range_stream.rs b/keramics-tools/src/range_stream.rs
index 417ef72..9cf0e2e 100644
--- a/keramics-tools/src/range_stream.rs
+++ b/keramics-tools/src/range_stream.rs
@@ -126,18 +126,18 @@ impl DataStream for FileRangeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.range_size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.range_size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!("Invalid seek offset"));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
-- 
2.43.0


From 39e5c3620717e2596c349b45e0d4743ec1300537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 28/86] fix: locate logical partitions relative to their own
 extended boot record

---
 keramics-formats/src/mbr/partition_entry.rs |  4 ++++
 keramics-formats/src/mbr/volume_system.rs   | 10 +++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/mbr/partition_entry.rs b/keramics-formats/src/mbr/partition_entry.rs
index 59b4a96..0b9d49d 100644
--- a/keramics-formats/src/mbr/partition_entry.rs
+++ b/keramics-formats/src/mbr/partition_entry.rs
@@ -33,6 +33,9 @@ pub struct MbrPartitionEntry {
     /// The partition index.
     pub index: usize,
 
+    /// The offset the start LBA of the partition is relative to.
+    pub boot_record_offset: u64,
+
     /// The partition flags.
     pub flags: u8,
 
@@ -51,6 +54,7 @@ impl MbrPartitionEntry {
     pub fn new() -> Self {
         Self {
             index: 0,
+            boot_record_offset: 0,
             flags: 0,
             partition_type: 0,
             start_address_lba: 0,
diff --git a/keramics-formats/src/mbr/volume_system.rs b/keramics-formats/src/mbr/volume_system.rs
index 720d932..8b4b7bc 100644
--- a/keramics-formats/src/mbr/volume_system.rs
+++ b/keramics-formats/src/mbr/volume_system.rs
@@ -76,14 +76,13 @@ impl MbrVolumeSystem {
                         "Unsupported bytes per sector: 0"
                     ));
                 }
-                let mut partition_offset: u64 =
-                    partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64;
+                // Note that the start LBA of a logical partition is relative to the extended boot
+                // record that contains its partition entry.
+                let partition_offset: u64 = partition_entry.boot_record_offset
+                    + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
                 let partition_size: u64 =
                     partition_entry.number_of_sectors as u64 * self.bytes_per_sector as u64;
 
-                if partition_entry.index >= 4 {
-                    partition_offset += self.first_extended_boot_record_offset;
-                }
                 let mut partition: MbrPartition = MbrPartition::new(
                     partition_entry.index,
                     partition_offset,
@@ -274,6 +273,7 @@ impl MbrVolumeSystem {
                     + (partition_entry.start_address_lba as u64 * self.bytes_per_sector as u64);
             } else if partition_entry.partition_type != 0 {
                 partition_entry.index = first_entry_index + entry_index;
+                partition_entry.boot_record_offset = offset;
                 self.partition_entries.push(partition_entry);
             }
             entry_index += 1;
-- 
2.43.0


From 5abf5864ba64a41797a8cc3b7aa1db94b30358f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 29/86] fix: reject GPT block numbers that are out of bounds
 instead of overflowing

---
 keramics-formats/src/gpt/volume_system.rs | 37 +++++++++++++++++------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/keramics-formats/src/gpt/volume_system.rs b/keramics-formats/src/gpt/volume_system.rs
index 4800daf..de30019 100644
--- a/keramics-formats/src/gpt/volume_system.rs
+++ b/keramics-formats/src/gpt/volume_system.rs
@@ -73,12 +73,27 @@ impl GptVolumeSystem {
                         return Err(keramics_core::error_trace_new!("Missing data stream"));
                     }
                 };
-                let partition_offset: u64 =
-                    partition_entry.start_block_number as u64 * self.bytes_per_sector as u64;
-                let partition_size: u64 = (partition_entry.end_block_number
-                    - partition_entry.start_block_number
-                    + 1) as u64
-                    * self.bytes_per_sector as u64;
+                let bytes_per_sector: u64 = self.bytes_per_sector as u64;
+
+                // Note that a partition entry contains the number of the last block.
+                let partition_end_offset: u64 = match partition_entry.end_block_number.checked_add(1)
+                {
+                    Some(block_number) => match block_number.checked_mul(bytes_per_sector) {
+                        Some(offset) => offset,
+                        None => {
+                            return Err(keramics_core::error_trace_new!(
+                                "Partition end block number value out of bounds"
+                            ));
+                        }
+                    },
+                    None => {
+                        return Err(keramics_core::error_trace_new!(
+                            "Partition end block number value out of bounds"
+                        ));
+                    }
+                };
+                let partition_offset: u64 = partition_entry.start_block_number * bytes_per_sector;
+                let partition_size: u64 = partition_end_offset - partition_offset;
 
                 let mut partition: GptPartition = GptPartition::new(
                     partition_entry.index,
@@ -165,8 +180,9 @@ impl GptVolumeSystem {
                 ));
             }
         }
-        let backup_partition_table_offset: u64 =
-            partition_table_header.backup_header_block_number * self.bytes_per_sector as u64;
+        let backup_partition_table_offset: u64 = partition_table_header
+            .backup_header_block_number
+            .saturating_mul(self.bytes_per_sector as u64);
 
         let mut backup_partition_table_header = GptPartitionTableHeader::new();
 
@@ -219,8 +235,9 @@ impl GptVolumeSystem {
         }
         let mut crc32_context: ReversedCrc32Context = ReversedCrc32Context::new(0xedb88320, 0);
 
-        let mut entry_data_offset: u64 =
-            partition_table_header.entries_start_block_number * self.bytes_per_sector as u64;
+        let mut entry_data_offset: u64 = partition_table_header
+            .entries_start_block_number
+            .saturating_mul(self.bytes_per_sector as u64);
         let mut entry_data: Vec<u8> = vec![0; partition_table_header.entry_data_size as usize];
 
         for entry_index in 0..partition_table_header.number_of_entries {
-- 
2.43.0


From 6b6c1b74425e6b2e542043828b30e03d757001ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 30/86] fix: insert block ranges that cross or are not aligned
 with block tree nodes

---
 keramics-formats/src/block_tree.rs      | 25 ++++++++++-------
 keramics-formats/src/block_tree_node.rs | 36 ++++++++++++++++---------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/keramics-formats/src/block_tree.rs b/keramics-formats/src/block_tree.rs
index 471af06..693c516 100644
--- a/keramics-formats/src/block_tree.rs
+++ b/keramics-formats/src/block_tree.rs
@@ -43,17 +43,18 @@ impl<T> BlockTree<T> {
     }
 
     /// Creates the root node.
-    fn create_root_node(&mut self, size: u64) {
+    fn create_root_node(&mut self, offset: u64, size: u64) {
         let mut element_size: u64 = self.leaf_value_size;
 
-        if self.elements_per_node * element_size > self.leaf_value_size {
+        if self.elements_per_node > 1 {
             while self.data_size / element_size > self.elements_per_node {
                 element_size *= self.elements_per_node;
             }
         }
         let elements_per_node: u64 = self.data_size.div_ceil(element_size);
 
-        let node_type: BlockTreeNodeType = if element_size <= size {
+        let node_type: BlockTreeNodeType = if offset % element_size == 0 && size % element_size == 0
+        {
             BlockTreeNodeType::Leaf
         } else {
             BlockTreeNodeType::Branch
@@ -73,7 +74,7 @@ impl<T> BlockTree<T> {
 
     /// Retrieves a (leaf) value.
     pub fn get_value(&self, offset: u64) -> Option<&T> {
-        if self.root_node.is_none() {
+        if self.root_node.is_none() || offset >= self.data_size {
             return None;
         }
         let mut node: &BlockTreeNode<T> = self.root_node.as_ref().unwrap();
@@ -96,14 +97,15 @@ impl<T> BlockTree<T> {
 
     /// Inserts a (leaf) value.
     pub fn insert_value(&mut self, offset: u64, size: u64, value: T) -> Result<(), InsertError> {
-        if offset + size > self.data_size {
+        if offset > self.data_size || size > self.data_size - offset {
             return Err(InsertError::new(format!(
-                "Range: {} - {} exceeds data size: {}",
-                offset,
-                offset + size,
-                self.data_size
+                "Range at offset: {} of size: {} exceeds data size: {}",
+                offset, size, self.data_size
             )));
         }
+        if self.leaf_value_size == 0 {
+            return Err(InsertError::new(format!("Unsupported leaf value size: 0")));
+        }
         if offset % self.leaf_value_size != 0 {
             return Err(InsertError::new(format!(
                 "Offset: {} not a multitude of leaf value size: {}",
@@ -116,8 +118,11 @@ impl<T> BlockTree<T> {
                 size, self.leaf_value_size
             )));
         }
+        if size == 0 {
+            return Ok(());
+        }
         if self.root_node.is_none() {
-            self.create_root_node(size);
+            self.create_root_node(offset, size);
         }
         let root_node: &mut BlockTreeNode<T> = &mut self.root_node.as_mut().unwrap();
         root_node.insert_value(
diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index 9f0a6fe..ada2d21 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::{max, min};
 use std::sync::Arc;
 
 use super::errors::InsertError;
@@ -65,23 +66,29 @@ impl<T> BlockTreeNode<T> {
             if self.sub_nodes.len() == 0 {
                 self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
             }
-            let number_of_sub_nodex: u64 = size.div_ceil(self.element_size);
+            let end_offset: u64 = offset + size;
             let first_sub_node_index: u64 = (offset - self.offset) / self.element_size;
-            let last_sub_node_index: u64 = first_sub_node_index + number_of_sub_nodex;
+            let last_sub_node_index: u64 = (end_offset - self.offset).div_ceil(self.element_size);
 
             let mut sub_node_element_size: u64 = leaf_value_size;
 
             while self.element_size / sub_node_element_size > elements_per_node {
                 sub_node_element_size *= elements_per_node;
             }
-            let sub_node_type: BlockTreeNodeType = if sub_node_element_size <= size {
-                BlockTreeNodeType::Leaf
-            } else {
-                BlockTreeNodeType::Branch
-            };
-            let mut sub_node_offset: u64 = self.offset + (first_sub_node_index * self.element_size);
-
             for sub_node_index in first_sub_node_index..last_sub_node_index {
+                // Note that the range can span multiple sub nodes.
+                let sub_node_offset: u64 = self.offset + (sub_node_index * self.element_size);
+                let range_offset: u64 = max(offset, sub_node_offset);
+                let range_size: u64 = min(end_offset - sub_node_offset, self.element_size)
+                    - (range_offset - sub_node_offset);
+
+                let sub_node_type: BlockTreeNodeType = if range_offset % sub_node_element_size == 0
+                    && range_size % sub_node_element_size == 0
+                {
+                    BlockTreeNodeType::Leaf
+                } else {
+                    BlockTreeNodeType::Branch
+                };
                 if self.sub_nodes[sub_node_index as usize].is_none() {
                     let sub_node: BlockTreeNode<T> =
                         BlockTreeNode::new(&sub_node_type, sub_node_offset, sub_node_element_size);
@@ -92,13 +99,18 @@ impl<T> BlockTreeNode<T> {
                 sub_node.insert_value(
                     elements_per_node,
                     leaf_value_size,
-                    offset,
-                    size,
+                    range_offset,
+                    range_size,
                     value.clone(),
                 )?;
-                sub_node_offset += self.element_size;
             }
         } else {
+            if (offset - self.offset) % self.element_size != 0 {
+                return Err(InsertError::new(format!(
+                    "Offset: {} not a multitude of node element size: {}",
+                    offset, self.element_size
+                )));
+            }
             if size % self.element_size != 0 {
                 return Err(InsertError::new(format!(
                     "Size: {} not a multitude of node element size: {}",
-- 
2.43.0


From d94ee24df37b8d4b9e901f88823f1b538abfdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 31/86] fix: reject file block ranges that are out of bounds
 instead of overflowing

---
 keramics-formats/src/ext/block_stream.rs  | 34 +++++++++++++++++-
 keramics-formats/src/ext/superblock.rs    |  2 +-
 keramics-formats/src/fat/block_stream.rs  |  3 ++
 keramics-formats/src/ntfs/block_stream.rs | 42 +++++++++++++++++++++--
 4 files changed, 76 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/ext/block_stream.rs b/keramics-formats/src/ext/block_stream.rs
index 64b13cf..75b9d09 100644
--- a/keramics-formats/src/ext/block_stream.rs
+++ b/keramics-formats/src/ext/block_stream.rs
@@ -56,10 +56,42 @@ impl ExtBlockStream {
         number_of_blocks: u64,
         block_ranges: &Vec<ExtBlockRange>,
     ) -> Result<(), ErrorTrace> {
-        let block_tree_data_size: u64 = number_of_blocks * (self.block_size as u64);
+        let block_tree_data_size: u64 = match number_of_blocks.checked_mul(self.block_size as u64) {
+            Some(data_size) => data_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported number of blocks: {} value out of bounds",
+                    number_of_blocks
+                )));
+            }
+        };
         self.block_tree =
             BlockTree::<ExtBlockRange>::new(block_tree_data_size, 0, self.block_size as u64);
         for block_range in block_ranges.iter() {
+            // Note that this also ensures the offsets of the block range are within bounds.
+            if block_range.number_of_blocks > number_of_blocks
+                || block_range.logical_block_number
+                    > number_of_blocks - block_range.number_of_blocks
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported logical block number: {} value out of bounds",
+                    block_range.logical_block_number
+                )));
+            }
+            let physical_end_offset: Option<u64> = match block_range
+                .physical_block_number
+                .checked_add(block_range.number_of_blocks)
+            {
+                Some(block_number) => block_number.checked_mul(self.block_size as u64),
+                None => None,
+            };
+
+            if physical_end_offset.is_none() {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported physical block number: {} value out of bounds",
+                    block_range.physical_block_number
+                )));
+            }
             let logical_offset: u64 = block_range.logical_block_number * (self.block_size as u64);
             let range_size: u64 = block_range.number_of_blocks * (self.block_size as u64);
             match self
diff --git a/keramics-formats/src/ext/superblock.rs b/keramics-formats/src/ext/superblock.rs
index 9ed7ebe..cbac553 100644
--- a/keramics-formats/src/ext/superblock.rs
+++ b/keramics-formats/src/ext/superblock.rs
@@ -259,7 +259,7 @@ impl ExtSuperblock {
         }
         self.block_size = bytes_to_u32_le!(data, 24);
 
-        if self.block_size > 32 - 10 {
+        if self.block_size > 31 - 10 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
diff --git a/keramics-formats/src/fat/block_stream.rs b/keramics-formats/src/fat/block_stream.rs
index c081881..a0349c5 100644
--- a/keramics-formats/src/fat/block_stream.rs
+++ b/keramics-formats/src/fat/block_stream.rs
@@ -59,6 +59,9 @@ impl FatBlockStream {
         block_allocation_table: &Arc<FatBlockAllocationTable>,
         mut cluster_block_number: u32,
     ) -> Result<(), ErrorTrace> {
+        if self.block_size == 0 {
+            return Err(keramics_core::error_trace_new!("Unsupported block size: 0"));
+        }
         let largest_cluster_block_number: u32 =
             block_allocation_table.get_largest_cluster_block_number();
 
diff --git a/keramics-formats/src/ntfs/block_stream.rs b/keramics-formats/src/ntfs/block_stream.rs
index 20ca2f2..9dd214c 100644
--- a/keramics-formats/src/ntfs/block_stream.rs
+++ b/keramics-formats/src/ntfs/block_stream.rs
@@ -67,10 +67,25 @@ impl NtfsBlockStream {
                 "Unsupported resident $DATA attribute"
             ));
         }
-        let block_tree_size: u64 = data_attribute
+        if self.cluster_block_size == 0 {
+            return Err(keramics_core::error_trace_new!(
+                "Unsupported cluster block size: 0"
+            ));
+        }
+        let number_of_cluster_blocks: u64 = data_attribute
             .allocated_data_size
-            .div_ceil(self.cluster_block_size as u64)
-            * (self.cluster_block_size as u64);
+            .div_ceil(self.cluster_block_size as u64);
+
+        let block_tree_size: u64 =
+            match number_of_cluster_blocks.checked_mul(self.cluster_block_size as u64) {
+                Some(data_size) => data_size,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported allocated data size: {} value out of bounds",
+                        data_attribute.allocated_data_size
+                    )));
+                }
+            };
         self.block_tree =
             BlockTree::<NtfsBlockRange>::new(block_tree_size, 0, self.cluster_block_size as u64);
 
@@ -86,6 +101,27 @@ impl NtfsBlockStream {
                     )));
                 }
                 for data_run in cluster_group.data_runs.iter() {
+                    // Note that this also ensures the offsets of the data run are within bounds.
+                    if data_run.number_of_blocks > number_of_cluster_blocks - virtual_cluster_number
+                    {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Unsupported data run number of blocks: {} value out of bounds",
+                            data_run.number_of_blocks
+                        )));
+                    }
+                    let physical_end_offset: Option<u64> =
+                        match data_run.block_number.checked_add(data_run.number_of_blocks) {
+                            Some(block_number) => {
+                                block_number.checked_mul(self.cluster_block_size as u64)
+                            }
+                            None => None,
+                        };
+                    if physical_end_offset.is_none() {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Unsupported data run block number: {} value out of bounds",
+                            data_run.block_number
+                        )));
+                    }
                     let range_size: u64 =
                         data_run.number_of_blocks * (self.cluster_block_size as u64);
 
-- 
2.43.0


From 661a44296ab20bfbaf7f5677c4108dc802e1c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 32/86] fix: reject NTFS data run block numbers that are out of
 bounds instead of overflowing

---
 keramics-formats/src/ntfs/data_run.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ntfs/data_run.rs b/keramics-formats/src/ntfs/data_run.rs
index de0d109..8195a9e 100644
--- a/keramics-formats/src/ntfs/data_run.rs
+++ b/keramics-formats/src/ntfs/data_run.rs
@@ -109,9 +109,15 @@ impl NtfsDataRun {
                 block_number <<= 8;
                 block_number |= *byte_value as i64;
             }
-            block_number += last_block_number as i64;
-
-            self.block_number = block_number as u64;
+            self.block_number = match last_block_number.checked_add_signed(block_number) {
+                Some(block_number) => block_number,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Unsupported relative block number: {} value out of bounds",
+                        block_number
+                    )));
+                }
+            };
         }
         data_offset += block_number_size;
 
-- 
2.43.0


From 3d095329de69e4f22e676a61d1febb35df4e6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 33/86] fix: ignore the reserved bits of FAT-32 allocation
 table entries

---
 keramics-formats/src/fat/block_allocation_table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/fat/block_allocation_table.rs b/keramics-formats/src/fat/block_allocation_table.rs
index 30da809..1423e68 100644
--- a/keramics-formats/src/fat/block_allocation_table.rs
+++ b/keramics-formats/src/fat/block_allocation_table.rs
@@ -106,9 +106,8 @@ impl FatBlockAllocationTable {
                 }
             }
             FatFormat::Fat16 => bytes_to_u16_le!(data, 0) as u32,
-            FatFormat::Fat32 => {
-                bytes_to_u32_le!(data, 0)
-            }
+            // Note that the upper 4 bits of a FAT-32 entry are reserved.
+            FatFormat::Fat32 => bytes_to_u32_le!(data, 0) & 0x0fffffff,
         };
         if self.mediator.debug_output {
             self.mediator
-- 
2.43.0


From 93d69a5c251844b9bdc2d9012c8b1ccb4e3e4ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 34/86] fix: use the upper 16 bits of the data start cluster on
 FAT-32

---
 keramics-formats/src/fat/file_entry.rs        | 12 ++++++++----
 .../src/fat/short_name_directory_entry.rs     | 19 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/fat/file_entry.rs b/keramics-formats/src/fat/file_entry.rs
index 09668ba..af1c7c7 100644
--- a/keramics-formats/src/fat/file_entry.rs
+++ b/keramics-formats/src/fat/file_entry.rs
@@ -117,9 +117,11 @@ impl FatFileEntry {
         if self.is_directory() {
             return Ok(None);
         }
-        let (data_start_cluster, data_size): (u16, u32) = match self.directory_entry.as_ref() {
+        let (data_start_cluster, data_size): (u32, u32) = match self.directory_entry.as_ref() {
             Some(directory_entry) => (
-                directory_entry.short_name.data_start_cluster,
+                directory_entry
+                    .short_name
+                    .get_data_start_cluster(&self.block_allocation_table.format),
                 directory_entry.short_name.data_size,
             ),
             None => (0, 0),
@@ -130,7 +132,7 @@ impl FatFileEntry {
         match block_stream.open(
             &self.data_stream,
             &self.block_allocation_table,
-            data_start_cluster as u32,
+            data_start_cluster,
         ) {
             Ok(_) => {}
             Err(mut error) => {
@@ -253,7 +255,9 @@ impl FatFileEntry {
     /// Reads the sub directory entries.
     fn read_sub_directory_entries(&mut self) -> Result<(), ErrorTrace> {
         let cluster_block_number: u32 = match &self.directory_entry {
-            Some(directory_entry) => directory_entry.short_name.data_start_cluster as u32,
+            Some(directory_entry) => directory_entry
+                .short_name
+                .get_data_start_cluster(&self.block_allocation_table.format),
             None => {
                 return Err(keramics_core::error_trace_new!("Missing directory entry"));
             }
diff --git a/keramics-formats/src/fat/short_name_directory_entry.rs b/keramics-formats/src/fat/short_name_directory_entry.rs
index ee587c3..c582b2a 100644
--- a/keramics-formats/src/fat/short_name_directory_entry.rs
+++ b/keramics-formats/src/fat/short_name_directory_entry.rs
@@ -18,6 +18,7 @@ use keramics_layout_map::LayoutMap;
 use keramics_types::{ByteString, bytes_to_u16_le, bytes_to_u32_le};
 
 use super::constants::*;
+use super::enums::FatFormat;
 
 #[derive(Clone, LayoutMap)]
 #[layout_map(
@@ -57,9 +58,12 @@ pub struct FatShortNameDirectoryEntry {
     /// Modifiation date and time.
     pub modification_time: DateTime,
 
-    /// Data start cluster.
+    /// Data start cluster (lower 16 bits).
     pub data_start_cluster: u16,
 
+    /// Upper 16 bits of the data start cluster, which is only set on FAT-32.
+    pub data_start_cluster_upper: u16,
+
     /// Data size.
     pub data_size: u32,
 }
@@ -75,10 +79,22 @@ impl FatShortNameDirectoryEntry {
             access_time: DateTime::NotSet,
             modification_time: DateTime::NotSet,
             data_start_cluster: 0,
+            data_start_cluster_upper: 0,
             data_size: 0,
         }
     }
 
+    /// Retrieves the data start cluster block number.
+    pub fn get_data_start_cluster(&self, format: &FatFormat) -> u32 {
+        match format {
+            // Note that FAT-12 and FAT-16 can use the upper 16 bits for other purposes.
+            FatFormat::Fat12 | FatFormat::Fat16 => self.data_start_cluster as u32,
+            FatFormat::Fat32 => {
+                ((self.data_start_cluster_upper as u32) << 16) | (self.data_start_cluster as u32)
+            }
+        }
+    }
+
     /// Reads the directory entry from a buffer.
     pub fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
         if data.len() < 32 {
@@ -121,6 +137,7 @@ impl FatShortNameDirectoryEntry {
         self.access_time = DateTime::FatDate(FatDate::from_bytes(&data[18..20]));
         self.modification_time = DateTime::FatTimeDate(FatTimeDate::from_bytes(&data[22..26]));
 
+        self.data_start_cluster_upper = bytes_to_u16_le!(data, 20);
         self.data_start_cluster = bytes_to_u16_le!(data, 26);
         self.data_size = bytes_to_u32_le!(data, 28);
 
-- 
2.43.0


From c145c8cc4ad5774ae7de7f4e741bc2f5704d7efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 35/86] fix: account for the root directory and reserved
 entries in the FAT cluster count

---
 keramics-formats/src/fat/file_system.rs | 30 +++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/fat/file_system.rs b/keramics-formats/src/fat/file_system.rs
index b0f846a..5cc8e90 100644
--- a/keramics-formats/src/fat/file_system.rs
+++ b/keramics-formats/src/fat/file_system.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::collections::HashMap;
 use std::io::SeekFrom;
 use std::sync::Arc;
@@ -368,11 +369,24 @@ impl FatFileSystem {
         if !boot_record.volume_label.is_empty() {
             self.volume_label = Some(boot_record.volume_label)
         }
-        let mut number_of_clusters: u64 = (boot_record.number_of_sectors as u64)
-            - (boot_record.number_of_reserved_sectors as u64);
-        number_of_clusters -= (boot_record.number_of_allocation_tables as u64)
-            * (boot_record.allocation_table_size as u64);
-        number_of_clusters /= boot_record.sectors_per_cluster_block as u64;
+        let number_of_root_directory_sectors: u64 =
+            ((boot_record.number_of_root_directory_entries as u64) * 32)
+                .div_ceil(boot_record.bytes_per_sector as u64);
+
+        let number_of_metadata_sectors: u64 = (boot_record.number_of_reserved_sectors as u64)
+            + ((boot_record.number_of_allocation_tables as u64)
+                * (boot_record.allocation_table_size as u64))
+            + number_of_root_directory_sectors;
+
+        if number_of_metadata_sectors > boot_record.number_of_sectors as u64 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported number of sectors: {} value out of bounds",
+                boot_record.number_of_sectors
+            )));
+        }
+        let number_of_clusters: u64 = ((boot_record.number_of_sectors as u64)
+            - number_of_metadata_sectors)
+            / (boot_record.sectors_per_cluster_block as u64);
 
         self.format =
             if self.root_directory_cluster_block_number != 0 || number_of_clusters >= 65525 {
@@ -396,12 +410,14 @@ impl FatFileSystem {
         if self.root_directory_cluster_block_number == 0 {
             self.root_directory_offset = self.first_cluster_offset;
             self.root_directory_size = (boot_record.number_of_root_directory_entries as u32) * 32;
-            self.first_cluster_offset += self.root_directory_size as u64;
+            self.first_cluster_offset +=
+                number_of_root_directory_sectors * (boot_record.bytes_per_sector as u64);
         }
         self.block_allocation_table = Some(Arc::new(FatBlockAllocationTable::new(
             &self.format,
             allocation_table_offset,
-            number_of_clusters as u32,
+            // Note that the first 2 entries of the allocation table are reserved.
+            min(number_of_clusters + 2, u32::MAX as u64) as u32,
             self.first_cluster_offset,
             self.cluster_block_size,
         )));
-- 
2.43.0


From 017539e6b4d7e54a2a2578c7a7ad9f3412e03662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 36/86] fix: split block tree leaf nodes to insert block ranges
 smaller than their elements

---
 keramics-formats/src/block_tree_node.rs | 51 +++++++++++++++++++------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/keramics-formats/src/block_tree_node.rs b/keramics-formats/src/block_tree_node.rs
index ada2d21..2eda244 100644
--- a/keramics-formats/src/block_tree_node.rs
+++ b/keramics-formats/src/block_tree_node.rs
@@ -53,6 +53,39 @@ impl<T> BlockTreeNode<T> {
         }
     }
 
+    /// Splits a leaf node into a branch node with smaller leaf nodes.
+    fn split(&mut self, elements_per_node: u64, leaf_value_size: u64) {
+        let mut sub_node_element_size: u64 = leaf_value_size;
+
+        while self.element_size / sub_node_element_size > elements_per_node {
+            sub_node_element_size *= elements_per_node;
+        }
+        let mut sub_nodes: Vec<Option<BlockTreeNode<T>>> = Vec::new();
+
+        for value_index in 0..self.values.len() {
+            let mut sub_node: Option<BlockTreeNode<T>> = None;
+
+            if self.values[value_index].is_some() {
+                let value: &Arc<T> = self.values[value_index].as_ref().unwrap();
+                let sub_node_offset: u64 = self.offset + ((value_index as u64) * self.element_size);
+
+                let mut leaf_node: BlockTreeNode<T> = BlockTreeNode::new(
+                    &BlockTreeNodeType::Leaf,
+                    sub_node_offset,
+                    sub_node_element_size,
+                );
+                for _ in 0..elements_per_node {
+                    leaf_node.values.push(Some(value.clone()));
+                }
+                sub_node = Some(leaf_node);
+            }
+            sub_nodes.push(sub_node);
+        }
+        self.node_type = BlockTreeNodeType::Branch;
+        self.sub_nodes = sub_nodes;
+        self.values = Vec::new();
+    }
+
     /// Inserts a (leaf) value.
     pub fn insert_value(
         &mut self,
@@ -62,6 +95,12 @@ impl<T> BlockTreeNode<T> {
         size: u64,
         value: Arc<T>,
     ) -> Result<(), InsertError> {
+        if self.node_type == BlockTreeNodeType::Leaf
+            && ((offset - self.offset) % self.element_size != 0 || size % self.element_size != 0)
+        {
+            // The elements of the leaf node are too large to represent the range.
+            self.split(elements_per_node, leaf_value_size);
+        }
         if self.node_type == BlockTreeNodeType::Branch {
             if self.sub_nodes.len() == 0 {
                 self.sub_nodes = (0..elements_per_node).map(|_| None).collect();
@@ -105,18 +144,6 @@ impl<T> BlockTreeNode<T> {
                 )?;
             }
         } else {
-            if (offset - self.offset) % self.element_size != 0 {
-                return Err(InsertError::new(format!(
-                    "Offset: {} not a multitude of node element size: {}",
-                    offset, self.element_size
-                )));
-            }
-            if size % self.element_size != 0 {
-                return Err(InsertError::new(format!(
-                    "Size: {} not a multitude of node element size: {}",
-                    size, self.element_size
-                )));
-            }
             if self.values.len() == 0 {
                 self.values = (0..elements_per_node).map(|_| None).collect();
             }
-- 
2.43.0


From 160dd6028caed446e42ff3175591b80d22101bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 37/86] fix: continue a short read of a sparse image band where
 it ended

---
 keramics-formats/src/sparseimage/file.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/sparseimage/file.rs b/keramics-formats/src/sparseimage/file.rs
index 4ef5b7b..49d42a8 100644
--- a/keramics-formats/src/sparseimage/file.rs
+++ b/keramics-formats/src/sparseimage/file.rs
@@ -198,15 +198,14 @@ impl SparseImageFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let block_number: u64 = media_offset / (self.block_size as u64);
-        let block_offset: u64 = block_number * (self.block_size as u64);
-        let mut range_relative_offset: u64 = media_offset - block_offset;
-        let mut range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
                 break;
             }
+            let range_relative_offset: u64 = media_offset % (self.block_size as u64);
+            let range_remainder_size: u64 = (self.block_size as u64) - range_relative_offset;
+
             let mut range_read_size: usize = read_size - data_offset;
 
             if (range_read_size as u64) > range_remainder_size {
@@ -243,9 +242,6 @@ impl SparseImageFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            range_relative_offset = 0;
-            range_remainder_size = self.block_size as u64;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From cd532594abfff09ef754cd3ca1428ae61de8ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 38/86] fix: read VHD sector bitmaps from the most to the least
 significant bit

---
 keramics-formats/src/vhd/sector_bitmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/sector_bitmap.rs b/keramics-formats/src/vhd/sector_bitmap.rs
index 366ea4d..fe47d00 100644
--- a/keramics-formats/src/vhd/sector_bitmap.rs
+++ b/keramics-formats/src/vhd/sector_bitmap.rs
@@ -70,9 +70,10 @@ impl VhdSectorBitmap {
         for data_offset in 0..data.len() {
             let mut byte_value: u8 = data[data_offset];
 
-            for _ in (0..8).rev() {
-                let bit_value: u8 = byte_value & 0x01;
-                byte_value >>= 1;
+            // Note that the most significant bit represents the first sector.
+            for _ in 0..8 {
+                let bit_value: u8 = byte_value >> 7;
+                byte_value <<= 1;
 
                 if bit_value != range_bit_value {
                     self.ranges.push(VhdSectorBitmapRange::new(
-- 
2.43.0


From 7a8cf67fff52a2db7b360c29bee7551f725c2b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 39/86] fix: determine the VHD block number from the media
 offset when reading multiple ranges

---
 keramics-formats/src/vhd/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 0020afc..9e40dcf 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -337,7 +337,6 @@ impl VhdFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -347,6 +346,8 @@ impl VhdFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -417,8 +418,6 @@ impl VhdFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From 81289dfdc157b7a1cc9190acaf7a4eeac2dea443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 40/86] fix: limit the VHD sector bitmap ranges to the size of
 the block

---
 keramics-formats/src/vhd/file.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/keramics-formats/src/vhd/file.rs b/keramics-formats/src/vhd/file.rs
index 9e40dcf..dd906b9 100644
--- a/keramics-formats/src/vhd/file.rs
+++ b/keramics-formats/src/vhd/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -185,7 +186,7 @@ impl VhdFile {
                 self.parent_name = Some(dynamic_disk_header.parent_name);
             }
             let sectors_ber_block: u32 = dynamic_disk_header.block_size / 512;
-            self.sector_bitmap_size = (sectors_ber_block / 8).div_ceil(512) * 512;
+            self.sector_bitmap_size = sectors_ber_block.div_ceil(8).div_ceil(512) * 512;
 
             self.block_allocation_table = Some(VhdBlockAllocationTable::new(
                 dynamic_disk_header.block_table_offset,
@@ -291,32 +292,35 @@ impl VhdFile {
         let mut range_media_offset: u64 = block_number * (self.block_size as u64);
         let mut range_data_offset: u64 = sector_bitmap_offset + (self.sector_bitmap_size as u64);
 
+        let block_end_offset: u64 = range_media_offset + (self.block_size as u64);
+
         for bitmap_range in sector_bitmap.ranges.iter() {
+            // Note that the sector bitmap can contain more bits than there are sectors in the block.
+            let range_size: u64 = min(bitmap_range.size, block_end_offset - range_media_offset);
+
+            if range_size == 0 {
+                break;
+            }
             let block_range: VhdBlockRange = if bitmap_range.is_set {
                 VhdBlockRange::new(
                     range_media_offset,
                     range_data_offset,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InFile,
                 )
             } else if self.disk_type == VhdDiskType::Dynamic {
-                VhdBlockRange::new(
-                    range_media_offset,
-                    0,
-                    bitmap_range.size,
-                    VhdBlockRangeType::Sparse,
-                )
+                VhdBlockRange::new(range_media_offset, 0, range_size, VhdBlockRangeType::Sparse)
             } else {
                 VhdBlockRange::new(
                     range_media_offset,
                     0,
-                    bitmap_range.size,
+                    range_size,
                     VhdBlockRangeType::InParent,
                 )
             };
             match self
                 .block_tree
-                .insert_value(range_media_offset, bitmap_range.size, block_range)
+                .insert_value(range_media_offset, range_size, block_range)
             {
                 Ok(_) => {}
                 Err(error) => {
@@ -326,8 +330,8 @@ impl VhdFile {
                     ));
                 }
             };
-            range_media_offset += bitmap_range.size;
-            range_data_offset += bitmap_range.size;
+            range_media_offset += range_size;
+            range_data_offset += range_size;
         }
         Ok(())
     }
-- 
2.43.0


From 59a5249f7791e35707c4f427e7a1f06b00423ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 41/86] fix: reject a VHD block size that is not a multiple of
 the sector size

---
 keramics-formats/src/vhd/dynamic_disk_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/dynamic_disk_header.rs b/keramics-formats/src/vhd/dynamic_disk_header.rs
index 26a7def..019af31 100644
--- a/keramics-formats/src/vhd/dynamic_disk_header.rs
+++ b/keramics-formats/src/vhd/dynamic_disk_header.rs
@@ -104,7 +104,7 @@ impl VhdDynamicDiskHeader {
 
         // TODO: calculate and compare checksum.
 
-        if self.block_size == 0 {
+        if self.block_size == 0 || self.block_size % 512 != 0 {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid block size: {} value out of bounds",
                 self.block_size
-- 
2.43.0


From fd73964f36bf96993e3d054c638aa4cf1980e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 42/86] fix: check for overflow of the VHD and VHDX block
 allocation table entry offset

---
 keramics-formats/src/vhd/block_allocation_table.rs  | 10 +++++++++-
 keramics-formats/src/vhdx/block_allocation_table.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/vhd/block_allocation_table.rs b/keramics-formats/src/vhd/block_allocation_table.rs
index f364c24..41ee309 100644
--- a/keramics-formats/src/vhd/block_allocation_table.rs
+++ b/keramics-formats/src/vhd/block_allocation_table.rs
@@ -82,7 +82,15 @@ impl VhdBlockAllocationTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 4);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 4) {
+            Some(entry_offset) => entry_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid entry: {} offset value out of bounds",
+                    entry_index
+                )));
+            }
+        };
         let mut data: [u8; 4] = [0; 4];
 
         keramics_core::data_stream_read_exact_at_position!(
diff --git a/keramics-formats/src/vhdx/block_allocation_table.rs b/keramics-formats/src/vhdx/block_allocation_table.rs
index 3cf7484..d487f8f 100644
--- a/keramics-formats/src/vhdx/block_allocation_table.rs
+++ b/keramics-formats/src/vhdx/block_allocation_table.rs
@@ -96,7 +96,15 @@ impl VhdxBlockAllocationTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 8);
+        let entry_offset: u64 = match self.offset.checked_add(entry_index as u64 * 8) {
+            Some(entry_offset) => entry_offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid entry: {} offset value out of bounds",
+                    entry_index
+                )));
+            }
+        };
         let mut data: [u8; 8] = [0; 8];
 
         keramics_core::data_stream_read_exact_at_position!(
-- 
2.43.0


From cc4630cc43419e724b8b6da81a1e3273975f358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 43/86] fix: determine the VHDX block number from the media
 offset when reading multiple ranges

---
 keramics-formats/src/vhdx/file.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 3aaaad3..2fa3cca 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -717,7 +717,6 @@ impl VhdxFile {
         let read_size: usize = data.len();
         let mut data_offset: usize = 0;
         let mut media_offset: u64 = self.media_offset;
-        let mut block_number: u64 = media_offset / (self.block_size as u64);
 
         while data_offset < read_size {
             if media_offset >= self.media_size {
@@ -727,6 +726,8 @@ impl VhdxFile {
                 self.block_tree.get_value(media_offset);
 
             if block_tree_value.is_none() {
+                let block_number: u64 = media_offset / (self.block_size as u64);
+
                 match self.read_block_allocation_entry(block_number) {
                     Ok(_) => {}
                     Err(mut error) => {
@@ -797,8 +798,6 @@ impl VhdxFile {
             }
             data_offset += range_read_count;
             media_offset += range_read_count as u64;
-
-            block_number += 1;
         }
         Ok(data_offset)
     }
-- 
2.43.0


From 9dc5f01fb0acf0597fcce7ebdee97465eb0a22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 44/86] fix: read VHDX blocks that are not present in a
 differential image from its parent

---
 keramics-formats/src/vhdx/file.rs | 41 +++++++++++++++++++------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 2fa3cca..a47a7bb 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -590,7 +590,7 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
-        if self.disk_type == VhdxDiskType::Differential && entry.block_state != 6 {
+        if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
                 Err(mut error) => {
@@ -601,21 +601,30 @@ impl VhdxFile {
         } else {
             let block_media_offset: u64 = block_number * (self.block_size as u64);
 
-            let block_range: VhdxBlockRange = if entry.block_state < 6 {
-                VhdxBlockRange::new(
-                    block_media_offset,
-                    0,
-                    self.block_size as u64,
-                    VhdxBlockRangeType::Sparse,
-                )
-            } else {
-                VhdxBlockRange::new(
-                    block_media_offset,
-                    entry.block_offset,
-                    self.block_size as u64,
-                    VhdxBlockRangeType::InFile,
-                )
-            };
+            // Note that a block that is not present in a differential image is stored in its parent.
+            let block_range: VhdxBlockRange =
+                if self.disk_type == VhdxDiskType::Differential && entry.block_state == 0 {
+                    VhdxBlockRange::new(
+                        block_media_offset,
+                        0,
+                        self.block_size as u64,
+                        VhdxBlockRangeType::InParent,
+                    )
+                } else if entry.block_state < 6 {
+                    VhdxBlockRange::new(
+                        block_media_offset,
+                        0,
+                        self.block_size as u64,
+                        VhdxBlockRangeType::Sparse,
+                    )
+                } else {
+                    VhdxBlockRange::new(
+                        block_media_offset,
+                        entry.block_offset,
+                        self.block_size as u64,
+                        VhdxBlockRangeType::InFile,
+                    )
+                };
             match self.block_tree.insert_value(
                 block_media_offset,
                 self.block_size as u64,
-- 
2.43.0


From 29655f54300ddc7117e24fa363bcdd264944f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 45/86] fix: use the current instead of the original size of a
 VHD disk

---
 keramics-formats/src/vhd/file_footer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhd/file_footer.rs b/keramics-formats/src/vhd/file_footer.rs
index 993b73d..15e6c07 100644
--- a/keramics-formats/src/vhd/file_footer.rs
+++ b/keramics-formats/src/vhd/file_footer.rs
@@ -92,7 +92,7 @@ impl VhdFileFooter {
             )));
         }
         self.next_offset = bytes_to_u64_be!(data, 16);
-        self.data_size = bytes_to_u64_be!(data, 40);
+        self.data_size = bytes_to_u64_be!(data, 48);
         self.disk_type = bytes_to_u32_be!(data, 60);
         self.identifier = Uuid::from_be_bytes(&data[68..84]);
 
-- 
2.43.0


From 8c97ffd22460e91de5a63949213088503c676507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 46/86] fix: check the number of VHDX metadata table entries

---
 keramics-formats/src/vhdx/metadata_table_header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/vhdx/metadata_table_header.rs b/keramics-formats/src/vhdx/metadata_table_header.rs
index 43cacb8..4f5cc11 100644
--- a/keramics-formats/src/vhdx/metadata_table_header.rs
+++ b/keramics-formats/src/vhdx/metadata_table_header.rs
@@ -56,6 +56,12 @@ impl VhdxMetadataTableHeader {
         }
         self.number_of_entries = bytes_to_u16_le!(data, 10);
 
+        if self.number_of_entries > 2047 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                self.number_of_entries,
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 725eacd0cd702126561faf1a83b0c4486ac36d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 47/86] fix: check for overflow of VHDX metadata item and block
 offsets

---
 keramics-formats/src/vhdx/file.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index a47a7bb..1d9ca28 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -275,6 +275,13 @@ impl VhdxFile {
         data_stream: &DataStreamReference,
         metadata_region: &VhdxRegionTableEntry,
     ) -> Result<(), ErrorTrace> {
+        // Note that metadata items are stored at most 4 GiB after the start of the metadata region.
+        if metadata_region.data_offset > u64::MAX - (u32::MAX as u64) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid metadata region offset: 0x{:08x} value out of bounds",
+                metadata_region.data_offset
+            )));
+        }
         let mut metadata_table: VhdxMetadataTable = VhdxMetadataTable::new();
 
         match metadata_table
@@ -590,6 +597,12 @@ impl VhdxFile {
                     return Err(error);
                 }
             };
+        if entry.block_state >= 6 && entry.block_offset > u64::MAX - (self.block_size as u64) {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid block: {} offset: 0x{:08x} value out of bounds",
+                block_number, entry.block_offset
+            )));
+        }
         if self.disk_type == VhdxDiskType::Differential && entry.block_state == 7 {
             match self.read_sector_bitmap(block_number, entry.block_offset) {
                 Ok(_) => {}
-- 
2.43.0


From 07803935b0c7550c7c2ff846e0dfc0f3e8aacf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 48/86] fix: do not accept partially read VHDX metadata items

---
 keramics-formats/src/vhdx/file.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 1d9ca28..6cdadcc 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -312,7 +312,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -364,7 +364,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -397,7 +397,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -439,7 +439,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
@@ -476,7 +476,7 @@ impl VhdxFile {
                 let metadata_item_offset: u64 =
                     metadata_region.data_offset + metadata_table_entry.item_offset as u64;
 
-                keramics_core::data_stream_read_at_position!(
+                keramics_core::data_stream_read_exact_at_position!(
                     data_stream,
                     &mut data,
                     SeekFrom::Start(metadata_item_offset)
-- 
2.43.0


From 5fbfb96d521edd3e0b46983085b1c3928bd19b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 49/86] fix: reject a VHDX block size that is not a power of 2

---
 keramics-formats/src/vhdx/file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index 6cdadcc..f513804 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -336,7 +336,10 @@ impl VhdxFile {
                         file_parameters_flags
                     ));
                 }
-                if self.block_size < 1024 * 1024 || self.block_size > 256 * 1024 * 1024 {
+                if self.block_size < 1024 * 1024
+                    || self.block_size > 256 * 1024 * 1024
+                    || !self.block_size.is_power_of_two()
+                {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid block size: {} value out of bounds",
                         self.block_size
-- 
2.43.0


From 9adc6b04208d87e29442cafcdd8a7c4b9052efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 50/86] fix: account for the sector bitmap entries in the block
 allocation table of fixed VHDX disks

---
 keramics-formats/src/vhdx/file.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/vhdx/file.rs b/keramics-formats/src/vhdx/file.rs
index f513804..533a925 100644
--- a/keramics-formats/src/vhdx/file.rs
+++ b/keramics-formats/src/vhdx/file.rs
@@ -580,12 +580,11 @@ impl VhdxFile {
                 return Err(keramics_core::error_trace_new!("Missing data stream"));
             }
         };
-        let table_entry: u64 = if self.disk_type == VhdxDiskType::Fixed {
-            block_number
-        } else {
-            ((block_number / self.entries_per_chunk) * (self.entries_per_chunk + 1))
-                + (block_number % self.entries_per_chunk)
-        };
+        // Note that the entries of the sector bitmaps are present in all disk types.
+        let table_entry: u64 = ((block_number / self.entries_per_chunk)
+            * (self.entries_per_chunk + 1))
+            + (block_number % self.entries_per_chunk);
+
         let block_allocation_table: &VhdxBlockAllocationTable =
             self.block_allocation_table.as_ref().unwrap();
 
-- 
2.43.0


From 6c105770d65aa226ddc1e3bd532ee46d31933b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 51/86] fix: reject VHD and VHDX images that are a parent of
 themselves

---
 keramics-formats/src/vhd/image.rs  | 11 +++++++++++
 keramics-formats/src/vhdx/image.rs | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/keramics-formats/src/vhd/image.rs b/keramics-formats/src/vhd/image.rs
index 43c4e6c..0c4afb8 100644
--- a/keramics-formats/src/vhd/image.rs
+++ b/keramics-formats/src/vhd/image.rs
@@ -127,6 +127,17 @@ impl VhdImage {
                     return Err(error);
                 }
             }
+            // Note that a file cannot be a parent of itself.
+            if parent_file.identifier == file.identifier
+                || files
+                    .iter()
+                    .any(|child_file| parent_file.identifier == child_file.identifier)
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid parent file: {} value already used",
+                    parent_file_name
+                )));
+            }
             files.push(file);
 
             file = parent_file;
diff --git a/keramics-formats/src/vhdx/image.rs b/keramics-formats/src/vhdx/image.rs
index f0a9fd3..fd163f4 100644
--- a/keramics-formats/src/vhdx/image.rs
+++ b/keramics-formats/src/vhdx/image.rs
@@ -127,6 +127,17 @@ impl VhdxImage {
                     return Err(error);
                 }
             }
+            // Note that a file cannot be a parent of itself.
+            if parent_file.identifier == file.identifier
+                || files
+                    .iter()
+                    .any(|child_file| parent_file.identifier == child_file.identifier)
+            {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid parent file: {} value already used",
+                    parent_file_name
+                )));
+            }
             files.push(file);
 
             file = parent_file;
-- 
2.43.0


From 5ae13114cd3ee20fbad96bb2b64d3b8cc8f8a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 52/86] fix: return an error instead of panicking on compressed
 QCOW cluster blocks

---
 keramics-formats/src/qcow/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 46cbc15..a1d57b7 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -477,7 +477,9 @@ impl QcowFile {
             let range_read_count: usize = match block_range.range_type {
                 QcowBlockRangeType::Compressed => {
                     // TODO: add compression support.
-                    todo!();
+                    return Err(keramics_core::error_trace_new!(
+                        "Unsupported compressed cluster block"
+                    ));
                 }
                 QcowBlockRangeType::InBackingFile => {
                     let backing_file: &Arc<RwLock<QcowFile>> = match self.backing_file.as_ref() {
-- 
2.43.0


From 4cb90ec307a942daf07c2e9d850a6517850d205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 53/86] fix: check for underflow of the QCOW compression bit
 shift

---
 keramics-formats/src/qcow/file_header_v2.rs | 2 +-
 keramics-formats/src/qcow/file_header_v3.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/qcow/file_header_v2.rs b/keramics-formats/src/qcow/file_header_v2.rs
index 7967a25..4360a05 100644
--- a/keramics-formats/src/qcow/file_header_v2.rs
+++ b/keramics-formats/src/qcow/file_header_v2.rs
@@ -70,7 +70,7 @@ impl QcowFileHeaderV2 {
         file_header.snapshots_offset = bytes_to_u64_be!(data, 64);
 
         if file_header.number_of_cluster_block_bits <= 8
-            || file_header.number_of_cluster_block_bits > 63
+            || file_header.number_of_cluster_block_bits > 62
         {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid number of cluster block bits: {} value out of bounds",
diff --git a/keramics-formats/src/qcow/file_header_v3.rs b/keramics-formats/src/qcow/file_header_v3.rs
index 6b2a84e..385aef4 100644
--- a/keramics-formats/src/qcow/file_header_v3.rs
+++ b/keramics-formats/src/qcow/file_header_v3.rs
@@ -97,7 +97,7 @@ impl QcowFileHeaderV3 {
         file_header.compression_method = data[104];
 
         if file_header.number_of_cluster_block_bits <= 8
-            || file_header.number_of_cluster_block_bits > 63
+            || file_header.number_of_cluster_block_bits > 62
         {
             return Err(keramics_core::error_trace_new!(format!(
                 "Invalid number of cluster block bits: {} value out of bounds",
-- 
2.43.0


From e7731eecafc860677a2d400ec26f5e196caae4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 54/86] fix: check for overflow of the QCOW media size

---
 keramics-formats/src/qcow/file.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index a1d57b7..e2d6c9c 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -246,8 +246,16 @@ impl QcowFile {
             level1_table_number_of_references as u32,
         );
 
-        let block_tree_data_size: u64 =
-            self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
+        let number_of_cluster_blocks: u64 = self.media_size.div_ceil(self.cluster_block_size);
+
+        if number_of_cluster_blocks > u64::MAX / self.cluster_block_size {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid media size: {} value out of bounds",
+                self.media_size
+            )));
+        }
+        let block_tree_data_size: u64 = number_of_cluster_blocks * self.cluster_block_size;
+
         self.block_tree = BlockTree::<QcowBlockRange>::new(
             block_tree_data_size,
             self.level2_table_number_of_references,
-- 
2.43.0


From eec99d5de9ea53587fbf10dc2d73456f2ec06683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 55/86] fix: do not truncate the index of QCOW cluster table
 entries and check for overflow of their offset

---
 keramics-formats/src/qcow/cluster_table.rs | 14 ++++++++++----
 keramics-formats/src/qcow/file.rs          | 12 +++++-------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/keramics-formats/src/qcow/cluster_table.rs b/keramics-formats/src/qcow/cluster_table.rs
index 6d1cca0..ceed537 100644
--- a/keramics-formats/src/qcow/cluster_table.rs
+++ b/keramics-formats/src/qcow/cluster_table.rs
@@ -53,7 +53,7 @@ impl QcowClusterTableEntry {
 /// QEMU Copy-On-Write (QCOW) cluster table.
 pub struct QcowClusterTable {
     offset: u64,
-    number_of_entries: u32,
+    number_of_entries: u64,
 }
 
 impl QcowClusterTable {
@@ -66,7 +66,7 @@ impl QcowClusterTable {
     }
 
     /// Creates a new cluster table.
-    pub fn set_range(&mut self, offset: u64, number_of_entries: u32) {
+    pub fn set_range(&mut self, offset: u64, number_of_entries: u64) {
         self.offset = offset;
         self.number_of_entries = number_of_entries;
     }
@@ -75,7 +75,7 @@ impl QcowClusterTable {
     pub fn read_entry(
         &self,
         data_stream: &DataStreamReference,
-        entry_index: u32,
+        entry_index: u64,
     ) -> Result<QcowClusterTableEntry, ErrorTrace> {
         if entry_index >= self.number_of_entries {
             return Err(keramics_core::error_trace_new!(format!(
@@ -83,7 +83,13 @@ impl QcowClusterTable {
                 entry_index
             )));
         }
-        let entry_offset: u64 = self.offset + (entry_index as u64 * 8);
+        if entry_index > (u64::MAX - self.offset) / 8 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid offset of entry: {} value out of bounds",
+                entry_index
+            )));
+        }
+        let entry_offset: u64 = self.offset + (entry_index * 8);
         let mut data: [u8; 8] = [0; 8];
 
         keramics_core::data_stream_read_exact_at_position!(
diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index e2d6c9c..89958f9 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -243,7 +243,7 @@ impl QcowFile {
         }
         self.level1_cluster_table.set_range(
             file_header.level1_table_offset,
-            level1_table_number_of_references as u32,
+            level1_table_number_of_references,
         );
 
         let number_of_cluster_blocks: u64 = self.media_size.div_ceil(self.cluster_block_size);
@@ -338,7 +338,7 @@ impl QcowFile {
 
         let level1_entry: QcowClusterTableEntry = match self
             .level1_cluster_table
-            .read_entry(data_stream, level1_table_index as u32)
+            .read_entry(data_stream, level1_table_index)
         {
             Ok(cluster_table_entry) => cluster_table_entry,
             Err(mut error) => {
@@ -374,16 +374,14 @@ impl QcowFile {
                 }
             };
         } else {
-            self.level2_cluster_table.set_range(
-                level2_table_offset,
-                self.level2_table_number_of_references as u32,
-            );
+            self.level2_cluster_table
+                .set_range(level2_table_offset, self.level2_table_number_of_references);
             let level2_table_index: u64 =
                 (media_offset >> self.number_of_cluster_block_bits) & self.level2_index_bit_mask;
 
             let level2_entry: QcowClusterTableEntry = match self
                 .level2_cluster_table
-                .read_entry(data_stream, level2_table_index as u32)
+                .read_entry(data_stream, level2_table_index)
             {
                 Ok(cluster_table_entry) => cluster_table_entry,
                 Err(mut error) => {
-- 
2.43.0


From 6e2727ef328741aaa63f208bac1119d586238bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 56/86] fix: read QCOW ranges without a level 2 table up to the
 media size and from the backing file

---
 keramics-formats/src/qcow/file.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 89958f9..c33fba1 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::cmp::min;
 use std::io::SeekFrom;
 use std::sync::{Arc, RwLock};
 
@@ -353,14 +354,20 @@ impl QcowFile {
         let level2_table_offset: u64 = level1_entry.reference & self.offset_bit_mask;
 
         if level2_table_offset == 0 {
-            let range_media_size: u64 = 1 << self.level1_index_bit_shift;
-
-            let block_range: QcowBlockRange = QcowBlockRange::new(
-                level1_media_offset,
-                0,
-                range_media_size,
-                QcowBlockRangeType::Sparse,
+            // Note that the last range can exceed the media size.
+            let block_tree_data_size: u64 =
+                self.media_size.div_ceil(self.cluster_block_size) * self.cluster_block_size;
+            let range_media_size: u64 = min(
+                1 << self.level1_index_bit_shift,
+                block_tree_data_size - level1_media_offset,
             );
+            let range_type: QcowBlockRangeType = if self.backing_file_name.is_some() {
+                QcowBlockRangeType::InBackingFile
+            } else {
+                QcowBlockRangeType::Sparse
+            };
+            let block_range: QcowBlockRange =
+                QcowBlockRange::new(level1_media_offset, 0, range_media_size, range_type);
             match self
                 .block_tree
                 .insert_value(level1_media_offset, range_media_size, block_range)
-- 
2.43.0


From 6ba916f815bea61b92b8e7526d1811ea16e65acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 57/86] fix: read QCOW version 3 cluster blocks that are marked
 as zeros as such

---
 keramics-formats/src/qcow/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index c33fba1..705898c 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -402,7 +402,14 @@ impl QcowFile {
             let level2_media_offset: u64 =
                 level1_media_offset + (level2_table_index * self.cluster_block_size);
             let block_data_offset: u64 = level2_entry.reference & self.offset_bit_mask;
-            let range_type: QcowBlockRangeType = if block_data_offset == 0 {
+            // Note that format version 3 marks cluster blocks that read as zeros.
+            let is_zero_block: bool = self.format_version == 3
+                && level2_entry.reference & self.compression_flag_bit_mask == 0
+                && level2_entry.reference & 1 != 0;
+
+            let range_type: QcowBlockRangeType = if is_zero_block {
+                QcowBlockRangeType::Sparse
+            } else if block_data_offset == 0 {
                 if self.backing_file_name.is_some() {
                     QcowBlockRangeType::InBackingFile
                 } else {
-- 
2.43.0


From 38e851e2d54b05a4f1ceae11b3e1b8c212162da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 58/86] fix: read the data after the end of a QCOW backing file
 as zeros

---
 keramics-formats/src/qcow/file.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/qcow/file.rs b/keramics-formats/src/qcow/file.rs
index 705898c..a90adb4 100644
--- a/keramics-formats/src/qcow/file.rs
+++ b/keramics-formats/src/qcow/file.rs
@@ -508,12 +508,28 @@ impl QcowFile {
                             return Err(keramics_core::error_trace_new!("Missing backing file"));
                         }
                     };
-                    let read_count: usize = keramics_core::data_stream_read_at_position!(
-                        backing_file,
-                        &mut data[data_offset..data_end_offset],
-                        SeekFrom::Start(media_offset)
-                    );
-                    read_count
+                    let backing_media_size: u64 = match backing_file.read() {
+                        Ok(file) => file.media_size,
+                        Err(error) => {
+                            return Err(keramics_core::error_trace_new_with_error!(
+                                "Unable to obtain read lock on backing file",
+                                error
+                            ));
+                        }
+                    };
+                    // Note that the data after the end of the backing file reads as zeros.
+                    if media_offset >= backing_media_size {
+                        data[data_offset..data_end_offset].fill(0);
+
+                        range_read_size
+                    } else {
+                        let read_count: usize = keramics_core::data_stream_read_at_position!(
+                            backing_file,
+                            &mut data[data_offset..data_end_offset],
+                            SeekFrom::Start(media_offset)
+                        );
+                        read_count
+                    }
                 }
                 QcowBlockRangeType::InFile => {
                     let data_stream: &DataStreamReference = match self.data_stream.as_ref() {
-- 
2.43.0


From 3a3441b3951eb1beaa5cb56060626077ec94c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 59/86] fix: reject QCOW images that are a backing file of
 themselves

---
 keramics-formats/src/qcow/image.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/keramics-formats/src/qcow/image.rs b/keramics-formats/src/qcow/image.rs
index 33a712a..8fcd49f 100644
--- a/keramics-formats/src/qcow/image.rs
+++ b/keramics-formats/src/qcow/image.rs
@@ -11,6 +11,7 @@
  * under the License.
  */
 
+use std::collections::HashSet;
 use std::sync::{Arc, RwLock};
 
 use keramics_core::{DataStreamReference, ErrorTrace};
@@ -57,6 +58,7 @@ impl QcowImage {
         file_name: &PathComponent,
     ) -> Result<(), ErrorTrace> {
         let mut files: Vec<QcowFile> = Vec::new();
+        let mut backing_file_names: HashSet<String> = HashSet::new();
 
         let path_components: [PathComponent; 1] = [file_name.clone()];
         let result: Option<DataStreamReference> =
@@ -91,6 +93,13 @@ impl QcowImage {
         while let Some(file_name) = file.get_backing_file_name() {
             let backing_file_name: String = file_name.to_string();
 
+            // Note that a file cannot be a backing file of itself.
+            if !backing_file_names.insert(backing_file_name.clone()) {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid backing file: {} value already used",
+                    backing_file_name
+                )));
+            }
             let path_components: [PathComponent; 1] = [PathComponent::from(&backing_file_name)];
             let result: Option<DataStreamReference> =
                 match file_resolver.get_data_stream(&path_components) {
-- 
2.43.0


From 1714c3b84016c7aade40dd594e28928b740f1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 60/86] fix: do not read the compression method outside the
 QCOW file header

---
 keramics-formats/src/qcow/file_header_v3.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/qcow/file_header_v3.rs b/keramics-formats/src/qcow/file_header_v3.rs
index 385aef4..b64af7a 100644
--- a/keramics-formats/src/qcow/file_header_v3.rs
+++ b/keramics-formats/src/qcow/file_header_v3.rs
@@ -94,7 +94,6 @@ impl QcowFileHeaderV3 {
         file_header.number_of_snapshots = bytes_to_u32_be!(data, 60);
         file_header.snapshots_offset = bytes_to_u64_be!(data, 64);
         file_header.header_size = bytes_to_u32_be!(data, 100);
-        file_header.compression_method = data[104];
 
         if file_header.number_of_cluster_block_bits <= 8
             || file_header.number_of_cluster_block_bits > 62
@@ -110,6 +109,10 @@ impl QcowFileHeaderV3 {
                 file_header.header_size
             )));
         }
+        // Note that a header of 104 bytes has no compression method.
+        if file_header.header_size >= 112 {
+            file_header.compression_method = data[104];
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 1741135e68d746fdb60fa1b3db6583f0c7d90d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 61/86] fix: check for overflow of the end of the UDIF data
 fork

---
 keramics-formats/src/udif/file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 3141cbc..fc05603 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -108,8 +108,18 @@ impl UdifFile {
         }
         self.bytes_per_sector = 512;
 
-        let data_fork_end_offset: u64 = file_footer.data_fork_offset + file_footer.data_fork_size;
-
+        let data_fork_end_offset: u64 = match file_footer
+            .data_fork_offset
+            .checked_add(file_footer.data_fork_size)
+        {
+            Some(offset) => offset,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid data fork size: {} value out of bounds",
+                    file_footer.data_fork_size
+                )));
+            }
+        };
         if file_footer.plist_size == 0 {
             self.data_fork_offset = file_footer.data_fork_offset;
             self.has_block_ranges = false;
-- 
2.43.0


From 7b064c7135702ad1edf54c9831b654e541139252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 62/86] fix: read all of the UDIF plist

---
 keramics-formats/src/udif/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index fc05603..5391985 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -132,7 +132,7 @@ impl UdifFile {
             }
             let mut data: Vec<u8> = vec![0; file_footer.plist_size as usize];
 
-            keramics_core::data_stream_read_at_position!(
+            keramics_core::data_stream_read_exact_at_position!(
                 data_stream,
                 &mut data,
                 SeekFrom::Start(file_footer.plist_offset)
-- 
2.43.0


From 7b872a9f3f963c6c05aeb698f64df69d4734a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 63/86] fix: check for overflow of the UDIF media size

---
 keramics-formats/src/udif/file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 5391985..72ddb2c 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -26,7 +26,8 @@ use super::block_table::UdifBlockTable;
 use super::enums::UdifCompressionMethod;
 use super::file_footer::UdifFileFooter;
 
-const MAXIMUM_NUMBER_OF_SECTORS: u64 = u64::MAX / 512;
+/// Maximum number of sectors, in whole block tree nodes.
+const MAXIMUM_NUMBER_OF_SECTORS: u64 = u64::MAX / 512 / 16384 * 16384;
 
 /// Universal Disk Image Format (UDIF) file.
 pub struct UdifFile {
@@ -239,7 +240,8 @@ impl UdifFile {
                         )));
                     }
                     if block_table_entry.number_of_sectors == 0
-                        || block_table_entry.number_of_sectors > MAXIMUM_NUMBER_OF_SECTORS
+                        || block_table_entry.number_of_sectors
+                            > MAXIMUM_NUMBER_OF_SECTORS - media_sector
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} number of sectors value out of bounds",
-- 
2.43.0


From 0c27ef7a7d204b29fcba9d65ff68224228a9eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 64/86] fix: do not check the data range of sparse UDIF block
 ranges

---
 keramics-formats/src/udif/file.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 72ddb2c..bcd1f85 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -248,16 +248,22 @@ impl UdifFile {
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_offset < file_footer.data_fork_offset
-                        || block_table_entry.data_offset >= data_fork_end_offset
+                    // Note that sparse block ranges have no data.
+                    let has_data: bool = block_table_entry.entry_type != 0x00000000
+                        && block_table_entry.entry_type != 0x00000002;
+
+                    if has_data
+                        && (block_table_entry.data_offset < file_footer.data_fork_offset
+                            || block_table_entry.data_offset >= data_fork_end_offset)
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data offset value out of bounds",
                             table_index, entry_index,
                         )));
                     }
-                    if block_table_entry.data_size
-                        > data_fork_end_offset - block_table_entry.data_offset
+                    if has_data
+                        && block_table_entry.data_size
+                            > data_fork_end_offset - block_table_entry.data_offset
                     {
                         return Err(keramics_core::error_trace_new!(format!(
                             "Unsupported block table: {} entry: {} data size value out of bounds",
-- 
2.43.0


From 47a8d4db184e479455e08ba90064921086b0bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 65/86] fix: check that the data of uncompressed UDIF block
 ranges is in the data fork

---
 keramics-formats/src/udif/file.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index bcd1f85..1c4e03a 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -281,13 +281,21 @@ impl UdifFile {
                             0,
                             UdifBlockRangeType::Sparse,
                         ),
-                        0x00000001 => UdifBlockRange::new(
-                            media_offset,
-                            block_table_entry.data_offset,
-                            media_size,
-                            0,
-                            UdifBlockRangeType::InFile,
-                        ),
+                        0x00000001 => {
+                            if media_size > data_fork_end_offset - block_table_entry.data_offset {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported block table: {} entry: {} number of sectors value out of bounds",
+                                    table_index, entry_index,
+                                )));
+                            }
+                            UdifBlockRange::new(
+                                media_offset,
+                                block_table_entry.data_offset,
+                                media_size,
+                                0,
+                                UdifBlockRangeType::InFile,
+                            )
+                        }
                         0x80000004..0x80000008 => {
                             if block_table_entry.number_of_sectors > 2048 {
                                 return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 0a5dab5894f3ce3515b8e35abc2a7b9bf044e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 66/86] fix: do not truncate the size of compressed UDIF block
 ranges

---
 keramics-formats/src/udif/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index 1c4e03a..a50f94c 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -303,6 +303,12 @@ impl UdifFile {
                                     table_index, entry_index,
                                 )));
                             }
+                            if block_table_entry.data_size > u32::MAX as u64 {
+                                return Err(keramics_core::error_trace_new!(format!(
+                                    "Unsupported compressed block table: {} entry: {} data size value out of bounds",
+                                    table_index, entry_index,
+                                )));
+                            }
                             if compressed_entry_type == 0 {
                                 compressed_entry_type = block_table_entry.entry_type;
                             } else if block_table_entry.entry_type != compressed_entry_type {
-- 
2.43.0


From c211508ce6d3ac4d3e5905e21e9d6f7e8236cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 67/86] fix: cache decompressed UDIF block ranges by media
 offset

---
 keramics-formats/src/udif/file.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index a50f94c..ad7d814 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -410,7 +410,7 @@ impl UdifFile {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut data: Vec<u8> = vec![0; block_range.size as usize];
 
                         match self.read_compressed_block(block_range, &mut data) {
@@ -423,9 +423,9 @@ impl UdifFile {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, data);
+                        self.block_cache.insert(block_range.media_offset, data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From afd3d954fb088d548619307bc4e0fc63d76e495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 68/86] fix: check the size of decompressed UDIF block ranges

---
 keramics-formats/src/udif/file.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/udif/file.rs b/keramics-formats/src/udif/file.rs
index ad7d814..6576e4a 100644
--- a/keramics-formats/src/udif/file.rs
+++ b/keramics-formats/src/udif/file.rs
@@ -494,7 +494,7 @@ impl UdifFile {
             ));
             self.mediator.debug_print_data(&compressed_data, true);
         }
-        match self.compression_method {
+        let uncompressed_data_size: usize = match self.compression_method {
             UdifCompressionMethod::Adc => {
                 let mut adc_context: AdcContext = AdcContext::new();
 
@@ -508,6 +508,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                adc_context.uncompressed_data_size
             }
             UdifCompressionMethod::Bzip2 => {
                 let mut bzip2_context: Bzip2Context = Bzip2Context::new();
@@ -522,6 +523,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                bzip2_context.uncompressed_data_size
             }
             UdifCompressionMethod::Lzfse => {
                 let mut lzfse_context: LzfseContext = LzfseContext::new();
@@ -536,6 +538,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                lzfse_context.uncompressed_data_size
             }
             UdifCompressionMethod::Lzma => {
                 // TODO: add support for UdifCompressionMethod::Lzma,
@@ -554,6 +557,7 @@ impl UdifFile {
                         return Err(error);
                     }
                 }
+                zlib_context.uncompressed_data_size
             }
             _ => {
                 return Err(keramics_core::error_trace_new!(
@@ -561,6 +565,12 @@ impl UdifFile {
                 ));
             }
         };
+        if uncompressed_data_size != data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid uncompressed data size: {} value out of bounds",
+                uncompressed_data_size
+            )));
+        }
         Ok(())
     }
 }
-- 
2.43.0


From a4d15be2b5bc51468a81fbdc791932812b35d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 69/86] fix: do not evict a LRU cache entry that was replaced
 or panic without capacity

---
 keramics-formats/src/lru_cache.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/keramics-formats/src/lru_cache.rs b/keramics-formats/src/lru_cache.rs
index f59d9b9..db6db14 100644
--- a/keramics-formats/src/lru_cache.rs
+++ b/keramics-formats/src/lru_cache.rs
@@ -72,11 +72,17 @@ impl<K: Hash + Eq + Copy, V> LruCache<K, V> {
 
     /// Inserts a specific value into the cache.
     pub fn insert(&mut self, key: K, value: V) {
-        if self.usage.len() == self.number_of_entries {
-            let lru_key: K = self.usage.pop_front().unwrap();
-            self.values.remove(&lru_key);
-        }
         let entry: LruCacheEntry<V> = LruCacheEntry::new(value);
+
+        if self.values.contains_key(&key) {
+            self.values.insert(key, entry);
+            return;
+        }
+        if self.usage.len() >= self.number_of_entries {
+            if let Some(lru_key) = self.usage.pop_front() {
+                self.values.remove(&lru_key);
+            }
+        }
         self.values.insert(key, entry);
         self.usage.push_back(key);
     }
-- 
2.43.0


From 14ff2820b94a61c5abba79bf8cd469a1371ada5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 70/86] fix: check the number of EWF table entries against the
 table data size

---
 keramics-formats/src/ewf/table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ewf/table.rs b/keramics-formats/src/ewf/table.rs
index 4eedf34..0b10fc1 100644
--- a/keramics-formats/src/ewf/table.rs
+++ b/keramics-formats/src/ewf/table.rs
@@ -67,6 +67,12 @@ impl EwfTable {
         let footer_offset: usize = 24 + (table_header.number_of_entries as usize * 4);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                table_header.number_of_entries
+            )));
+        }
         let mut table_footer: EwfTableFooter = EwfTableFooter::new();
 
         if self.mediator.debug_output {
-- 
2.43.0


From 2562a0cdf404323f131f2a63ed7133dcc7675632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 71/86] fix: return an error for corrupted EWF table entries

---
 keramics-formats/src/ewf/image.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 2e240d2..4fee6aa 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -742,14 +742,11 @@ impl EwfImage {
                 }
                 next_table_entry.chunk_data_offset - chunk_data_offset
             } else {
-                if self.mediator.debug_output {
-                    self.mediator.debug_print(format!(
-                        "EwfImage table entry: {} current offset: {} larger than next offset: {}",
-                        table_entry_index, chunk_data_offset, next_chunk_data_offset
-                    ));
-                }
                 // TODO: handle corrupted table entry
-                todo!();
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Unsupported table entry: {} chunk data offset: {} larger than next offset: {}",
+                    table_entry_index, chunk_data_offset, next_chunk_data_offset
+                )));
             };
             let block_range_type: EwfBlockRangeType = if chunk_is_compressed {
                 EwfBlockRangeType::Compressed
-- 
2.43.0


From 39ead4f98dc81692be7b24751f6a458106213861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 72/86] fix: check the chunk data offsets of EWF tables

---
 keramics-formats/src/ewf/image.rs | 34 +++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 4fee6aa..a48e957 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -753,10 +753,23 @@ impl EwfImage {
             } else {
                 EwfBlockRangeType::InFile
             };
+            // Note that the end of the chunk data must not overflow.
+            let chunk_data_start_offset: u64 = match table
+                .base_offset
+                .checked_add(chunk_data_offset as u64 + chunk_data_size as u64)
+            {
+                Some(offset) => offset - chunk_data_size as u64,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid table entry: {} chunk data offset: {} value out of bounds",
+                        table_entry_index, chunk_data_offset
+                    )));
+                }
+            };
             let block_range: EwfBlockRange = EwfBlockRange::new(
                 safe_block_media_offset,
                 segment_file.segment_number,
-                table.base_offset + (chunk_data_offset as u64),
+                chunk_data_start_offset,
                 chunk_data_size,
                 block_range_type,
             );
@@ -804,7 +817,16 @@ impl EwfImage {
         // is where it starts. Hence the size of the last chunk is determined
         // by subtracting the last offset from the offset of the next section.
 
-        let last_chunk_data_offset: u64 = table.base_offset + (chunk_data_offset as u64);
+        let last_chunk_data_offset: u64 =
+            match table.base_offset.checked_add(chunk_data_offset as u64) {
+                Some(offset) => offset,
+                None => {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid last table entry chunk data offset: {} value out of bounds",
+                        chunk_data_offset
+                    )));
+                }
+            };
 
         let last_chunk_data_end_offset: u64 = match last_sectors_section_header {
             // The chunks are stored in the sectors section.
@@ -812,6 +834,14 @@ impl EwfImage {
             // The chunks are stored in the table section.
             None => section_header.next_offset,
         };
+        if last_chunk_data_offset > last_chunk_data_end_offset
+            || last_chunk_data_end_offset - last_chunk_data_offset > u32::MAX as u64
+        {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid last table entry chunk data offset: {} value out of bounds",
+                chunk_data_offset
+            )));
+        }
         let last_chunk_data_size: u32 =
             (last_chunk_data_end_offset - last_chunk_data_offset) as u32;
 
-- 
2.43.0


From 1b9d81fd6d9bd453224edd291f2fcb33efbe1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 73/86] fix: check for overflow of the EWF chunk size

---
 keramics-formats/src/ewf/image.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index a48e957..596d909 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -945,7 +945,15 @@ impl EwfImage {
                 )));
             }
         }
-        self.block_size = self.sectors_per_chunk * self.bytes_per_sector;
+        self.block_size = match self.sectors_per_chunk.checked_mul(self.bytes_per_sector) {
+            Some(block_size) => block_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid sectors per chunk: {} value out of bounds",
+                    self.sectors_per_chunk
+                )));
+            }
+        };
         self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
-- 
2.43.0


From d75443b417320b47759b12df65e26ac31efcf881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 74/86] fix: read all of the number of sectors of an EWF-E01
 volume

---
 keramics-formats/src/ewf/image.rs  | 17 ++++++++++++++---
 keramics-formats/src/ewf/volume.rs |  6 +++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 596d909..8752205 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -64,7 +64,7 @@ pub struct EwfImage {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Block (or chunk) size.
     block_size: u32,
@@ -910,7 +910,7 @@ impl EwfImage {
                 self.number_of_chunks = volume.number_of_chunks;
                 self.sectors_per_chunk = volume.sectors_per_chunk;
                 self.bytes_per_sector = volume.bytes_per_sector;
-                self.number_of_sectors = volume.number_of_sectors;
+                self.number_of_sectors = volume.number_of_sectors as u64;
             }
             1128 => {
                 let mut volume: EwfE01Volume = EwfE01Volume::new();
@@ -954,7 +954,18 @@ impl EwfImage {
                 )));
             }
         };
-        self.media_size = (self.number_of_sectors as u64) * (self.bytes_per_sector as u64);
+        self.media_size = match self
+            .number_of_sectors
+            .checked_mul(self.bytes_per_sector as u64)
+        {
+            Some(media_size) => media_size,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid number of sectors: {} value out of bounds",
+                    self.number_of_sectors
+                )));
+            }
+        };
 
         let block_tree_data_size: u64 = (self.number_of_chunks as u64) * (self.block_size as u64);
 
diff --git a/keramics-formats/src/ewf/volume.rs b/keramics-formats/src/ewf/volume.rs
index c56d4c7..e9cf842 100644
--- a/keramics-formats/src/ewf/volume.rs
+++ b/keramics-formats/src/ewf/volume.rs
@@ -14,7 +14,7 @@
 use keramics_checksums::Adler32Context;
 use keramics_core::ErrorTrace;
 use keramics_layout_map::LayoutMap;
-use keramics_types::{Uuid, bytes_to_u32_le};
+use keramics_types::{Uuid, bytes_to_u32_le, bytes_to_u64_le};
 
 #[derive(LayoutMap)]
 #[layout_map(
@@ -61,7 +61,7 @@ pub struct EwfE01Volume {
     pub bytes_per_sector: u32,
 
     /// Number of sectors.
-    pub number_of_sectors: u32,
+    pub number_of_sectors: u64,
 
     /// Media flags.
     pub media_flags: u8,
@@ -115,7 +115,7 @@ impl EwfE01Volume {
         self.number_of_chunks = bytes_to_u32_le!(data, 4);
         self.sectors_per_chunk = bytes_to_u32_le!(data, 8);
         self.bytes_per_sector = bytes_to_u32_le!(data, 12);
-        self.number_of_sectors = bytes_to_u32_le!(data, 16);
+        self.number_of_sectors = bytes_to_u64_le!(data, 16);
         self.media_flags = data[36];
         self.compression_level = data[52];
         self.error_granularity = bytes_to_u32_le!(data, 56);
-- 
2.43.0


From 0a2c1977a618b9310f54c18ceb384a3779d50d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 75/86] fix: cache decompressed EWF chunks by media offset

---
 keramics-formats/src/ewf/image.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 8752205..500972f 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -254,7 +254,7 @@ impl EwfImage {
                     let range_data_offset: usize = range_relative_offset as usize;
                     let range_data_end_offset: usize = range_data_offset + range_read_size;
 
-                    if !self.block_cache.contains(&block_range.data_offset) {
+                    if !self.block_cache.contains(&block_range.media_offset) {
                         let mut compressed_data: Vec<u8> = vec![0; block_range.data_size as usize];
 
                         match segment_file.read_exact_at_position(
@@ -298,9 +298,9 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.data_offset, block_data);
+                        self.block_cache.insert(block_range.media_offset, block_data);
                     }
-                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.data_offset)
+                    let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
                         Some(data) => data,
                         None => {
-- 
2.43.0


From 49b53b1fedc97e0a72032fef1732bac7497621b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 76/86] fix: reopen EWF segment files that are no longer in the
 cache

---
 keramics-formats/src/ewf/image.rs | 104 +++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 36 deletions(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 500972f..206f2d3 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -51,6 +51,9 @@ pub struct EwfImage {
     /// Segment file set identifier.
     pub set_identifier: Uuid,
 
+    /// Segment file names.
+    segment_file_names: Vec<String>,
+
     /// Segment file cache.
     segment_file_cache: LruCache<u16, EwfFile>,
 
@@ -104,6 +107,7 @@ impl EwfImage {
             mediator: Mediator::current(),
             file_resolver: FileResolverReference::new(Box::new(FakeFileResolver::new())),
             set_identifier: Uuid::new(),
+            segment_file_names: Vec::new(),
             segment_file_cache: LruCache::new(16),
             number_of_chunks: 0,
             sectors_per_chunk: 0,
@@ -200,6 +204,55 @@ impl EwfImage {
         Ok(())
     }
 
+    /// Opens a segment file.
+    fn open_segment_file(
+        &self,
+        file_resolver: &FileResolverReference,
+        segment_file_name: &String,
+        segment_number: u16,
+    ) -> Result<(EwfFile, DataStreamReference), ErrorTrace> {
+        let path_components: [PathComponent; 1] = [PathComponent::from(segment_file_name)];
+        let result: Option<DataStreamReference> =
+            match file_resolver.get_data_stream(&path_components) {
+                Ok(result) => result,
+                Err(mut error) => {
+                    keramics_core::error_trace_add_frame!(
+                        error,
+                        format!("Unable to open segment file: {}", segment_file_name)
+                    );
+                    return Err(error);
+                }
+            };
+        let data_stream: DataStreamReference = match result {
+            Some(data_stream) => data_stream,
+            None => {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "No such segment file: {}",
+                    segment_file_name
+                )));
+            }
+        };
+        let mut segment_file: EwfFile = EwfFile::new();
+
+        match segment_file.read_data_stream(&data_stream) {
+            Ok(_) => {}
+            Err(mut error) => {
+                keramics_core::error_trace_add_frame!(
+                    error,
+                    format!("Unable to open segment file: {}", segment_file_name)
+                );
+                return Err(error);
+            }
+        }
+        if segment_file.segment_number != segment_number {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Unsupported segment number: {} in segment file: {}",
+                segment_file.segment_number, segment_file_name
+            )));
+        }
+        Ok((segment_file, data_stream))
+    }
+
     /// Reads media data based on the chunk tables.
     fn read_data_from_blocks(&mut self, data: &mut [u8]) -> Result<usize, ErrorTrace> {
         let read_size: usize = data.len();
@@ -225,8 +278,17 @@ impl EwfImage {
                 .segment_file_cache
                 .contains(&block_range.segment_number)
             {
-                let file: EwfFile = EwfFile::new();
-
+                let (file, _): (EwfFile, DataStreamReference) = match self.open_segment_file(
+                    &self.file_resolver,
+                    &self.segment_file_names[block_range.segment_number as usize - 1],
+                    block_range.segment_number,
+                ) {
+                    Ok(result) => result,
+                    Err(mut error) => {
+                        keramics_core::error_trace_add_frame!(error, "Unable to open segment file");
+                        return Err(error);
+                    }
+                };
                 self.segment_file_cache
                     .insert(block_range.segment_number, file);
             }
@@ -616,45 +678,14 @@ impl EwfImage {
                 };
             let segment_file_name: String = format!("{}.{}", name, segment_extension);
 
-            let path_components: [PathComponent; 1] = [PathComponent::from(&segment_file_name)];
-            let result: Option<DataStreamReference> =
-                match file_resolver.get_data_stream(&path_components) {
+            let (segment_file, data_stream): (EwfFile, DataStreamReference) =
+                match self.open_segment_file(file_resolver, &segment_file_name, segment_number) {
                     Ok(result) => result,
                     Err(mut error) => {
-                        keramics_core::error_trace_add_frame!(
-                            error,
-                            format!("Unable to open segment file: {}", segment_file_name)
-                        );
+                        keramics_core::error_trace_add_frame!(error, "Unable to open segment file");
                         return Err(error);
                     }
                 };
-            let data_stream: DataStreamReference = match result {
-                Some(data_stream) => data_stream,
-                None => {
-                    return Err(keramics_core::error_trace_new!(format!(
-                        "No such segment file: {}",
-                        segment_file_name
-                    )));
-                }
-            };
-            let mut segment_file: EwfFile = EwfFile::new();
-
-            match segment_file.read_data_stream(&data_stream) {
-                Ok(_) => {}
-                Err(mut error) => {
-                    keramics_core::error_trace_add_frame!(
-                        error,
-                        format!("Unable to open segment file: {}", segment_file_name)
-                    );
-                    return Err(error);
-                }
-            }
-            if segment_file.segment_number != segment_number {
-                return Err(keramics_core::error_trace_new!(format!(
-                    "Unsupported segment number: {} in segment file: {}",
-                    segment_file.segment_number, segment_file_name
-                )));
-            }
             match self.read_sections(
                 &segment_file,
                 &segment_file_name,
@@ -668,6 +699,7 @@ impl EwfImage {
                     return Err(error);
                 }
             }
+            self.segment_file_names.push(segment_file_name);
             self.segment_file_cache.insert(segment_number, segment_file);
 
             segment_number += 1;
-- 
2.43.0


From 90e9da8e40c0a58230e7b91ebb57d30cb8ba0577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 77/86] fix: check the size of decompressed EWF chunks

---
 keramics-formats/src/ewf/image.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index 206f2d3..bb0a17b 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -360,7 +360,19 @@ impl EwfImage {
                                 return Err(error);
                             }
                         }
-                        self.block_cache.insert(block_range.media_offset, block_data);
+                        // Note that the last chunk can contain less data than the block size.
+                        let chunk_size: u64 = std::cmp::min(
+                            self.block_size as u64,
+                            self.media_size - block_range.media_offset,
+                        );
+                        if (zlib_context.uncompressed_data_size as u64) < chunk_size {
+                            return Err(keramics_core::error_trace_new!(format!(
+                                "Invalid uncompressed data size: {} value out of bounds",
+                                zlib_context.uncompressed_data_size
+                            )));
+                        }
+                        self.block_cache
+                            .insert(block_range.media_offset, block_data);
                     }
                     let range_data: &Vec<u8> = match self.block_cache.get(&block_range.media_offset)
                     {
-- 
2.43.0


From 902fed1c513daaee3da9d88c5fc4d5bde8053f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:36 +0000
Subject: [PATCH 78/86] fix: do not read beyond the end of uncompressed EWF
 chunks

---
 keramics-formats/src/ewf/image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keramics-formats/src/ewf/image.rs b/keramics-formats/src/ewf/image.rs
index bb0a17b..9bf4003 100644
--- a/keramics-formats/src/ewf/image.rs
+++ b/keramics-formats/src/ewf/image.rs
@@ -390,6 +390,13 @@ impl EwfImage {
                 }
                 EwfBlockRangeType::InFile => {
                     // TODO: read full chunk
+                    if range_relative_offset + range_read_size as u64 > block_range.data_size as u64
+                    {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid uncompressed chunk size: {} value out of bounds",
+                            block_range.data_size
+                        )));
+                    }
                     let chunk_offset: u64 = block_range.data_offset + range_relative_offset;
 
                     match segment_file.read_exact_at_position(
-- 
2.43.0


From d91b0b7c2d18aa4929c812df8fdb8ca6df19ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 79/86] fix: split file names that are not ASCII or not a
 String

---
 keramics-formats/src/path_component.rs | 47 +++++++++-----------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/keramics-formats/src/path_component.rs b/keramics-formats/src/path_component.rs
index 0e4536e..343bd8b 100644
--- a/keramics-formats/src/path_component.rs
+++ b/keramics-formats/src/path_component.rs
@@ -25,43 +25,28 @@ pub enum PathComponent {
 impl PathComponent {
     /// Retrieves the extension if available.
     pub fn extension(&self) -> Option<PathComponent> {
-        match self {
-            PathComponent::String(string) => {
-                if string.is_empty() {
-                    None
-                } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_index: usize = string.len() - value_index;
-                            Some(PathComponent::String(string[string_index..].to_string()))
-                        }
-                        None => None,
-                    }
-                }
-            }
-            _ => todo!(),
+        let string: String = self.to_string();
+
+        match string.rfind('.') {
+            Some(string_index) if string_index > 0 => Some(PathComponent::String(
+                string[string_index + 1..].to_string(),
+            )),
+            _ => None,
         }
     }
 
     /// Retrieves the file stem if available.
     pub fn file_stem(&self) -> Option<PathComponent> {
-        match self {
-            PathComponent::String(string) => {
-                if string.is_empty() {
-                    None
-                } else {
-                    match string[1..].chars().rev().position(|value| value == '.') {
-                        Some(value_index) => {
-                            // Note that value_index is relative to end of the string.
-                            let string_size: usize = string.len() - value_index - 1;
-                            Some(PathComponent::String(string[0..string_size].to_string()))
-                        }
-                        None => Some(PathComponent::String(string.clone())),
-                    }
-                }
+        let string: String = self.to_string();
+
+        if string.is_empty() {
+            return None;
+        }
+        match string.rfind('.') {
+            Some(string_index) if string_index > 0 => {
+                Some(PathComponent::String(string[0..string_index].to_string()))
             }
-            _ => todo!(),
+            _ => Some(PathComponent::String(string)),
         }
     }
 
-- 
2.43.0


From 41e5688b3a6d0be4036bb88aa0c032ab3f502611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 80/86] fix: check the number of EWF error2 entries against the
 data size

---
 keramics-formats/src/ewf/error2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ewf/error2.rs b/keramics-formats/src/ewf/error2.rs
index cc4e9eb..5077b00 100644
--- a/keramics-formats/src/ewf/error2.rs
+++ b/keramics-formats/src/ewf/error2.rs
@@ -61,6 +61,12 @@ impl EwfError2 {
         let footer_offset: usize = 520 + (error2_header.number_of_entries as usize * 8);
         let footer_end_offset: usize = footer_offset + 4;
 
+        if footer_end_offset > data.len() {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                error2_header.number_of_entries
+            )));
+        }
         let mut error2_footer: EwfError2Footer = EwfError2Footer::new();
 
         if self.mediator.debug_output {
-- 
2.43.0


From 22a60d939c98e48c09053d5f589d1b6363ca92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 81/86] fix: correct the EWF error2 section type

---
 keramics-formats/src/ewf/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/constants.rs b/keramics-formats/src/ewf/constants.rs
index 39094b4..d56e9f7 100644
--- a/keramics-formats/src/ewf/constants.rs
+++ b/keramics-formats/src/ewf/constants.rs
@@ -37,7 +37,7 @@ pub(super) const EWF_SECTION_TYPE_DONE: [u8; 16] = [
 
 /// EWF error2 section type: "error2\0\0\0\0\0\0\0\0\0\0"
 pub(super) const EWF_SECTION_TYPE_ERROR2: [u8; 16] = [
-    0x65, 0x72, 0x72, 0x6f, 0x72, 0x73, 0x32, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+    0x65, 0x72, 0x72, 0x6f, 0x72, 0x32, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
 ];
 
 /// EWF hash section type: "hash\0\0\0\0\0\0\0\0\0\0\0\0"
-- 
2.43.0


From be9a05f5b9462aec09733f00f8123b97240cc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 82/86] fix: check for overflow of EWF header2 date values

---
 keramics-formats/src/ewf/object_storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keramics-formats/src/ewf/object_storage.rs b/keramics-formats/src/ewf/object_storage.rs
index a1c227a..d2eb1cd 100644
--- a/keramics-formats/src/ewf/object_storage.rs
+++ b/keramics-formats/src/ewf/object_storage.rs
@@ -129,12 +129,12 @@ impl<'a> EwfUtf16ObjectStorage<'a> {
         let mut timestamp: i32 = 0;
 
         for value_16bit in value.iter() {
-            timestamp *= 10;
-
             if *value_16bit < 0x0030 || *value_16bit > 0x0039 {
                 return None;
             }
-            timestamp += *value_16bit as i32 - 0x0030;
+            timestamp = timestamp
+                .checked_mul(10)?
+                .checked_add(*value_16bit as i32 - 0x0030)?;
         }
         Some(timestamp)
     }
-- 
2.43.0


From 7a804dc166519ae3ed80d1b377696b9ff8101828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 83/86] fix: correct the EWF header2 notes value type

---
 keramics-formats/src/ewf/header2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-formats/src/ewf/header2.rs b/keramics-formats/src/ewf/header2.rs
index a8530d2..6de8eef 100644
--- a/keramics-formats/src/ewf/header2.rs
+++ b/keramics-formats/src/ewf/header2.rs
@@ -180,7 +180,7 @@ impl EwfHeader2 {
                 // "sn" => serial number of source media device
                 [0x0073, 0x006e] => EwfHeaderValueType::SerialNumber,
                 // "t" => notes
-                [0x0077] => EwfHeaderValueType::Notes,
+                [0x0074] => EwfHeaderValueType::Notes,
                 // "u" => system date and time
                 [0x0075] => EwfHeaderValueType::SystemDate,
                 _ => EwfHeaderValueType::NotSet,
-- 
2.43.0


From 7db644797797d296df34b15ab295cad957327d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 84/86] fix: do not overflow on the size of EXT block number
 holes

---
 keramics-formats/src/ext/block_numbers_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/block_numbers_tree.rs b/keramics-formats/src/ext/block_numbers_tree.rs
index 2e10f2a..b0aa629 100644
--- a/keramics-formats/src/ext/block_numbers_tree.rs
+++ b/keramics-formats/src/ext/block_numbers_tree.rs
@@ -182,7 +182,8 @@ impl ExtBlockNumbersTree {
             let mut number_of_blocks: u64 = 1;
             if block_number == 0 {
                 for _ in 0..depth {
-                    number_of_blocks *= self.number_of_blocks_per_block as u64;
+                    number_of_blocks =
+                        number_of_blocks.saturating_mul(self.number_of_blocks_per_block as u64);
                 }
                 number_of_blocks = min(
                     number_of_blocks,
-- 
2.43.0


From 0ddba9e0fa84eb9091d4b7b2bd6b8852c83095b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 85/86] fix: reject EXT extents tree nodes with too many
 entries

---
 keramics-formats/src/ext/extents_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 563bfb2..31c67d6 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -107,6 +107,12 @@ impl ExtExtentsTree {
                 extents_header.depth,
             )));
         }
+        if (extents_header.number_of_entries as usize) > (data_size - 12) / 12 {
+            return Err(keramics_core::error_trace_new!(format!(
+                "Invalid number of entries: {} value out of bounds",
+                extents_header.number_of_entries,
+            )));
+        }
         let mut data_offset: usize = 12;
 
         if extents_header.depth > 0 {
-- 
2.43.0


From fcf34c1451b1fb8b083e3591acfdad368baf2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 86/86] fix: reject EXT extents tree sub node offsets that
 overflow

---
 keramics-formats/src/ext/extents_tree.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keramics-formats/src/ext/extents_tree.rs b/keramics-formats/src/ext/extents_tree.rs
index 31c67d6..3052d3a 100644
--- a/keramics-formats/src/ext/extents_tree.rs
+++ b/keramics-formats/src/ext/extents_tree.rs
@@ -138,7 +138,18 @@ impl ExtExtentsTree {
                 }
                 data_offset = data_end_offset;
 
-                let sub_node_offset: u64 = entry.physical_block_number * (self.block_size as u64);
+                let sub_node_offset: u64 = match entry
+                    .physical_block_number
+                    .checked_mul(self.block_size as u64)
+                {
+                    Some(offset) => offset,
+                    None => {
+                        return Err(keramics_core::error_trace_new!(format!(
+                            "Invalid physical block number: {} value out of bounds",
+                            entry.physical_block_number,
+                        )));
+                    }
+                };
 
                 match self.read_node_at_position(
                     data_stream,
-- 
2.43.0

