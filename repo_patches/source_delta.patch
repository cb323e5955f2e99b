From 8febe262dbd13acd0a295092938e3f16226f6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 01/13] fix: Chomp keeps bits_left in step when only part of a
 byte is read

A read that stays inside the current byte did not reduce bits_left, so a later
read of more bits than remained was started, and after consuming the rest of
the byte refused; following reads of bits that were there were refused too.
---
 src/util/chomp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..8db0984 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -124,6 +124,7 @@ impl Chomp {
             let result = *byte >> (8 - nr_bits.0);
             *byte <<= nr_bits.0;
 
+            self.bits_left -= nr_bits;
             self.bits_left_in_byte -= nr_bits;
 
             Some(result)
-- 
2.43.0


From fce377d48d2ed488d1f82aa8e8f62288a19fc5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 02/13] fix: Chomp::chomp_or_u16 refuses more than 16 bits as
 documented

It returned the last bits only (17 to 24) or panicked on shift overflow.
---
 src/util/chomp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index 8db0984..70b687a 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -59,6 +59,10 @@ impl Chomp {
     /// Try to chomp `nr_bits` bits. If not enough bits are left, or requesting more than 16 bits the provided `err` will be returned
     /// If requesting fewer than 16 bits, the result will be in the least significant bits of the u16
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
+        if nr_bits > 16 {
+            return Err(err);
+        }
+
         let mut bits = nr_bits;
 
         let mut result: u16 = 0;
-- 
2.43.0


From 85047a8b5d7b3cbc8345ed641637030d3f8ce22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 03/13] fix: reject an invalid last alphanumeric character
 instead of panicking

A single trailing character is 6 bits wide, values 45..63 indexed past the table.
---
 src/decode/qr/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..cff46ea 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -123,6 +123,13 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
+
+            if chars > 44 {
+                return Err(QRError {
+                    msg: format!("Invalid character in alphanumeric data {}", chars),
+                });
+            }
+
             result.push(ALPHANUMERIC[chars as usize]);
 
             break;
-- 
2.43.0


From b006aff773b261aa89841aca378ecd02ffecb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 04/13] fix: reject numeric groups that do not denote the
 declared number of digits

Values 1000..1023, 100..127 and 10..15 produced one digit too many.
---
 src/decode/qr/data.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index cff46ea..e72db72 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -46,6 +46,13 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
     while length > 0 {
         if length >= 3 {
             let digits = read_bits_u16(chomp, 10)?;
+
+            if digits > 999 {
+                return Err(QRError {
+                    msg: format!("Invalid digits in numeric data {}", digits),
+                });
+            }
+
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -54,6 +61,13 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 2 {
             let digits = read_bits_u16(chomp, 7)?;
+
+            if digits > 99 {
+                return Err(QRError {
+                    msg: format!("Invalid digits in numeric data {}", digits),
+                });
+            }
+
             result.push_str(&format!("{:02}", digits));
 
             break;
@@ -61,6 +75,13 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let digits = read_bits_u16(chomp, 4)?;
+
+            if digits > 9 {
+                return Err(QRError {
+                    msg: format!("Invalid digits in numeric data {}", digits),
+                });
+            }
+
             result.push_str(&format!("{:01}", digits));
 
             break;
-- 
2.43.0


From dc13420edb487904aae00ecd528f8826a900a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 05/13] fix: zero divided by anything is zero in GF8 and GF4

LOG[0] is a placeholder, so 0 / x came out as a nonzero element, which broke
both the equation solver and the format correction when a zero turned up.
---
 src/decode/qr/galois.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..09ff935 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return EXP8[255];
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
@@ -98,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return EXP4[15];
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From 267c41857c4da0ad841a8e3ff3241bc0b0621485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 06/13] fix: solve linear equations with pivoting

Dividing by a zero leading coefficient gave garbage, so correctable blocks with
a zero leading minor, or with fewer errors than the capacity, were refused.
---
 src/decode/qr/correct.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..66ff7b8 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -140,19 +140,36 @@ where
         return None;
     }
 
-    for i in 0..num_eq {
+    // column of the leading GF8(1) of each normalised equation
+    let mut pivots: Vec<usize> = vec![];
+
+    for col in 0..num_coeff - 1 {
+        let i = pivots.len();
+
+        // find an equation that can be normalised for this column
+        // if there is none the corresponding unknown can be chosen freely
+        let mut pivot = i;
+        while pivot < num_eq && eq[pivot][col] == zero {
+            pivot += 1;
+        }
+        if pivot == num_eq {
+            continue;
+        }
+        eq.swap(i, pivot);
+        pivots.push(col);
+
         // normalise equation
-        for j in (i..num_coeff).rev() {
+        for j in (col..num_coeff).rev() {
             // divide all coefficients by the first nonzero
             // the first nonzero will now be GF8(1)
-            eq[i][j] = eq[i][j] / eq[i][i];
+            eq[i][j] = eq[i][j] / eq[i][col];
         }
 
         // subtract normalised equation from others, multiplied by first coefficient
         // so the coefficients corresponding to the GF8(1) above will be GF8(0)
         for j in i + 1..num_eq {
-            for k in (i..num_coeff).rev() {
-                eq[j][k] = eq[j][k] - (eq[j][i] * eq[i][k]);
+            for k in (col..num_coeff).rev() {
+                eq[j][k] = eq[j][k] - (eq[j][col] * eq[i][k]);
             }
         }
 
@@ -162,12 +179,13 @@ where
         }
     }
 
-    let mut solution = vec![zero; num_eq];
+    let mut solution = vec![zero; num_coeff - 1];
 
-    for i in (0..num_eq).rev() {
-        solution[i] = eq[i][num_coeff - 1];
-        for j in i + 1..num_coeff - 1 {
-            solution[i] = solution[i] - (eq[i][j] * solution[j]);
+    for i in (0..pivots.len()).rev() {
+        let col = pivots[i];
+        solution[col] = eq[i][num_coeff - 1];
+        for j in col + 1..num_coeff - 1 {
+            solution[col] = solution[col] - (eq[i][j] * solution[j]);
         }
     }
 
-- 
2.43.0


From babc8f4795e80148776dfa056c0394d935871b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 07/13] fix: verify all syndromes after correcting a block

Only the first one was checked, so about one in 256 uncorrectable blocks came
out as if corrected. Also check every error correction codeword there is, so
that a block of a small symbol that is no codeword is not taken for one.
---
 src/decode/qr/correct.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 66ff7b8..234975d 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,7 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    if !calculate_syndromes(&block, block_info).0 {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
@@ -52,10 +52,11 @@ pub fn correct_with_error_count(
 }
 
 fn calculate_syndromes(block: &[u8], block_info: &BlockInfo) -> (bool, Vec<GF8>) {
-    let mut syndromes = vec![GF8(0); (block_info.ec_cap * 2) as usize];
+    let num_syndromes = block_info.total_per - block_info.data_per;
+    let mut syndromes = vec![GF8(0); num_syndromes as usize];
 
     let mut all_fine = true;
-    for i in 0..block_info.ec_cap * 2 {
+    for i in 0..num_syndromes {
         syndromes[i as usize] = syndrome(block, EXP8[i as usize]);
         if syndromes[i as usize] != GF8(0) {
             all_fine = false;
-- 
2.43.0


From 4738c6aea83e79bedbca7f54d551c9095d5fd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 08/13] fix: check all three syndromes of the format
 information

One vanishing syndrome does not make a valid word: words with errors were
accepted unchanged, miscorrected words were accepted, and an error in the last
bit was never corrected.
---
 src/decode/qr/format.rs | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..b4fa9db 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -65,41 +65,26 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
 }
 
 fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
-    let mut s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
+    let (s1, s3, s5) = syndromes(&format);
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
     let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
@@ -108,14 +93,10 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
+    let (s1, s3, s5) = syndromes(&format);
 
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
-
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if s1 == GF4(0) && s3 == GF4(0) && s5 == GF4(0) {
+        // all syndromes == 0, no error left
         return Ok(format);
     }
 
@@ -124,6 +105,20 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
     })
 }
 
+fn syndromes(format: &[u8]) -> (GF4, GF4, GF4) {
+    let mut s1 = GF4(0);
+    let mut s3 = GF4(0);
+    let mut s5 = GF4(0);
+
+    for i in 0..format.len() {
+        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
+        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
+        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
+    }
+
+    (s1, s3, s5)
+}
+
 fn error_correction(bytes: u8) -> Option<ECLevel> {
     match bytes {
         0b01 => Some(ECLevel::LOW),
-- 
2.43.0


From f49082e2ffa0baeb042640861faa7237d4161789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 09/13] fix: BlockedMean no longer panics on images smaller
 than a block

The window over which the mean is taken was empty, which underflowed; it now
always contains at least one block. The same goes for a block_mean_size of 1 or 2.
---
 src/prepare/blockedmean.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..626f612 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -102,9 +102,15 @@ impl BlockedMean {
         for block_x in range_inc(BlockCoord(0), block_width) {
             for block_y in range_inc(BlockCoord(0), block_height) {
                 let x_start = max(BlockCoord(0), block_x.saturating_sub(block_stride));
-                let x_end = min(block_width, block_x + block_stride);
+                let x_end = max(
+                    x_start + BlockCoord(1),
+                    min(block_width, block_x + block_stride),
+                );
                 let y_start = max(BlockCoord(0), block_y.saturating_sub(block_stride));
-                let y_end = min(block_height, block_y + block_stride);
+                let y_end = max(
+                    y_start + BlockCoord(1),
+                    min(block_height, block_y + block_stride),
+                );
 
                 let mut total = 0;
                 let mut count = 0;
-- 
2.43.0


From 04bd01b3ee71d977bca83bd4e39e4b548acbd9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 10/13] fix: refuse to extract locations of a version that does
 not exist

The size computations overflow for large versions.
---
 src/extract/qr/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..de9b843 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -35,6 +35,12 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
     fn extract(&self, prepared: &GrayImage, loc: QRLocation) -> Result<QRData, QRError> {
         debug!("LOC {:?}", loc);
 
+        if loc.version > 40 {
+            return Err(QRError {
+                msg: format!("Unknown version {}", loc.version),
+            });
+        }
+
         let size = 17 + loc.version * 4;
         let p = determine_perspective(prepared, loc.version, size, &loc)?;
 
-- 
2.43.0


From 84bf8140fe4338243708f900ae3ff7e22653c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 11/13] fix: extraction returns an error for codes that reach
 outside the image

Samples of a rotated, skewed or cut off code can lie outside the image, which
panicked, both when sampling modules and when looking for the alignment pattern.
---
 src/extract/qr/mod.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index de9b843..6032a2d 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -63,7 +63,14 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             for _ in 0..size {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
-                let pixel = prepared.get_pixel(x, y)[0];
+                let pixel = match prepared.get_pixel_checked(x, y) {
+                    Some(pixel) => pixel[0],
+                    None => {
+                        return Err(QRError {
+                            msg: String::from("QR Code reaches outside of the image"),
+                        })
+                    }
+                };
 
                 #[cfg(feature = "debug-images")]
                 {
@@ -209,8 +216,7 @@ fn determine_perspective(
     debug!("LEFT X {} RIGHT X {}", left_x, right_x);
     est_alignment.x = (f64::from(left_x) + f64::from(right_x)) / 2.0;
 
-    let al_x = est_alignment.x.round() as u32;
-    let al_y = est_alignment.y.round() as u32;
+    let al_x = (est_alignment.x.round() as u32).min(prepared.dimensions().0 - 1);
     let mut top_y = 0;
     let mut bottom_y = prepared.dimensions().1;
 
@@ -337,50 +343,56 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
 
     for x in -2..2 {
         let twice_up = p - f64::from(x) * dx - 2.0 * dy;
-        if prepared.get_pixel(twice_up.x.round() as u32, twice_up.y.round() as u32)[0] == 255 {
+        if sample(prepared, twice_up).unwrap_or(255) == 255 {
             return false;
         }
 
         let twice_down = p - f64::from(x) * dx + 2.0 * dy;
-        if prepared.get_pixel(twice_down.x.round() as u32, twice_down.y.round() as u32)[0] == 255 {
+        if sample(prepared, twice_down).unwrap_or(255) == 255 {
             return false;
         }
     }
 
     for y in -1..1 {
         let twice_left = p - 2.0 * dx - f64::from(y) * dy;
-        if prepared.get_pixel(twice_left.x.round() as u32, twice_left.y.round() as u32)[0] == 255 {
+        if sample(prepared, twice_left).unwrap_or(255) == 255 {
             return false;
         }
 
         let twice_right = p + 2.0 * dx - f64::from(y) * dy;
-        if prepared.get_pixel(twice_right.x.round() as u32, twice_right.y.round() as u32)[0] == 255
-        {
+        if sample(prepared, twice_right).unwrap_or(255) == 255 {
             return false;
         }
 
         let left = p - dx - f64::from(y) * dy;
-        if prepared.get_pixel(left.x.round() as u32, left.y.round() as u32)[0] == 0 {
+        if sample(prepared, left).unwrap_or(0) == 0 {
             return false;
         }
 
         let right = p - dx + f64::from(y) * dy;
-        if prepared.get_pixel(right.x.round() as u32, right.y.round() as u32)[0] == 0 {
+        if sample(prepared, right).unwrap_or(0) == 0 {
             return false;
         }
     }
 
     let up = p - dy;
-    if prepared.get_pixel(up.x.round() as u32, up.y.round() as u32)[0] == 0 {
+    if sample(prepared, up).unwrap_or(0) == 0 {
         return false;
     }
 
     let down = p + dy;
-    if prepared.get_pixel(down.x.round() as u32, down.y.round() as u32)[0] == 0 {
+    if sample(prepared, down).unwrap_or(0) == 0 {
         return false;
     }
 
-    prepared.get_pixel(p.x.round() as u32, p.y.round() as u32)[0] == 0
+    sample(prepared, p) == Some(0)
+}
+
+/// Pixel at the provided point, if that is inside the image
+fn sample(prepared: &GrayImage, p: Point) -> Option<u8> {
+    prepared
+        .get_pixel_checked(p.x.round() as u32, p.y.round() as u32)
+        .map(|pixel| pixel[0])
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 894126a5fdb66b6591354dcd057b98136b1c39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 12/13] fix: debug images are drawn within their bounds

The height was bounded by the width, which panicked for images wider than high,
and the frame computation underflowed for small or cut off finders.
---
 src/detect/linescan.rs | 4 ++--
 src/extract/qr/mod.rs  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..a704749 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -135,11 +135,11 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
-                        if x > x_start + 3 && x < x_end - 3 && y > y_start + 3 && y < y_end - 3 {
+                        if x > x_start + 3 && x + 3 < x_end && y > y_start + 3 && y + 3 < y_end {
                             continue;
                         }
 
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 6032a2d..302397c 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -76,7 +76,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -248,13 +248,13 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
         for x in x_start..x_end {
             for y in y_start..y_end {
-                if x > x_start + 2 && x < x_end - 2 && y > y_start + 2 && y < y_end - 2 {
+                if x > x_start + 2 && x + 2 < x_end && y > y_start + 2 && y + 2 < y_end {
                     continue;
                 }
 
-- 
2.43.0


From f178be325d6c20daf7c96e2db9230b8d64a54fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 13/13] fix: BlockedMean returns an empty image for an empty
 image

The conversion to greyscale panics for images of width zero.
---
 src/prepare/blockedmean.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 626f612..d200dd0 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -34,6 +34,10 @@ impl BlockedMean {
 
 impl <D> Prepare<D, GrayImage> for BlockedMean where D: GenericImageView<Pixel = Rgba<u8>> {
     fn prepare(&self, input: &D) -> GrayImage {
+        if input.width() == 0 || input.height() == 0 {
+            return GrayImage::new(input.width(), input.height());
+        }
+
         let grayscale = grayscale(input);
 
         let dimensions = grayscale.dimensions();
-- 
2.43.0

