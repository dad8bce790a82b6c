From 96b1761fdde01aba03eb564837c50f2ce0e23612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 01/32] fix: return 0 from get_payload_offset if there is no
 room for payload

The addition overflowed for adaptation field lengths above 250, and the
documented 0 for packets without payload or with an invalid offset was
never returned.
---
 src/psi/mod.rs | 2 +-
 src/ts/mod.rs  | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..ae3a13c 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,10 +80,15 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
-    if ! is_adaptation(ts) {
+    if ! is_payload(ts) {
+        0
+    } else if ! is_adaptation(ts) {
         4
     } else {
-        4 + 1 + get_adaptation_size(ts)
+        match get_adaptation_size(ts) {
+            size @ 0 ..= 182 => 4 + 1 + size,
+            _ => 0,
+        }
     }
 }
 
-- 
2.43.0


From cefa87457df448461bec0c81ffc4ebc7972bec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 02/32] fix: check the pointer field against the end of the
 packet

With an adaptation field the pointer could lead behind the packet and
Psi::mux panicked.
---
 src/psi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..e5b9a47 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,11 +116,11 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From 2d837828f5874d51e8c8fc0949619923c0a0764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 03/32] fix: ignore continuation packets if no section is in
 progress

Psi::mux took the payload of a packet without unit start as the
beginning of a section if the buffer was empty.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e5b9a47..7d6e03b 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -140,7 +140,7 @@ impl Psi {
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
                 return;
             }
-- 
2.43.0


From f157aa2180e7dfc05c2009ea1fe77909fb7e51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 04/32] fix: keep a section header that is split over short
 payloads

While less than three bytes of a section are known its size is 0, and
Psi::mux cut the buffer to that size.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 7d6e03b..113ce26 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -146,7 +146,7 @@ impl Psi {
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
+            if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
             }
         }
-- 
2.43.0


From fe907861e72f83f1e658486825c766a80720f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 05/32] fix: do not lose a section that starts behind another
 one

A section that begins in the packet that completes the previous section
was cut off if its next packet has no unit start.
---
 src/psi/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 113ce26..e07f087 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -100,6 +100,15 @@ impl Psi {
         }
     }
 
+    /// Removes complete PSI packet if the next one follows it in the buffer
+    #[inline]
+    fn skip_complete(&mut self) {
+        if self.size != 0 && self.buffer.len() > self.size {
+            self.buffer.drain(0 .. self.size);
+            self.size = 0;
+        }
+    }
+
     /// Mux TS packets into single PSI packet
     pub fn mux(&mut self, ts: &[u8]) {
         if ! ts::is_payload(ts) {
@@ -129,14 +138,8 @@ impl Psi {
             // TODO: save pid into self.pid
             if self.buffer.is_empty() {
                 self.push(&ts[ts_offset + pointer_field .. 188]);
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.resize(self.size, 0x00);
-                }
             } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
+                self.skip_complete();
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
@@ -145,6 +148,7 @@ impl Psi {
                 return;
             }
 
+            self.skip_complete();
             self.push(&ts[ts_offset .. 188]);
             if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
-- 
2.43.0


From ce91cb1f40261ffbf96cf60ed9e4a5a209b6a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 06/32] fix: resynchronize on the pointer field

If the section in progress does not end at the pointer field its length
is wrong. Psi::mux went on with it and could lose all further sections.
---
 src/psi/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e07f087..1d524ba 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -136,12 +136,15 @@ impl Psi {
             }
 
             // TODO: save pid into self.pid
-            if self.buffer.is_empty() {
-                self.push(&ts[ts_offset + pointer_field .. 188]);
-            } else {
+            if ! self.buffer.is_empty() {
                 self.skip_complete();
-                self.push(&ts[ts_offset .. 188]);
+                self.push(&ts[ts_offset .. ts_offset + pointer_field]);
+                if self.buffer.len() != self.size {
+                    // section does not end where the next one starts
+                    self.clear();
+                }
             }
+            self.push(&ts[ts_offset + pointer_field .. 188]);
         } else {
             if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From 40a043ea497aadbfa3046c0285143588bb1e58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:55 +0000
Subject: [PATCH 07/32] fix: parse PMT program descriptors from the right
 offset

The loop begins behind the 12 bytes of the header, at 11 is the low byte
of the loop length.
---
 src/psi/pmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..fdc5002 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,7 +138,7 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 8e63a695a418e96e10f2495d011cfe16cef0c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:56 +0000
Subject: [PATCH 08/32] fix: check the descriptors length in PMT, NIT, and TOT

Parser panicked if the descriptors loop is longer than the section.
---
 src/psi/nit.rs | 3 +++
 src/psi/pmt.rs | 3 +++
 src/psi/tot.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..8da33dd 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -106,6 +106,9 @@ impl Nit {
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index fdc5002..b85a2d8 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,6 +138,9 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..0f541fd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -49,6 +49,9 @@ impl Tot {
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From 88fdd9ce92be77490f3d478256c32d9c0687f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:56 +0000
Subject: [PATCH 09/32] fix: skip incomplete TDT

TDT has no checksum, so parser read behind the end of a partially
received section.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From 710fc568e6e1bfc8b0cb8832d7e2cc1209caa14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:56 +0000
Subject: [PATCH 10/32] fix: check inner lengths of the service and event
 descriptors

Descriptors 0x48, 0x4D, and 0x4E with inner lengths behind the end of
the descriptor are kept as raw descriptors now. Check or parser panicked
on them.
---
 src/psi/descriptors/x48.rs |  4 ++++
 src/psi/descriptors/x4d.rs |  4 ++++
 src/psi/descriptors/x4e.rs | 17 +++++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..f7d187e 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,6 +34,10 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() < MIN_SIZE + provider_length {
+            return false;
+        }
+
         let name_length = usize::from(slice[4 + provider_length]);
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..0770025 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,6 +34,10 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() < MIN_SIZE + event_name_length {
+            return false;
+        }
+
         let text_length = usize::from(slice[6 + event_name_length]);
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..739da1f 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,6 +42,23 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() < MIN_SIZE + length_of_items {
+            return false;
+        }
+
+        // each item is a pair of the sized strings
+        let mut items = &slice[7 .. 7 + length_of_items];
+        while ! items.is_empty() {
+            for _ in 0 .. 2 {
+                match items.split_first() {
+                    Some((&length, next)) if next.len() >= usize::from(length) => {
+                        items = &next[usize::from(length) ..];
+                    },
+                    _ => return false,
+                }
+            }
+        }
+
         let text_length = usize::from(slice[7 + length_of_items]);
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
-- 
2.43.0


From 4457167278f86ae116e67c7ec4bb5daf14046be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:56 +0000
Subject: [PATCH 11/32] fix: count length bytes of items in the extended event
 descriptor

Descriptor length and size of the section were wrong for a descriptor
with items.
---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 739da1f..6178789 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -105,7 +105,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 1 + item_desc.size() + 1 + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From f84cec82a0e08dfa7b01742c0fccecf771787174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 12/32] fix: overflow in u16::from_bcd_time

Hours were converted to minutes in u8, so any time from 05:00 on was
wrong.
---
 src/psi/utils/bcd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..74b2b69 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -67,7 +67,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        u16::from(u8::from_bcd((self >> 8) as u8)) * 60 +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From 31331aa5ee8c5299781e6045a1e90d035fdb87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 13/32] fix: do not panic on invalid BCD digits, dates, and
 frequencies

These values come from the stream. A date before 1970 and a frequency
out of range were a panic in debug and a wrapped value in release.
---
 src/psi/descriptors/x43.rs | 2 +-
 src/psi/descriptors/x44.rs | 2 +-
 src/psi/descriptors/x5a.rs | 2 +-
 src/psi/utils/bcd.rs       | 2 --
 src/psi/utils/mjd.rs       | 3 +--
 5 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..8dec5a0 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -51,7 +51,7 @@ impl Desc43 {
     pub fn parse(slice: &[u8]) -> Self {
         Self {
             frequency: slice[2 ..].get_u32().from_bcd() * 10,
-            orbital_position: slice[6 ..].get_u16().from_bcd() * 6,
+            orbital_position: slice[6 ..].get_u16().from_bcd().saturating_mul(6),
             west_east_flag: (slice[8] & 0b1000_0000) >> 7,
             polarization: (slice[8] & 0b0110_0000) >> 5,
             rof: (slice[8] & 0b0001_1000) >> 3,
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..c540d77 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -41,7 +41,7 @@ impl Desc44 {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32().from_bcd() * 100,
+            frequency: slice[2 ..].get_u32().from_bcd().saturating_mul(100),
             fec_outer: slice[7] & 0x0F,
             modulation: slice[8],
             symbol_rate: slice[9 ..].get_u24().from_bcd(),
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..10e6b55 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -60,7 +60,7 @@ impl Desc5A {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32() * 10,
+            frequency: slice[2 ..].get_u32().saturating_mul(10),
             bandwidth: (slice[6] & 0b1110_0000) >> 5,
             priority: (slice[6] & 0b0001_0000) >> 4,
             time_slicing: (slice[6] & 0b0000_1000) >> 3,
diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 74b2b69..4e1595e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..edad452 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self.saturating_sub(40587)) * 86400
     }
 }
 
-- 
2.43.0


From 74b80c9561e9de2ddb2a2b664f3dcc362865f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 14/32] fix: print text with an unsupported codepage

Display returned an error, so to_string() and Debug of any table with
such text panicked.
---
 src/textcode/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..fc4aed5 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -101,16 +101,13 @@ impl fmt::Display for StringDVB {
             return f.write_str(&String::from_utf8_lossy(&self.data));
         }
 
-        let map = match get_codepage_map(self.codepage) {
-            Some(v) => v,
-            None => return Err(fmt::Error),
-        };
+        let map = get_codepage_map(self.codepage);
 
         for &c in &self.data {
             if c <= 0x7F {
                 f.write_char(c as char)?;
             } else if c >= 0xA0 {
-                match map[c as usize - 0xA0] {
+                match map.map_or(0, |v| v[c as usize - 0xA0]) {
                     0 => f.write_char('?'),
                     u => f.write_char(unsafe { char::from_u32_unchecked(u32::from(u)) }),
                 }?;
-- 
2.43.0


From 151fdc6348479fad6cc1d052bdedefcae1146056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 15/32] fix: do not alias characters above U+FFFF

The code point was cut to 16 bits and could become any other character,
for example U+10041 became A.
---
 src/textcode/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index fc4aed5..73bd09c 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -151,7 +151,8 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    // codepage maps contain only BMP characters
+                    let c = cmp::min(c as u32, 0xFFFF) as u16;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-- 
2.43.0


From dbea13307683ea81b95c199889850b89ee661065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 16/32] fix: do not cut UTF-8 characters in truncate and split

truncate() ignored character boundaries and split() stepped back two
bytes at most, that is not enough for a character of four bytes.
---
 src/textcode/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 73bd09c..59f881c 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -240,10 +240,14 @@ impl StringDVB {
 
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let mut skip = size - 3;
+            if self.codepage == UTF8 {
+                while skip > 0 && self.data[skip] & 0xC0 == 0x80 {
+                    skip -= 1;
+                }
+            }
+            self.data.truncate(skip);
+            self.data.extend_from_slice(b"...");
         }
     }
 
@@ -265,7 +269,7 @@ impl StringDVB {
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
             if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
+                for _ in 1 .. 4 {
                     if self.data[next] & 0xC0 != 0x80 {
                         break;
                     }
-- 
2.43.0


From dd8f480b440d835304bf219b7d06e07913397f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 17/32] fix: keep packet on zero-length read from TsDrain

Packet was read from the inner reader and overwritten by the next call.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From 82cd9a469064246ef0060425272e132888ace73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 18/32] fix: retry interrupted read in TsReader

ErrorKind::Interrupted means that read should be repeated, but the
already received part of the packet was lost.
---
 src/reader/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 79c6bce..146e939 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -49,6 +49,16 @@ impl<R: fmt::Debug + Read> TsReader<R> {
     #[inline]
     pub fn into_inner(self) -> R { self.inner }
 
+    /// Reads from the underlying reader, continues if interrupted by a signal.
+    fn read_inner(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.inner.read(buf) {
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
+                result => return result,
+            }
+        }
+    }
+
     /// Parses TS packets
     fn parse(&mut self, packet: &[u8]) {
         let _pid = ts::get_pid(packet);
@@ -74,7 +84,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         let mut skip = 0;
 
         while skip == 0 {
-            let x = self.inner.read(&mut packet[.. 1])?;
+            let x = self.read_inner(&mut packet[.. 1])?;
             if x == 0 {
                 return Ok(0)
             }
@@ -84,7 +94,7 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
         }
 
         while skip != ts::PACKET_SIZE {
-            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;
+            let x = self.read_inner(&mut packet[skip .. ts::PACKET_SIZE])?;
             if x == 0 {
                 return Ok(0)
             }
-- 
2.43.0


From d5df49a1e5c2c34386c5550e51686c541fcaea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 19/32] fix: pts_delta is one tick short on wrap-around

Period of the 33-bit counter is PTS_NONE, PTS_MAX is the last value.
---
 src/es/pes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
-- 
2.43.0


From ddc0664becdb6ac5a9b598f09903b259825024b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 20/32] fix: pcr_jitter_ns is one tick off on wrap-around

Period of the clock is PCR_NONE, PCR_MAX is the last value.
---
 src/ts/pcr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..7b5793d 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -115,14 +115,14 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
     let mut result = {
         if pcr < stc {
-            pcr + PCR_MAX - stc
+            pcr + PCR_NONE - stc
         } else {
             pcr - stc
         }
     } as i64;
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From d95b70f130f50a60adc3ca187683b1f97202a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 21/32] fix: no TS packets for an empty PSI

demux() appended 188 bytes of stuffing without a TS header.
---
 src/psi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 1d524ba..a590fc3 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -220,6 +220,10 @@ impl Psi {
     /// psi.demux(&mut ts);
     /// ```
     pub fn demux(&mut self, dst: &mut Vec<u8>) {
+        if self.size == 0 {
+            return;
+        }
+
         let mut psi_skip = 0;
         let mut dst_skip = dst.len();
 
-- 
2.43.0


From 0719994a3fbe2b46a17a4557c18215e6a584e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:01 +0000
Subject: [PATCH 22/32] fix: clone raw descriptor with a known tag

Clone panicked for a descriptor that is kept raw as it failed the check.
---
 src/psi/descriptors/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..0cfee52 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,11 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        // any descriptor could be raw if its content is not valid
+        if let Some(raw) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return raw.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From 60d2d48fe6c5022c7d9ea3a5b94b5856f3f083c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:49 +0000
Subject: [PATCH 23/32] fix: compare empty and incomplete PSI

There is no checksum in the buffer yet and comparison panicked.
---
 src/psi/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index a590fc3..bc9bf84 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,7 +61,16 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
-        self.size == other.size && self.get_crc32() == other.get_crc32()
+        if self.size != other.size {
+            return false;
+        }
+
+        let skip = self.size.saturating_sub(4);
+        match (self.buffer.get(skip .. self.size), other.buffer.get(skip .. self.size)) {
+            (Some(a), Some(b)) => a == b,
+            (None, None) => self.buffer == other.buffer,
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From f4f88c39d3354794f4d7f5a40dd17eedcf80055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:49 +0000
Subject: [PATCH 24/32] fix: split PAT into several sections

Programs that do not fit in the first section were dropped.
---
 src/psi/pat.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..338e050 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,34 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = vec![self.psi_init()];
 
         for item in &self.items {
-            if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+            {
+                let psi = psi_list.last_mut().unwrap();
+                if PAT_SECTION_SIZE >= psi.buffer.len() + item.size() {
+                    item.assemble(&mut psi.buffer);
+                    continue;
+                }
             }
+
+            let mut psi = self.psi_init();
             item.assemble(&mut psi.buffer);
+            psi_list.push(psi);
         }
 
-        vec![psi]
+        psi_list
     }
 }
 
-- 
2.43.0


From 392e07f54692704d0d45fbf436b322124a960f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:50 +0000
Subject: [PATCH 25/32] fix: EIT duration of 24 hours and more

Hours of the event duration were taken modulo 24.
---
 src/psi/eit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..86f3461 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -72,7 +73,9 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+        // to_bcd_time() is for time of day, but duration could be up to 99 hours
+        let duration_h = (self.duration / 3600).to_bcd() << 16;
+        buffer[skip + 7 ..].set_u24(duration_h + (self.duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From 349e4de846f062e998f3022d1c0e561dca1852a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:50 +0000
Subject: [PATCH 26/32] fix: table id of the first EIT schedule section with
 events

Numbering begins from the first table of the schedule, like in the empty
sections before it.
---
 src/psi/eit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 86f3461..ee071f1 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -242,6 +242,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
-- 
2.43.0


From 941c4c80f0136d826d95c45be69ac6c18f40ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:50 +0000
Subject: [PATCH 27/32] fix: skip all segments without events in EIT schedule

After a gap in the schedule only one segment was skipped, and all
further events got into wrong segments.
---
 src/psi/eit.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index ee071f1..b8c2e52 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -248,9 +248,7 @@ impl PsiDemux for Eit {
         }
 
         for item in &self.items {
-            let psi = psi_list.last_mut().unwrap();
-
-            if item.start >= next_midnight {
+            while item.start >= next_midnight {
                 midnight = next_midnight;
                 next_midnight = midnight + SEG_DURATION;
 
@@ -265,11 +263,11 @@ impl PsiDemux for Eit {
                 let mut psi = self.psi_init();
                 psi.buffer[0] = current_table_id;
                 psi.buffer[6] = current_section;
-                item.assemble(&mut psi.buffer);
                 psi_list.push(psi);
-                continue;
             }
 
+            let psi = psi_list.last_mut().unwrap();
+
             if item.size() + psi.buffer.len() >= EIT_SECTION_SIZE {
                 current_section = current_section + 1;
 
-- 
2.43.0


From 7bba1a3d2f896c8cdedf05b56d8a93b54ca5efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:50 +0000
Subject: [PATCH 28/32] fix: segment_last_section_number in EIT schedule

It was the number of the section itself, not of the last section in the
segment.
---
 src/psi/eit.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index b8c2e52..9303de3 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -282,22 +282,26 @@ impl PsiDemux for Eit {
             item.assemble(&mut psi.buffer);
         }
 
-        // TODO: fix Segment_last_Section_number
-
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
+        let mut segment_last_section_number = 0x00;
 
         // Now current_section is last_section_number
         for psi in psi_list.iter_mut().rev() {
             if psi.buffer[0] != current_table_id {
                 current_table_id = psi.buffer[0];
                 last_section_number = psi.buffer[6];
+                segment_last_section_number = psi.buffer[6];
+            }
+
+            if psi.buffer[6] / 8 != segment_last_section_number / 8 {
+                segment_last_section_number = psi.buffer[6];
             }
 
             // Last_Section_number
             psi.buffer[7] = last_section_number;
             // Segment_last_Section_number
-            psi.buffer[12] = psi.buffer[6];
+            psi.buffer[12] = segment_last_section_number;
             // Last_table_id
             psi.buffer[13] = last_table_id;
 
-- 
2.43.0


From 338d10ccf836d394c68810064dfc9e6f714ace52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:09 +0000
Subject: [PATCH 29/32] fix: code of the Reed-Solomon outer FEC

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index b8d814b..47e436a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -35,7 +35,7 @@ pub const MODULATION_DVB_T_64QAM: u8  = 0b10;
 
 pub const FEC_OUTER_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_OUTER_NO_CODING: u8   = 0b0001;
-pub const FEC_OUTER_RS: u8          = 0b0001;
+pub const FEC_OUTER_RS: u8          = 0b0010;
 
 pub const FEC_NOT_DEFINED: u8 = 0b0000;
 pub const FEC_1_2: u8         = 0b0001;
-- 
2.43.0


From d42b29ea5ce42c7c599f6597f1405cc93ba6a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:20 +0000
Subject: [PATCH 30/32] fix: copying descriptors defined outside of the library

---
 src/psi/descriptors/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0cfee52..94ea13f 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -6,6 +6,7 @@
 // permission of Cesbo OU
 
 use std::{
+    cmp,
     fmt,
     any::Any,
 };
@@ -72,7 +73,13 @@ impl Clone for Descriptor {
             0x58 => self.downcast_ref::<Desc58>().clone().into(),
             0x5A => self.downcast_ref::<Desc5A>().clone().into(),
             0x83 => self.downcast_ref::<Desc83>().clone().into(),
-            _ => self.downcast_ref::<DescRaw>().clone().into(),
+            tag => {
+                // descriptor is not defined in the library, copy its content
+                let mut data = Vec::new();
+                self.assemble(&mut data);
+                data.drain(.. cmp::min(2, data.len()));
+                DescRaw { tag, data }.into()
+            },
         }
     }
 }
-- 
2.43.0


From df8591447fdd2064f0bf9828c9558d885fc5d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:55 +0000
Subject: [PATCH 31/32] fix: estimated clock beyond the PCR wrap-around

pcr_to_stc returned values outside of the PCR range when the clock wraps
before the current packet. pcr_jitter_ns panics on such values. The
product of a long PCR distance (after a step back of the clock) and the
number of bytes also overflowed.
---
 src/ts/pcr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 7b5793d..fbbf5ab 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -106,7 +106,8 @@ pub fn pcr_delta(last_pcr: u64, current_pcr: u64) -> u64 {
 /// ```
 #[inline]
 pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -> u64 {
-    last_delta * bytes / last_bytes + last_pcr
+    let elapsed = u128::from(last_delta) * u128::from(bytes) / u128::from(last_bytes);
+    ((elapsed + u128::from(last_pcr)) % u128::from(PCR_NONE)) as u64
 }
 
 
-- 
2.43.0


From ded384381946f1d6b57348c036d62c3cb1dd232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:55 +0000
Subject: [PATCH 32/32] fix: bitrate for PCR interval less than 1ms

pcr_delta_bitrate divided by zero, for example if PCR is repeated.
---
 src/ts/pcr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index fbbf5ab..01acfc7 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -141,7 +141,13 @@ pub fn pcr_to_ms(pcr: u64) -> u64 { pcr / PCR_CLOCK_MS }
 
 
 /// Claclulate PCR bitrate
+///
+/// Returns `0` if PCR interval is less than 1ms
 #[inline]
 pub fn pcr_delta_bitrate(delta: u64, bytes: u64) -> u64 {
+    if delta < PCR_CLOCK_MS {
+        return 0;
+    }
+
     (bytes * 8) / pcr_to_ms(delta)
 }
-- 
2.43.0

