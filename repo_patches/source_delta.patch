From 50b9d27ae92891c93486f6333313ef9fe8777499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:21 +0000
Subject: [PATCH 01/28] fix: return 0 for an invalid payload offset

The documented contract of ts::get_payload_offset is to return 0 if the packet
has no payload or the adaptation field does not fit into the packet. An
adaptation field length of 251 or more overflowed instead.
---
 src/psi/mod.rs |  2 +-
 src/ts/mod.rs  | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..0063cee 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,10 +80,17 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
+    if ! is_payload(ts) {
+        return 0;
+    }
+
     if ! is_adaptation(ts) {
-        4
-    } else {
-        4 + 1 + get_adaptation_size(ts)
+        return 4;
+    }
+
+    match get_adaptation_size(ts) {
+        size if size < 183 => 4 + 1 + size,
+        _ => 0,
     }
 }
 
-- 
2.43.0


From 26360b525dee4b2cd1d1c09f819ee9071e3134d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:22 +0000
Subject: [PATCH 02/28] fix: reject pointer field beyond the end of the TS
 packet

The limit for the pointer field did not take the adaptation field into account,
so Psi::mux sliced past the packet end.
---
 src/psi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..e5b9a47 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,11 +116,11 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From 55c06ab0552d0ab4a1cadc6c2e167f60e7b9c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:24 +0000
Subject: [PATCH 03/28] fix: keep section header split across TS packets

While less than 3 bytes of the section are received the section size is not
known. Psi::mux dropped these bytes on a continuation packet.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e5b9a47..adb140a 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -146,7 +146,7 @@ impl Psi {
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
+            if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
             }
         }
-- 
2.43.0


From a6ce4f64d4e658d388fc89e559c7c6512a81736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:25 +0000
Subject: [PATCH 04/28] fix: ignore continuation packets before the section
 start

A section begins only in a packet with the payload unit start indicator.
Psi::mux accepted bytes from the middle of a section as a section header if the
buffer was empty and the continuity counter matched by chance.
---
 src/psi/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index adb140a..113ce26 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -140,7 +140,7 @@ impl Psi {
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
                 return;
             }
-- 
2.43.0


From 5a81710fd5af205e024b47064354d5c51d102b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:26 +0000
Subject: [PATCH 05/28] fix: continue section started after the tail of the
 previous one

If a section starts in the packet that completes the previous section and is
continued in a packet without the payload unit start indicator, Psi::mux
truncated the buffer to the previous section and lost the new one.
---
 src/psi/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 113ce26..64ffada 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -145,6 +145,12 @@ impl Psi {
                 return;
             }
 
+            // drop the previous section, its tail was followed by the current one
+            if self.size != 0 && self.buffer.len() > self.size {
+                self.buffer.drain(0 .. self.size);
+                self.size = 0;
+            }
+
             self.push(&ts[ts_offset .. 188]);
             if self.size != 0 && self.buffer.len() > self.size {
                 self.buffer.resize(self.size, 0x00);
-- 
2.43.0


From 6c0fd0de96faf7b0fa31ac9052b6bde7b2ad784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:27 +0000
Subject: [PATCH 06/28] fix: compare incomplete PSI packets without panic

The checksum was read from the buffer even if the section is empty or not
completely received.
---
 src/psi/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 64ffada..c0d0df1 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,6 +61,11 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
+        if self.size < 4 || self.buffer.len() < self.size || other.buffer.len() < self.size {
+            // checksum is not available
+            return self.size == other.size && self.buffer == other.buffer;
+        }
+
         self.size == other.size && self.get_crc32() == other.get_crc32()
     }
 }
-- 
2.43.0


From cf991eb216547932cf57c63365805aeae47d5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:28 +0000
Subject: [PATCH 07/28] fix: BCD conversion of received values

The conversion from BCD is applied to received data where digits above 9 are
allowed to mark an undefined time, so it should not panic. Hours in the 16-bit
time were multiplied in u8 and overflowed starting from 5 hours.
---
 src/psi/utils/bcd.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..3e9bd2e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
@@ -67,7 +65,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        (u16::from(u8::from_bcd((self >> 8) as u8)) * 60) +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From 5ca104489f22d9e5e12d64ca60135789265ba7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:29 +0000
Subject: [PATCH 08/28] fix: dates before the Unix epoch in received tables

Modified Julian Date below 40587 underflowed. Such dates can not be represented
as a Unix timestamp and are limited to 0.
---
 src/psi/utils/mjd.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From a84a885156dc8f03dcf8587c160ff2c2798e609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:30 +0000
Subject: [PATCH 09/28] fix: delivery system descriptors with unrepresentable
 values

A frequency or an orbital position that does not fit into the field overflowed
on parsing. Keep such descriptors raw.
---
 src/psi/descriptors/x43.rs | 3 ++-
 src/psi/descriptors/x44.rs | 3 ++-
 src/psi/descriptors/x5a.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..f40e9b3 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -45,7 +45,8 @@ pub struct Desc43 {
 
 impl Desc43 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        slice[6 ..].get_u16().from_bcd() <= u16::max_value() / 6
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..9a40886 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -36,7 +36,8 @@ pub struct Desc44 {
 
 impl Desc44 {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        slice[2 ..].get_u32().from_bcd() <= u32::max_value() / 100
     }
 
     pub fn parse(slice: &[u8]) -> Self {
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..0d3029e 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -55,7 +55,8 @@ pub struct Desc5A {
 
 impl Desc5A {
     pub fn check(slice: &[u8]) -> bool {
-        slice.len() == MIN_SIZE
+        slice.len() == MIN_SIZE &&
+        slice[2 ..].get_u32() <= u32::max_value() / 10
     }
 
     pub fn parse(slice: &[u8]) -> Self {
-- 
2.43.0


From 287f6855a0b2e9ca6384d04f92287c0957584bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:31 +0000
Subject: [PATCH 10/28] fix: malformed text lengths in the event and service
 descriptors

Length fields inside of the descriptor were used without checking them against
the descriptor size, so malformed data caused a panic. Keep such descriptors
raw.
---
 src/psi/descriptors/x48.rs |  4 ++++
 src/psi/descriptors/x4d.rs |  4 ++++
 src/psi/descriptors/x4e.rs | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..466b660 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,8 +34,12 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() < MIN_SIZE + provider_length {
+            return false;
+        }
         let name_length = usize::from(slice[4 + provider_length]);
 
+        slice.len() == MIN_SIZE + provider_length + name_length &&
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
     }
 
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..6ce6064 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,7 +34,11 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() < MIN_SIZE + event_name_length {
+            return false;
+        }
         let text_length = usize::from(slice[6 + event_name_length]);
+        slice.len() == MIN_SIZE + event_name_length + text_length &&
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
 
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..8629686 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,7 +42,26 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() < MIN_SIZE + length_of_items {
+            return false;
+        }
         let text_length = usize::from(slice[7 + length_of_items]);
+        if slice.len() != MIN_SIZE + length_of_items + text_length {
+            return false;
+        }
+
+        // items should fit into the items loop
+        let items_e = 7 + length_of_items;
+        let mut skip = 7;
+        while skip < items_e {
+            let item_text = skip + 1 + usize::from(slice[skip]);
+            if item_text >= items_e {
+                return false;
+            }
+            skip = item_text + 1 + usize::from(slice[item_text]);
+        }
+
+        skip == items_e &&
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
 
-- 
2.43.0


From 49dee85228771a628b4dfd42430c3d03f9736b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:33 +0000
Subject: [PATCH 11/28] fix: extended event descriptor length with items

The size did not include the length bytes of the item description and the item
text, so the descriptor_length was less than the actual size.
---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 8629686..5cb27eb 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -107,7 +107,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 2 + item_desc.size() + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From e53fa4d873e6c18de3f8665a08d735af238255fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:34 +0000
Subject: [PATCH 12/28] fix: clone of a raw descriptor with a known tag

A descriptor that does not pass the check is stored as raw with its own tag.
Cloning it panicked on a downcast to the type selected by the tag.
---
 src/psi/descriptors/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..53eedd1 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,11 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        // malformed descriptor is stored as raw with any tag
+        if let Some(desc) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return desc.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From e9e249f994bd5d16f977b0f97ba117e52d182863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:35 +0000
Subject: [PATCH 13/28] fix: offset of the program descriptors in PMT

The program info loop starts right after the 12 bytes header. It was parsed one
byte earlier.
---
 src/psi/pmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..fdc5002 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,7 +138,7 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 6ab0d6862b018b6ef07db1dbb9aa0f3c6c20392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:36 +0000
Subject: [PATCH 14/28] fix: descriptors loop longer than the section

The length of the descriptors loop in PMT, NIT, and TOT was used without
checking it against the section size.
---
 src/psi/nit.rs | 3 +++
 src/psi/pmt.rs | 3 +++
 src/psi/tot.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..8da33dd 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -106,6 +106,9 @@ impl Nit {
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index fdc5002..b85a2d8 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -138,6 +138,9 @@ impl Pmt {
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
         let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..0f541fd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -49,6 +49,9 @@ impl Tot {
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
         let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From 8a2da09d6be1640176fdf87ba1b84fe840b77173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:37 +0000
Subject: [PATCH 15/28] fix: ignore incomplete TDT section

The time was read from the buffer before the whole section is received.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From 4c2e5b691d512c2467d7a60da01cb94a703cfd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:38 +0000
Subject: [PATCH 16/28] fix: PAT with more items than fit into the one section

Items above the section size limit were silently dropped. Split PAT into several
sections like the other tables.
---
 src/psi/pat.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..338e050 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,34 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = vec![self.psi_init()];
 
         for item in &self.items {
-            if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+            {
+                let psi = psi_list.last_mut().unwrap();
+                if PAT_SECTION_SIZE >= psi.buffer.len() + item.size() {
+                    item.assemble(&mut psi.buffer);
+                    continue;
+                }
             }
+
+            let mut psi = self.psi_init();
             item.assemble(&mut psi.buffer);
+            psi_list.push(psi);
         }
 
-        vec![psi]
+        psi_list
     }
 }
 
-- 
2.43.0


From ac90e7b65332f9d7adafe3e152ae42f652d546f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:40 +0000
Subject: [PATCH 17/28] fix: EIT event duration of 24 hours and more

The hours of the duration were limited as the time of day, so an event longer
than 24 hours lost whole days on assembling.
---
 src/psi/eit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..072684a 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -72,7 +73,8 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+        buffer[skip + 7 ..].set_u24(
+            ((self.duration / 3600).to_bcd() << 16) | (self.duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From 6a47074521a1a3bb677abdae33f22c5d8161f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:41 +0000
Subject: [PATCH 18/28] fix: characters above U+FFFF in single byte codepages

The code point was truncated to 16 bits and an unrelated character was encoded.
---
 src/textcode/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..7bdb8de 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -154,7 +154,8 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    // characters out of the basic plane are not supported by codepages
+                    let c = cmp::min(c as u32, 0xFFFF) as u16;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-- 
2.43.0


From 4298484d511b9f13285d9107b4249e454000135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:42 +0000
Subject: [PATCH 19/28] fix: received text with unsupported character table

Such text was accepted with a codepage that is not supported, so it could not be
formatted (to_string and Debug panicked) and was assembled with a wrong
character table code.
---
 src/textcode/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 7bdb8de..d1d2db0 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -300,12 +300,14 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 {
+        } else if data[0] < 0x10 && get_codepage_map(data[0] + 4).is_some() {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
             }
-        } else if data[0] == 0x10 && data.len() >= 3 {
+        } else if data[0] == 0x10 && data.len() >= 3 &&
+            data[2] != ISO6937 && get_codepage_map(data[2]).is_some()
+        {
             StringDVB {
                 codepage: data[2],
                 data: Vec::from(&data[3 ..]),
-- 
2.43.0


From ed88cd1b9b5f3e41a86983bc237fd16c866fbe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:43 +0000
Subject: [PATCH 20/28] fix: truncate text to less than 3 bytes

The index of the ellipsis underflowed.
---
 src/textcode/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index d1d2db0..738170d 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -244,9 +244,9 @@ impl StringDVB {
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
             self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            for c in &mut self.data[size.saturating_sub(3) ..] {
+                *c = b'.';
+            }
         }
     }
 
-- 
2.43.0


From d2770bfa5728dbfc61f7b32fd6f486a1af24fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:44 +0000
Subject: [PATCH 21/28] fix: split of UTF-8 text with 4 byte characters

A 4 byte character has 3 continuation bytes, so it could be broken between two
parts of the text.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 738170d..b9e6a52 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -268,7 +268,7 @@ impl StringDVB {
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
             if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
+                for _ in 1 .. 4 {
                     if self.data[next] & 0xC0 != 0x80 {
                         break;
                     }
-- 
2.43.0


From ee13e0bfbcdc90bf1d6494d8f648086b5a129700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:46 +0000
Subject: [PATCH 22/28] fix: read from TsDrain into an empty buffer

A packet was taken from the inner reader and lost, as nothing could be copied
into the buffer.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From e973541d9295eda8348034b0b95ba2e16e106f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:47 +0000
Subject: [PATCH 23/28] fix: PTS difference on the counter overflow

The counter has 2^33 values, the difference was one tick less.
---
 src/es/pes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
-- 
2.43.0


From 569573368aa56018eccc1cb8b545bb925d4c1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:48 +0000
Subject: [PATCH 24/28] fix: STC on the PCR counter overflow

The estimated value was not limited to the range of the PCR counter, so the jitter
calculation underflowed right after the overflow.
---
 src/ts/pcr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..4b275d6 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -106,7 +106,7 @@ pub fn pcr_delta(last_pcr: u64, current_pcr: u64) -> u64 {
 /// ```
 #[inline]
 pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -> u64 {
-    last_delta * bytes / last_bytes + last_pcr
+    (last_delta * bytes / last_bytes + last_pcr) % PCR_NONE
 }
 
 
-- 
2.43.0


From 680971a4fb2471fe0cc760efc1d0ceeacad3e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:41:49 +0000
Subject: [PATCH 25/28] fix: PCR jitter on the counter overflow

The counter has 2^33 * 300 values, the jitter was one tick off for each value
across the overflow and for each negative value.
---
 src/ts/pcr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 4b275d6..fc4f963 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -115,14 +115,14 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
     let mut result = {
         if pcr < stc {
-            pcr + PCR_MAX - stc
+            pcr + PCR_NONE - stc
         } else {
             pcr - stc
         }
     } as i64;
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From 271726d7c34b109786507000db4f73648647dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:38 +0000
Subject: [PATCH 26/28] fix: limit bytes retained by Psi::mux when several
 sections end in one packet

Short sections followed by a start indicator were dropped one per packet while
a whole payload was added, so the buffer grew without bound. A start indicator
after a complete section now begins a new section at the pointer.
---
 src/psi/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index c0d0df1..720b8b6 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -127,7 +127,15 @@ impl Psi {
                 return;
             }
 
-            if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
+            // drop the previous section, its tail was followed by the current one
+            if self.size != 0 && self.buffer.len() > self.size {
+                self.buffer.drain(0 .. self.size);
+                self.size = 0;
+                self.push(&[]);
+            }
+
+            let is_complete = self.size != 0 && self.buffer.len() >= self.size;
+            if pointer_field == 0 || is_complete || cc != (self.cc + 1) & 0x0F {
                 self.clear();
             }
 
@@ -138,10 +146,6 @@ impl Psi {
                     self.buffer.resize(self.size, 0x00);
                 }
             } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
                 self.push(&ts[ts_offset .. 188]);
             }
         } else {
-- 
2.43.0


From 3bf9747fe86d2ce468d827351d8b78423ec867a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:54 +0000
Subject: [PATCH 27/28] fix: reserved text prefix 0x00 was decoded as ISO
 8859-4

---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index b9e6a52..0c3bef1 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -300,7 +300,7 @@ impl<'a> From<&'a [u8]> for StringDVB {
                 codepage: 0,
                 data: Vec::from(data),
             }
-        } else if data[0] < 0x10 && get_codepage_map(data[0] + 4).is_some() {
+        } else if data[0] > 0x00 && data[0] < 0x10 && get_codepage_map(data[0] + 4).is_some() {
             StringDVB {
                 codepage: data[0] + 4,
                 data: Vec::from(&data[1 ..]),
-- 
2.43.0


From 5fbcc3f6823d409d49b305f55e83a552e5339134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:11 +0000
Subject: [PATCH 28/28] fix: first EIT schedule section with events kept an
 unaligned table id

Eit::psi_list_assemble starts schedules at the table id with the low four
bits cleared. The first section with events was still written with the
original id, so it stood apart from the other sections of its table and the
last section number of the empty sections before it was wrong.
---
 src/psi/eit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 072684a..482162d 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -241,6 +241,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
-- 
2.43.0

