From e9611052ba220d893e95967e8094eee737d972b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 01/10] fix: round analog output values instead of truncating
 them

A raw value that is decoded and encoded again could come out one step
lower, so unchanged analog outputs drifted from cycle to cycle.
---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..96b2337 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,8 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    // Truncating would lose a step each time a value is decoded and encoded again.
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From 730d830e3420c4fd30de7288fabd26a047689fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 02/10] fix: track the last transmission counter per
 communication module

With more than one communication module the shared counter made the
reported outputs repeat or miss transmitted segments.
---
 src/ur20_fbc_mod_tcp.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..9b16679 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each communication module
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,11 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt =
+                            self.last_tx_cnt.insert(m_nr, out_v.tx_cnt).unwrap_or(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From e9be6effaf75056a18f80392ffa9628743c98423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 03/10] fix: refuse invalid output offsets instead of panicking

---
 src/ur20_fbc_mod_tcp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 9b16679..0eb1775 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -389,7 +389,7 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
-    let start = (start - addr) as usize;
+    let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
     let word_count = {
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
@@ -440,7 +440,8 @@ pub fn process_output_values(
                     }
                     let shared_low_byte = out[start] & 0x00FF;
                     let buf = u16_to_u8(&data);
-                    let shared_high_byte = u16::from(buf[0]) << 8;
+                    let first = *buf.first().ok_or(Error::ModuleOffset)?;
+                    let shared_high_byte = u16::from(first) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
                 }
-- 
2.43.0


From 22443806ed4430217903e69ad4ae0d3cd407861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 04/10] fix: ignore registers beyond the thermocouple channel
 parameters

A parameter block of 36 or more registers made the conversion panic.
---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..794679a 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(ModuleType::UR20_4AI_TC_DIAG.channel_count())
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From b1477726ee733f112e7d43414c4736cbb06dd884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 05/10] fix: process all bytes of modules that start in a high
 byte

The last input byte of such a module was lost and only the first of its
output bytes was written.
---
 src/ur20_fbc_mod_tcp.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 0eb1775..4151cbe 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -394,7 +394,11 @@ fn prepare_raw_data_to_process(
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
     };
-    let end = start + word_count;
+    let mut end = start + word_count;
+    if bit == 8 && byte_count > 1 {
+        // the last byte is the low byte of the next register
+        end += 1;
+    }
     if end > data.len() {
         return Err(Error::BufferLength);
     }
@@ -402,7 +406,11 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 => {
+            let mut words = shift_data(output);
+            words.truncate(word_count);
+            Ok(words)
+        }
         _ => Err(Error::ModuleOffset),
     }
 }
@@ -439,11 +447,13 @@ pub fn process_output_values(
                         return Err(Error::ModuleOffset);
                     }
                     let shared_low_byte = out[start] & 0x00FF;
-                    let buf = u16_to_u8(&data);
-                    let first = *buf.first().ok_or(Error::ModuleOffset)?;
-                    let shared_high_byte = u16::from(first) << 8;
+                    let mut buf = u16_to_u8(&data);
+                    buf.truncate(m.process_output_byte_count());
+                    let (first, remaining) = buf.split_first().ok_or(Error::ModuleOffset)?;
+                    let shared_high_byte = u16::from(*first) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
+                    out.extend_from_slice(&u8_to_u16(remaining));
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From 957fc4fd348dbd40feaa91ad1579f252a3e9ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 06/10] fix: keep the coupler state unchanged if a cycle fails

A failed cycle replaced the cached input values and dropped pending
write requests and queued message segments.
---
 src/ur20_fbc_mod_tcp.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 4151cbe..5a77f6a 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -255,14 +255,24 @@ impl Coupler {
             .zip(&self.offsets)
             .map(|(m, o)| (&**m, o))
             .collect();
-        self.in_values = process_input_data(&infos, process_input)?;
-        self.out_values = process_output_data(&infos, process_output)?;
+        let mut in_values = process_input_data(&infos, process_input)?;
+        let mut out_values = process_output_data(&infos, process_output)?;
 
-        let mut next_out_values = self.out_values.clone();
+        let mut next_out_values = out_values.clone();
+        for (addr, v) in &self.write {
+            if !self.processors.contains_key(&addr.module) {
+                next_out_values[addr.module][addr.channel] = v.clone();
+            }
+        }
+        // Make sure that the cycle can't fail before any state is changed.
+        process_output_values(&infos, &next_out_values)?;
+
+        self.write
+            .retain(|addr, _| self.processors.contains_key(&addr.module));
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
 
-        for (m_nr, (in_v, out_v)) in self.in_values.iter().zip(&self.out_values).enumerate() {
+        for (m_nr, (in_v, out_v)) in in_values.iter().zip(&out_values).enumerate() {
             if let Some(p) = self.processors.get_mut(&m_nr) {
                 if let ChannelValue::ComRsIn(ref in_v) = in_v[0] {
                     if let ChannelValue::ComRsOut(ref out_v) = out_v[0] {
@@ -290,23 +300,16 @@ impl Coupler {
                         }
                     }
                 }
-            } else {
-                for (i, _) in out_v.iter().enumerate() {
-                    if let Some(v) = self.write.remove(&Address {
-                        module: m_nr,
-                        channel: i,
-                    }) {
-                        next_out_values[m_nr][i] = v;
-                    }
-                }
             }
         }
         for (m_nr, v) in in_bytes {
-            self.in_values[m_nr][0] = v;
+            in_values[m_nr][0] = v;
         }
         for (m_nr, v) in out_bytes {
-            self.out_values[m_nr][0] = v;
+            out_values[m_nr][0] = v;
         }
+        self.in_values = in_values;
+        self.out_values = out_values;
         process_output_values(&infos, &next_out_values)
     }
 }
-- 
2.43.0


From 2b05782e51f813750bfdc18fd0f7e2650916bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 07/10] fix: refuse output requests a module can't take

Such a request was accepted and made a later cycle fail.
---
 src/ur20_fbc_mod_tcp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 5a77f6a..e0b4688 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -244,6 +244,16 @@ impl Coupler {
         if !self.is_valid_addr(addr) {
             return Err(Error::Address);
         }
+        if self.processors.contains_key(&addr.module) {
+            if !matches!(value, ChannelValue::Bytes(_)) {
+                return Err(Error::ChannelValue);
+            }
+        } else {
+            let m = &self.modules[addr.module];
+            let mut values = vec![ChannelValue::Disabled; m.module_type().channel_count()];
+            values[addr.channel] = value.clone();
+            m.process_output_values(&values)?;
+        }
         self.write.insert(*addr, value);
         Ok(())
     }
-- 
2.43.0


From 798567833a0c4b59c51061ef841de58c7e899969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 08/10] fix: report the actual module type of analog input
 variants

---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From e8c02e2f2ed34ec33e26c3cdf7733c2cdc28e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 09/10] fix: recognise the power feed category by its name

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From 2f0e072eb148a9a748160e2d328eb2a26b648824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 10/10] fix: refuse output data of analog modules with missing
 channel parameters

---
 src/ur20_4ao_ui_16.rs      | 3 +++
 src/ur20_4ao_ui_16_diag.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..5b1fcc2 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..61da20d 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,9 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0

