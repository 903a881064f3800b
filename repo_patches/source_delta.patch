From 714a4d37ee1f7422349260b60cea6c5dfdf9515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 01/16] fix: write the reference number of a
 SimulationIdentifier

---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From 6712e0ee6ce42c9035b97c06ddd0984350985da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 02/16] fix: write the other-parameters octets of
 DeadReckoningParameters

---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From d57928d18d4fbf865001a7a45948da4224cc5514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 03/16] fix: encode and decode an entity marking as its fixed
 12-octet field

---
 src/common/data_types/entity_marking.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..a9d536f 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Octets of the marking that follow the character set
+    const MARKING_OCTETS: usize = Self::LENGTH - 1;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,26 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        // The marking is a fixed-size field: cut what does not fit (between two
+        // characters), zero-fill what is left
+        let marking = &self.entity_marking_string;
+        let mut used = marking.len().min(Self::MARKING_OCTETS);
+        while !marking.is_char_boundary(used) {
+            used -= 1;
+        }
+        buf.put_slice(&marking.as_bytes()[..used]);
+        buf.put_bytes(0u8, Self::MARKING_OCTETS - used);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let mut marking = [0u8; Self::MARKING_OCTETS];
+        buf.copy_to_slice(&mut marking);
+        let used = marking.iter().rposition(|&octet| octet != 0);
+        let marking = &marking[..used.map_or(0, |last| last + 1)];
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: String::from_utf8_lossy(marking).into_owned(),
         }
     }
 }
-- 
2.43.0


From 1aae83bd240c880cdaa96afdea1da167851cb106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 04/16] fix: decode a variable datum once, with its padding,
 and count the padding in its length

---
 src/common/data_types/datum_records.rs | 29 ++++++++++++--------------
 src/pdu_macro.rs                       | 11 ++++++++++
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..c344e29 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_octets};
 
 #[derive(Clone, Debug)]
 pub struct FixedDatumRecord {
@@ -60,6 +60,11 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    /// Octets of padding that align the record to a 64-bit boundary
+    const fn padding_count(length_bits: u32) -> usize {
+        Self::bytes_count(length_bits).next_multiple_of(8) - Self::bytes_count(length_bits)
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,25 +77,14 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
-        if pad_bytes > 0 {
-            let zeros = vec![0u8; pad_bytes];
-            for z in zeros {
-                buf.put_u8(z);
-            }
-        }
+        buf.put_bytes(0u8, Self::padding_count(self.length_bits));
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let datum_id = buf.get_u32();
         let length_bits = buf.get_u32();
-        let value_bytes = Self::bytes_count(length_bits);
-
-        let mut value = vec![0u8; value_bytes];
-        for _ in 0..value_bytes {
-            value.push(buf.get_u8());
-        }
+        let value = read_octets(buf, Self::bytes_count(length_bits));
+        buf.advance(Self::padding_count(length_bits));
 
         Self {
             datum_id,
@@ -114,6 +108,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_count(self.length_bits)
     }
 }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..79b3b80 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -47,6 +47,17 @@ where
     }
 }
 
+/// Read `count` octets, allocating no more than the buffer can fill whatever the count claims.
+pub(crate) fn read_octets<B: Buf>(buf: &mut B, count: usize) -> Vec<u8> {
+    let mut octets = vec![0u8; count.min(buf.remaining())];
+    buf.copy_to_slice(&mut octets);
+    if octets.len() < count {
+        // Underflow: let the buffer deal with it the way it does for any other read
+        buf.advance(count - octets.len());
+    }
+    octets
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
-- 
2.43.0


From ca41140f2bc9cdbebbf4916edc772e29ea9f5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 05/16] fix: write the record values a
 RecordSpecificationElement holds, without overflow

---
 .../data_types/record_specification_element.rs     | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..a466dae 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_octets};
 
 #[derive(Clone, Debug)]
 pub struct RecordSpecificationElement {
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,11 +47,8 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
-        let mut record_values: Vec<u8> = vec![];
-        for _ in 0..num_record_values {
-            record_values.push(buf.get_u8());
-        }
+        let num_record_values = usize::from(record_length) * usize::from(record_count);
+        let record_values = read_octets(buf, num_record_values);
 
         Self {
             record_id,
-- 
2.43.0


From edb240e4f6889c03079e0118a862823bb7d04eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 06/16] fix: report a truncated PDU as BufferUnderflow instead
 of panicking

---
 src/common/pdu.rs |  6 ++--
 src/pdu_macro.rs  | 86 +++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 87 insertions(+), 5 deletions(-)

diff --git a/src/common/pdu.rs b/src/common/pdu.rs
index 5a4387d..c522a96 100644
--- a/src/common/pdu.rs
+++ b/src/common/pdu.rs
@@ -34,13 +34,15 @@ pub trait Pdu {
 
     /// # Errors
     ///
-    /// Will return `DISError` if the PDU header provided is invalid
+    /// Will return `DISError` if the PDU header provided is invalid, or if the buffer holds less
+    /// than the whole PDU
     fn deserialize<B: Buf>(buf: &mut B) -> Result<Self, DISError>
     where
         Self: Sized;
     /// # Errors
     ///
-    /// Will return `DISError` if the PDU header provided is invalid
+    /// Will return `DISError` if the PDU header provided is invalid, or if the buffer holds less
+    /// than the whole PDU
     fn deserialize_without_header<B: Buf>(
         buffer: &mut B,
         pdu_header: Self::Header,
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 79b3b80..c0d7c46 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -8,6 +8,7 @@
 //! Place this file at crate root and `pub mod pdu_macro;` in lib.rs.
 //! Use `use crate::define_pdu;` in PDU modules.
 
+use crate::common::dis_error::DISError;
 use bytes::{Buf, BufMut, BytesMut};
 
 /// Serialize a single field into the buffer.
@@ -58,6 +59,79 @@ pub(crate) fn read_octets<B: Buf>(buf: &mut B, count: usize) -> Vec<u8> {
     octets
 }
 
+/// A view of a buffer that reads zeros instead of panicking once the buffer is exhausted, and
+/// remembers that it did, so that a truncated PDU can be reported as an error.
+pub struct CheckedBuf<'a, B: Buf> {
+    buf: &'a mut B,
+    underflow: Option<(usize, usize)>,
+}
+
+impl<'a, B: Buf> CheckedBuf<'a, B> {
+    pub const fn new(buf: &'a mut B) -> Self {
+        Self {
+            buf,
+            underflow: None,
+        }
+    }
+
+    /// # Errors
+    ///
+    /// Will return `DISError::BufferUnderflow` if more was read than the buffer had
+    pub fn check(&self) -> Result<(), DISError> {
+        self.underflow.map_or(Ok(()), |(attempted, available)| {
+            Err(DISError::buffer_underflow(attempted, available))
+        })
+    }
+
+    fn has(&mut self, count: usize) -> bool {
+        if self.underflow.is_none() && self.buf.remaining() < count {
+            self.underflow = Some((count, self.buf.remaining()));
+        }
+        self.underflow.is_none()
+    }
+}
+
+macro_rules! checked_get {
+    ($($get:ident -> $ty:ty),*) => {
+        $(
+            fn $get(&mut self) -> $ty {
+                let mut octets = [0u8; ::core::mem::size_of::<$ty>()];
+                self.copy_to_slice(&mut octets);
+                <$ty>::from_be_bytes(octets)
+            }
+        )*
+    };
+}
+
+impl<B: Buf> Buf for CheckedBuf<'_, B> {
+    fn remaining(&self) -> usize {
+        self.underflow.map_or_else(|| self.buf.remaining(), |_| 0)
+    }
+
+    fn chunk(&self) -> &[u8] {
+        self.underflow.map_or_else(|| self.buf.chunk(), |_| &[])
+    }
+
+    fn advance(&mut self, count: usize) {
+        if self.has(count) {
+            self.buf.advance(count);
+        }
+    }
+
+    fn copy_to_slice(&mut self, dst: &mut [u8]) {
+        if self.has(dst.len()) {
+            self.buf.copy_to_slice(dst);
+        } else {
+            dst.fill(0);
+        }
+    }
+
+    checked_get!(
+        get_u8 -> u8, get_i8 -> i8, get_u16 -> u16, get_i16 -> i16, get_u32 -> u32,
+        get_i32 -> i32, get_u64 -> u64, get_i64 -> i64, get_f32 -> f32, get_f64 -> f64
+    );
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -336,8 +410,11 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                let mut buf = $crate::pdu_macro::CheckedBuf::new(buf);
+
                 // deserialize header using its associated function
-                let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
+                let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(&mut buf);
+                buf.check()?;
 
                 // check PDU type (assumes header exposes pdu_type() method; adapt if different)
                 if header.pdu_type() != $pdu_type {
@@ -348,14 +425,17 @@ macro_rules! define_pdu {
                 }
 
                 // read body fields with the generated deserializer
-                let mut body = Self::deserialize_body(buf);
+                let mut body = Self::deserialize_body(&mut buf);
+                buf.check()?;
                 body.header = header;
                 Ok(body)
             }
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
-                let mut body = Self::deserialize_body(buf);
+                let mut buf = $crate::pdu_macro::CheckedBuf::new(buf);
+                let mut body = Self::deserialize_body(&mut buf);
+                buf.check()?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From fa8002c79703d92e8f964d9ed288f733c7de9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 07/16] fix: refuse a header of another PDU type in
 deserialize_without_header

---
 src/pdu_macro.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index c0d7c46..c262437 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -335,6 +335,17 @@ macro_rules! define_pdu {
 
         // Body deserializer generated in terms of FieldDeserialize
         impl $name {
+            /// Check PDU type (assumes header exposes `pdu_type()` method; adapt if different)
+            fn check_pdu_type(header: &$header) -> Result<(), $crate::common::dis_error::DISError> {
+                if header.pdu_type() != $pdu_type {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
+                        None,
+                    ));
+                }
+                Ok(())
+            }
+
             /// Deserialize only the body (fields), leaving header defaulted.
             /// Note: for variable-length arrays/strings the generated code will call
             /// `FieldDeserialize::deserialize_field()`, but for real variable-length fields
@@ -416,13 +427,7 @@ macro_rules! define_pdu {
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(&mut buf);
                 buf.check()?;
 
-                // check PDU type (assumes header exposes pdu_type() method; adapt if different)
-                if header.pdu_type() != $pdu_type {
-                    return Err($crate::common::dis_error::DISError::invalid_header(
-                        format!("Expected PDU type {:?}, got {:?}", $pdu_type, header.pdu_type()),
-                        None,
-                    ));
-                }
+                Self::check_pdu_type(&header)?;
 
                 // read body fields with the generated deserializer
                 let mut body = Self::deserialize_body(&mut buf);
@@ -433,6 +438,8 @@ macro_rules! define_pdu {
 
             fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                Self::check_pdu_type(&header)?;
+
                 let mut buf = $crate::pdu_macro::CheckedBuf::new(buf);
                 let mut body = Self::deserialize_body(&mut buf);
                 buf.check()?;
-- 
2.43.0


From ebf594a8ba732fe9bad92b2c502c7ede9f432eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 08/16] fix: refuse PDUs larger than MAX_PDU_SIZE_OCTETS

---
 src/pdu_macro.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index c262437..58a4d0b 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -380,10 +380,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
-                u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
-                    size: len,
-                    max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-                })
+                u16::try_from(len)
+                    .ok()
+                    .filter(|_| $crate::common::constants::validate_pdu_size(len))
+                    .ok_or($crate::common::dis_error::DISError::PduSizeExceeded {
+                        size: len,
+                        max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    })
             }
 
             fn header(&self) -> &Self::Header {
-- 
2.43.0


From 2248845ead8776cb7c6acc0384512272b5ec1901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 09/16] fix: frame the antenna pattern of a Transmitter PDU by
 its length field

---
 src/pdu_macro.rs            | 6 +++---
 src/radio_communications.rs | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 58a4d0b..75c8bf2 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -145,9 +145,9 @@ macro_rules! __pdu_prep_serialize_field {
 
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
         // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
-            &$self.$field,
-        ))
+        $self.$len_field = ::core::convert::TryFrom::try_from(
+            <$t as $crate::pdu_macro::FieldLen>::field_len(&$self.$field),
+        )
         .unwrap_or_default();
     };
 
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..158b81e 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,6 +58,7 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
-- 
2.43.0


From 1fae1063330e517768402bd48c0eeabadb75c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 10/16] fix: compute a timestamp from one reading of the clock

---
 src/common/live_entity_pdu_header.rs | 7 ++++---
 src/common/pdu_header.rs             | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..f97fffe 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -124,9 +124,10 @@ impl LiveEntityPduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..1c532de 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -246,9 +246,10 @@ impl PduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
+        let now = Utc::now();
+        let minute_curr = u64::from((now.minute() * 60) * 1_000_000);
+        let second_curr = u64::from(now.second() * 1_000_000);
+        let nanosecond_curr = u64::from(now.nanosecond() / 1000);
         let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
         dis_time as u32
     }
-- 
2.43.0


From 860d081cd68994e0d9c0aed02dcd74db93016039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 11/16] fix: follow the counts of nested lists only as far as
 the buffer goes

---
 src/common/data_types/attribute_record_set.rs      |  7 ++-----
 src/common/data_types/record_specification.rs      |  7 ++-----
 .../data_types/standard_variable_specification.rs  | 14 ++++----------
 src/pdu_macro.rs                                   | 14 ++++++++++++++
 4 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/common/data_types/attribute_record_set.rs b/src/common/data_types/attribute_record_set.rs
index c2d39ae..4b02363 100644
--- a/src/common/data_types/attribute_record_set.rs
+++ b/src/common/data_types/attribute_record_set.rs
@@ -11,7 +11,7 @@ use crate::{
         SerializedLength,
         data_types::{EntityId, attribute_record::AttributeRecord},
     },
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_list},
 };
 
 #[derive(Clone, Debug, Default)]
@@ -42,10 +42,7 @@ impl AttributeRecordSet {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let entity_id = EntityId::deserialize(buf);
         let number_of_attribute_records = buf.get_u16();
-        let mut attribute_records: Vec<AttributeRecord> = vec![];
-        for _ in 0..number_of_attribute_records {
-            attribute_records.push(AttributeRecord::deserialize(buf));
-        }
+        let attribute_records = read_list(buf, number_of_attribute_records.into());
         Self {
             entity_id,
             number_of_attribute_records,
diff --git a/src/common/data_types/record_specification.rs b/src/common/data_types/record_specification.rs
index ec3bb37..b00ab45 100644
--- a/src/common/data_types/record_specification.rs
+++ b/src/common/data_types/record_specification.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_list};
 
 use super::record_specification_element::RecordSpecificationElement;
 
@@ -36,10 +36,7 @@ impl RecordSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_record_sets = buf.get_u32();
-        let mut record_sets: Vec<RecordSpecificationElement> = vec![];
-        for _i in 0..number_of_record_sets {
-            record_sets.push(RecordSpecificationElement::deserialize(buf));
-        }
+        let record_sets = read_list(buf, number_of_record_sets as usize);
         Self {
             number_of_record_sets,
             record_sets,
diff --git a/src/common/data_types/standard_variable_specification.rs b/src/common/data_types/standard_variable_specification.rs
index 9dde747..b2619f0 100644
--- a/src/common/data_types/standard_variable_specification.rs
+++ b/src/common/data_types/standard_variable_specification.rs
@@ -4,7 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use super::standard_variable_records::StandardVariableRecords;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_list};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -34,10 +34,7 @@ impl StandardVariableSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut standard_variable_records: Vec<StandardVariableRecords> = vec![];
-        for _i in 0..number_of_standard_variable_records {
-            standard_variable_records.push(StandardVariableRecords::deserialize(buf));
-        }
+        let standard_variable_records = read_list(buf, number_of_standard_variable_records.into());
         Self {
             number_of_standard_variable_records,
             standard_variable_records,
@@ -55,13 +52,10 @@ impl FieldSerialize for StandardVariableSpecification {
 impl FieldDeserialize for StandardVariableSpecification {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut records = Vec::with_capacity(number_of_standard_variable_records as usize);
-        for _ in 0..number_of_standard_variable_records {
-            records.push(StandardVariableRecords::deserialize_field(buf));
-        }
+        let standard_variable_records = read_list(buf, number_of_standard_variable_records.into());
         Self {
             number_of_standard_variable_records,
-            standard_variable_records: records,
+            standard_variable_records,
         }
     }
 }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 75c8bf2..8f054be 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -59,6 +59,20 @@ pub(crate) fn read_octets<B: Buf>(buf: &mut B, count: usize) -> Vec<u8> {
     octets
 }
 
+/// Read `count` items, giving up after the first one the buffer has no octets left for, whatever
+/// the count claims.
+pub fn read_list<T: FieldDeserialize, B: Buf>(buf: &mut B, count: usize) -> Vec<T> {
+    let mut items = Vec::new();
+    for _ in 0..count {
+        let exhausted = !buf.has_remaining();
+        items.push(T::deserialize_field(buf));
+        if exhausted {
+            break;
+        }
+    }
+    items
+}
+
 /// A view of a buffer that reads zeros instead of panicking once the buffer is exhausted, and
 /// remembers that it did, so that a truncated PDU can be reported as an error.
 pub struct CheckedBuf<'a, B: Buf> {
-- 
2.43.0


From 61cf47182e3145a34c18e1eb11898446892d5b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 12/16] fix: decode the counted lists of a PDU instead of
 dropping them

---
 src/distributed_emissions.rs                  |  7 +++++++
 src/entity_information.rs                     |  3 +++
 src/entity_management.rs                      |  6 ++++++
 src/logistics.rs                              |  3 +++
 src/minefield.rs                              |  7 +++++++
 src/pdu_macro.rs                              | 14 ++++++++++----
 src/radio_communications.rs                   |  4 ++++
 src/simulation_management.rs                  | 14 ++++++++++++++
 src/simulation_management_with_reliability.rs | 15 +++++++++++++++
 src/synthetic_environment.rs                  |  3 +++
 src/warfare.rs                                |  3 +++
 11 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/src/distributed_emissions.rs b/src/distributed_emissions.rs
index ad6170c..237aac6 100644
--- a/src/distributed_emissions.rs
+++ b/src/distributed_emissions.rs
@@ -45,6 +45,7 @@ define_pdu! {
             pub state_update_indicator: EEAttributeStateIndicator,
             pub number_of_systems: u8,
             padding: u16,
+            #[count = number_of_systems]
             pub systems: Vec<ElectromagneticEmissionSystemData>,
         }
     }
@@ -91,8 +92,11 @@ define_pdu! {
             pub number_of_shafts: u8,
             pub number_of_apas: u8,
             pub number_of_ua_emitter_systems: u8,
+            #[count = number_of_shafts]
             pub shaft_rpms: Vec<ShaftRPMs>,
+            #[count = number_of_apas]
             pub apa_data: Vec<ApaData>,
+            #[count = number_of_ua_emitter_systems]
             pub emitter_systems: Vec<AcousticEmitterSystem>,
         }
     }
@@ -116,6 +120,7 @@ define_pdu! {
             pub layer_header: LayerHeader,
             pub beam_data: BeamData,
             pub secondary_operational_data: SecondaryOperationalData,
+            #[count = secondary_operational_data.number_of_iff_fundamental_parameter_records]
             pub iff_parameters: Vec<IFFFundamentalParameterData>,
         }
     }
@@ -135,7 +140,9 @@ define_pdu! {
             pub radar_cross_section_signature_representation_index: u16,
             pub number_of_propulsion_systems: u16,
             pub number_of_vectoring_nozzle_systems: u16,
+            #[count = number_of_propulsion_systems]
             pub propulsion_system_data: Vec<PropulsionSystemData>,
+            #[count = number_of_vectoring_nozzle_systems]
             pub vectoring_nozzle_system_data: Vec<VectoringNozzleSystemData>,
         }
     }
diff --git a/src/entity_information.rs b/src/entity_information.rs
index f97adce..3032605 100644
--- a/src/entity_information.rs
+++ b/src/entity_information.rs
@@ -46,6 +46,7 @@ define_pdu! {
             pub dead_reckoning_parameters: DeadReckoningParameters,
             pub entity_marking: EntityMarking,
             pub entity_capabilities: EntityCapabilities,
+            #[count = number_of_articulation_parameters]
             pub articulation_parameter: Vec<VariableParameter>,
         }
     }
@@ -113,6 +114,7 @@ define_pdu! {
             pub entity_location: WorldCoordinate,
             pub entity_orientation: EulerAngles,
             pub entity_appearance: u32,
+            #[count = number_of_variable_parameters]
             pub variable_parameter_records: Vec<VariableParameter>,
         }
     }
@@ -135,6 +137,7 @@ define_pdu! {
             pub action_code: DISAttributeActionCode,
             padding3: u8,
             pub number_of_attribute_record_sets: u16,
+            #[count = number_of_attribute_record_sets]
             pub attribute_record_sets: Vec<AttributeRecordSet>,
         }
     }
diff --git a/src/entity_management.rs b/src/entity_management.rs
index 157600e..63e4ca7 100644
--- a/src/entity_management.rs
+++ b/src/entity_management.rs
@@ -49,12 +49,17 @@ define_pdu! {
             pub number_of_dis_entities: u16,
             pub number_of_silent_aggregate_types: u16,
             pub number_of_silent_entity_types: u16,
+            #[count = number_of_dis_aggregates]
             pub aggregate_id_list: Vec<AggregateId>,
+            #[count = number_of_dis_entities]
             pub entity_id_list: Vec<EntityId>,
             padding: Vec<u8>,
+            #[count = number_of_silent_aggregate_types]
             pub silent_aggregate_system_list: Vec<EntityType>,
+            #[count = number_of_silent_entity_types]
             pub silent_entity_system_list: Vec<EntityType>,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_list: Vec<VariableDatumRecord>,
         }
     }
@@ -74,6 +79,7 @@ define_pdu! {
             padding: u32,
             pub latitude: f64,
             pub longitude: f64,
+            #[count = number_of_grouped_entities]
             pub grouped_entity_descriptions: Vec<u64>,
         }
     }
diff --git a/src/logistics.rs b/src/logistics.rs
index 5aa9c6d..d76d720 100644
--- a/src/logistics.rs
+++ b/src/logistics.rs
@@ -32,6 +32,7 @@ define_pdu! {
             pub service_type_requested: ServiceRequestServiceTypeRequested,
             pub number_of_supply_types: u8,
             padding: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -50,6 +51,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -68,6 +70,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
diff --git a/src/minefield.rs b/src/minefield.rs
index af2f039..61aba31 100644
--- a/src/minefield.rs
+++ b/src/minefield.rs
@@ -38,7 +38,9 @@ define_pdu! {
             pub minefield_orientation: EulerAngles,
             pub appearance: u16,
             pub protocol_mode: MinefieldStateProtocolMode,
+            #[count = number_of_perimeter_points]
             pub perimeter_points: Vec<Point>,
+            #[count = number_of_mine_types]
             pub mine_type: Vec<EntityType>,
         }
     }
@@ -60,7 +62,9 @@ define_pdu! {
             pub number_of_sensor_types: u8,
             pub data_filter: u32,
             pub requested_mine_type: EntityType,
+            #[count = number_of_perimeter_points]
             pub requested_perimeter_points: Vec<Point>,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
         }
     }
@@ -85,7 +89,9 @@ define_pdu! {
             padding: u8,
             pub data_filter: u32,
             pub mine_type: EntityType,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
+            #[count = number_of_mines_in_this_pdu]
             pub mine_location: Vec<EntityCoordinateVector>,
             pub ground_burial_depth_offset: Vec<Option<f32>>,
             pub water_burial_depth_offset: Vec<Option<f32>>,
@@ -117,6 +123,7 @@ define_pdu! {
             pub requesting_entity_id: EntityId,
             pub request_id: u8,
             pub number_of_missing_pdus: u8,
+            #[count = number_of_missing_pdus]
             pub missing_pdu_sequence_numbers: Vec<u64>,
         }
     }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 8f054be..6d0a87f 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -197,6 +197,11 @@ macro_rules! __pdu_deserialize_field {
         );
     };
 
+    // Vec<T> with a count attribute -> read that many items
+    ( count = $count:expr ; $field:ident, $t:ty, $buf:ident ) => {
+        let $field: $t = $crate::pdu_macro::read_list($buf, $count as usize);
+    };
+
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::deserialize_field($buf);
@@ -321,7 +326,7 @@ macro_rules! define_pdu {
             protocol_family: $protocol_family:expr,
             fields: {
                 $(
-                    $(#[len = $len_field:ident])? $fvis:vis $field:ident : $ftype:ty,
+                    $(#[len = $len_field:ident])? $(#[count = $count:expr])? $fvis:vis $field:ident : $ftype:ty,
                 )*
             }
 
@@ -361,7 +366,7 @@ macro_rules! define_pdu {
             }
 
             /// Deserialize only the body (fields), leaving header defaulted.
-            /// Note: for variable-length arrays/strings the generated code will call
+            /// Note: for variable-length arrays/strings without a `#[count]` the generated code will call
             /// `FieldDeserialize::deserialize_field()`, but for real variable-length fields
             /// you should write custom code in the manual body impl below or adapt the macro.
             fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
@@ -369,8 +374,9 @@ macro_rules! define_pdu {
                     // Each field can optionally be annotated with `#[len = name]`.
                     // The helper macro below will either call the plain `FieldDeserialize`
                     // or the length-aware `FieldDeserializeWithLen` depending on the
-                    // annotation.
-                    $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
+                    // annotation. Lists annotated with `#[count = expression]` are read as
+                    // that many items; the expression may use the fields before the list.
+                    $crate::__pdu_deserialize_field!( $( len = $len_field )? $( count = $count )? ; $field, $ftype, buf );
                 )*
 
                 Self {
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index 158b81e..35b9d40 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -60,6 +60,7 @@ define_pdu! {
             pub modulation_parameters: Option<ModulationParameters>,
             #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
+            #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
     }
@@ -80,6 +81,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -119,6 +121,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -144,6 +147,7 @@ define_pdu! {
             pub master_intercom_number: u16,
             pub master_channel_id: u16,
             pub intercom_parameters_length: u32,
+            #[count = intercom_parameters_length / 8]
             pub intercom_parameters: Vec<IntercomCommunicationsParameters>,
         }
     }
diff --git a/src/simulation_management.rs b/src/simulation_management.rs
index 8c6a4bc..26c1fef 100644
--- a/src/simulation_management.rs
+++ b/src/simulation_management.rs
@@ -118,7 +118,9 @@ define_pdu! {
             pub action_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -138,7 +140,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -158,7 +162,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -178,7 +184,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -198,7 +206,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -218,7 +228,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -236,7 +248,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
diff --git a/src/simulation_management_with_reliability.rs b/src/simulation_management_with_reliability.rs
index 0af891b..1cdec78 100644
--- a/src/simulation_management_with_reliability.rs
+++ b/src/simulation_management_with_reliability.rs
@@ -137,7 +137,9 @@ define_pdu! {
             padding3: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -157,7 +159,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -180,7 +184,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_ids: Vec<VariableRecordTypes>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_ids: Vec<VariableRecordTypes>,
         }
     }
@@ -202,7 +208,9 @@ define_pdu! {
             pub request_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -224,7 +232,9 @@ define_pdu! {
             padding2: u16,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -244,7 +254,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -262,7 +274,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -284,6 +298,7 @@ define_pdu! {
             pub event_type: RecordQueryREventType,
             pub time: u32,
             pub number_of_records: u32,
+            #[count = number_of_records]
             pub record_ids: Vec<u32>,
         }
     }
diff --git a/src/synthetic_environment.rs b/src/synthetic_environment.rs
index f9dddd9..b52b996 100644
--- a/src/synthetic_environment.rs
+++ b/src/synthetic_environment.rs
@@ -40,6 +40,7 @@ define_pdu! {
             pub environment_status: u8,
             pub number_of_environment_records: u16,
             pub sequence_number: u16,
+            #[count = number_of_environment_records]
             pub environment_records: Vec<Environment>,
         }
     }
@@ -115,6 +116,7 @@ define_pdu! {
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
             pub object_type: ObjectType,
+            #[count = number_of_segments]
             pub linear_segment_parameters: Vec<LinearSegmentParameter>,
         }
     }
@@ -139,6 +141,7 @@ define_pdu! {
             pub number_of_points: u16,
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
+            #[count = number_of_points]
             pub object_location: Vec<WorldCoordinate>,
         }
     }
diff --git a/src/warfare.rs b/src/warfare.rs
index ce0641e..b6393bb 100644
--- a/src/warfare.rs
+++ b/src/warfare.rs
@@ -60,6 +60,7 @@ define_pdu! {
             pub detonation_result: DetonationResult,
             pub number_of_variable_parameters: u8,
             padding: u16,
+            #[count = number_of_variable_parameters]
             pub variable_parameters: Vec<VariableParameter>,
         }
     }
@@ -90,6 +91,7 @@ define_pdu! {
             padding3: u32,
             padding4: u16,
             pub number_of_de_records: u16,
+            #[count = number_of_de_records]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
@@ -107,6 +109,7 @@ define_pdu! {
             padding: u16,
             padding2: u16,
             pub number_of_damage_descriptions: u16,
+            #[count = number_of_damage_descriptions]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
-- 
2.43.0


From 7b9591fd7bc54e3694d349ab96e237b2ca267fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 13/16] fix: read and count both 16-bit enumerations of a
 GridDataRecord as written

---
 src/common/data_types/grid_data_record.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index c64ed29..0e6f811 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -4,6 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
@@ -131,8 +132,9 @@ impl GridDataRecord {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let sample_type = GriddedDataSampleType::deserialize(buf);
-        let data_representation = GriddedDataDataRepresentation::deserialize(buf);
+        let sample_type = GriddedDataSampleType::from_u16(buf.get_u16()).unwrap_or_default();
+        let data_representation =
+            GriddedDataDataRepresentation::from_u16(buf.get_u16()).unwrap_or_default();
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
@@ -210,6 +212,6 @@ impl FieldDeserialize for GridDataRecord {
 
 impl FieldLen for GridDataRecord {
     fn field_len(&self) -> usize {
-        self.sample_type.field_len() + self.data_representation.field_len() + self.data.field_len()
+        2 /* sample_type u16 */ + 2 /* data_representation u16 */ + self.data.field_len()
     }
 }
-- 
2.43.0


From d4ef9a9557a537c970a2aa61c95c23d5cf9f56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 14/16] fix: read the record type of
 VariableTransmitterParameters as the 32 bits written

---
 src/common/data_types/variable_transmitter_parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..b3d356c 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
@@ -47,7 +48,8 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type =
+            VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let mut record_specific_fields: Vec<u8> = vec![];
         for _ in 0..record_length {
-- 
2.43.0


From 35ec92ff8998dbfd474f0eefc31e6c527c07e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 15/16] fix: read a record's octet string only as far as the
 buffer goes

A claimed 16-bit length made the decoder allocate up to 64 KiB for a truncated message of a few octets.
---
 src/common/data_types/antenna_pattern.rs                 | 9 ++++-----
 src/common/data_types/attribute_record.rs                | 7 ++-----
 src/common/data_types/standard_variable_records.rs       | 7 ++-----
 src/common/data_types/variable_transmitter_parameters.rs | 7 ++-----
 4 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/common/data_types/antenna_pattern.rs b/src/common/data_types/antenna_pattern.rs
index 554b2fd..6b9e3c0 100644
--- a/src/common/data_types/antenna_pattern.rs
+++ b/src/common/data_types/antenna_pattern.rs
@@ -2,7 +2,9 @@
 //     Copyright (C) 2025 Cameron Howell
 //
 //     Licensed under the BSD-2-Clause License
-use crate::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
+use crate::pdu_macro::{
+    FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize, read_octets,
+};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -54,10 +56,7 @@ impl AntennaPattern {
             return None;
         }
 
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = read_octets(buf, length.into());
 
         Some(Self {
             record_specific_fields,
diff --git a/src/common/data_types/attribute_record.rs b/src/common/data_types/attribute_record.rs
index f8eb753..c313ebb 100644
--- a/src/common/data_types/attribute_record.rs
+++ b/src/common/data_types/attribute_record.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_octets};
 
 #[derive(Clone, Debug, Default)]
 pub struct AttributeRecord {
@@ -36,10 +36,7 @@ impl AttributeRecord {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = buf.get_u32();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = read_octets(buf, record_length.into());
         Self {
             record_type,
             record_length,
diff --git a/src/common/data_types/standard_variable_records.rs b/src/common/data_types/standard_variable_records.rs
index 6c92b8c..4b83d31 100644
--- a/src/common/data_types/standard_variable_records.rs
+++ b/src/common/data_types/standard_variable_records.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_octets};
 
 #[derive(Clone, Debug, Default)]
 pub struct StandardVariableRecords {
@@ -39,10 +39,7 @@ impl StandardVariableRecords {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = buf.get_u32();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _i in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = read_octets(buf, record_length.into());
         Self {
             record_type,
             record_length,
diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index b3d356c..1f9a3f7 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -6,7 +6,7 @@ use bytes::{Buf, BufMut, BytesMut};
 use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, read_octets};
 
 #[derive(Clone, Debug, Default)]
 pub struct VariableTransmitterParameters {
@@ -51,10 +51,7 @@ impl VariableTransmitterParameters {
         let record_type =
             VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields = read_octets(buf, record_length.into());
 
         Self {
             record_type,
-- 
2.43.0


From e8a595569180b8f434466e484c2f55cfb4b722cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 16/16] fix: read a truncated PDU as zeros whatever the width
 and byte order asked for

---
 src/pdu_macro.rs | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 6d0a87f..d548c36 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -9,7 +9,7 @@
 //! Use `use crate::define_pdu;` in PDU modules.
 
 use crate::common::dis_error::DISError;
-use bytes::{Buf, BufMut, BytesMut};
+use bytes::{Buf, BufMut, Bytes, BytesMut};
 
 /// Serialize a single field into the buffer.
 pub trait FieldSerialize {
@@ -106,12 +106,12 @@ impl<'a, B: Buf> CheckedBuf<'a, B> {
 }
 
 macro_rules! checked_get {
-    ($($get:ident -> $ty:ty),*) => {
+    ($from_bytes:ident: $($get:ident -> $ty:ty),*) => {
         $(
             fn $get(&mut self) -> $ty {
                 let mut octets = [0u8; ::core::mem::size_of::<$ty>()];
                 self.copy_to_slice(&mut octets);
-                <$ty>::from_be_bytes(octets)
+                <$ty>::$from_bytes(octets)
             }
         )*
     };
@@ -141,9 +141,41 @@ impl<B: Buf> Buf for CheckedBuf<'_, B> {
     }
 
     checked_get!(
-        get_u8 -> u8, get_i8 -> i8, get_u16 -> u16, get_i16 -> i16, get_u32 -> u32,
-        get_i32 -> i32, get_u64 -> u64, get_i64 -> i64, get_f32 -> f32, get_f64 -> f64
+        from_be_bytes: get_u8 -> u8, get_i8 -> i8, get_u16 -> u16, get_i16 -> i16, get_u32 -> u32,
+        get_i32 -> i32, get_u64 -> u64, get_i64 -> i64, get_f32 -> f32, get_f64 -> f64,
+        get_u128 -> u128, get_i128 -> i128
     );
+    checked_get!(
+        from_le_bytes: get_u16_le -> u16, get_i16_le -> i16, get_u32_le -> u32, get_i32_le -> i32,
+        get_u64_le -> u64, get_i64_le -> i64, get_f32_le -> f32, get_f64_le -> f64,
+        get_u128_le -> u128, get_i128_le -> i128
+    );
+    checked_get!(
+        from_ne_bytes: get_u16_ne -> u16, get_i16_ne -> i16, get_u32_ne -> u32, get_i32_ne -> i32,
+        get_u64_ne -> u64, get_i64_ne -> i64, get_f32_ne -> f32, get_f64_ne -> f64,
+        get_u128_ne -> u128, get_i128_ne -> i128
+    );
+
+    // The signed reads and those in native byte order go through these two
+    fn get_uint(&mut self, nbytes: usize) -> u64 {
+        let mut octets = [0u8; 8];
+        self.copy_to_slice(&mut octets[8 - nbytes..]);
+        u64::from_be_bytes(octets)
+    }
+
+    fn get_uint_le(&mut self, nbytes: usize) -> u64 {
+        let mut octets = [0u8; 8];
+        self.copy_to_slice(&mut octets[..nbytes]);
+        u64::from_le_bytes(octets)
+    }
+
+    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+        if self.has(len) {
+            self.buf.copy_to_bytes(len)
+        } else {
+            Bytes::from(vec![0u8; len])
+        }
+    }
 }
 
 // Helper macros for generated code. These are kept private to the macro expansion
-- 
2.43.0

