From aa3653bf44b7cc87d07b06b7a50ea4de7a44ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:43 +0000
Subject: [PATCH 01/19] fix: shift the first DIFE storage bits right after the
 DIF storage bit

The four storage-number bits of the first DIFE follow the single storage bit
of the DIF, so they belong at bit 1. They were placed at bit 5, which made
84 01 13 .. report storage number 32 instead of 2.
---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 683e306..dc209b3 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -217,7 +217,7 @@ impl TryFrom<&DataInformationBlock<'_>> for DataInformation {
                     return Err(DataInformationError::DataTooLong);
                 }
                 let dife = dife.data;
-                storage_number += u64::from(dife & 0x0f) << ((extension_index * 4) + 1);
+                storage_number += u64::from(dife & 0x0f) << ((extension_index - 1) * 4 + 1);
                 tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);
                 tariff_index += 2;
                 device |= u64::from((dife & 0x40) >> 6) << device_index;
-- 
2.43.0


From 0771bf421a8b9eaa260aa902a334599b8b918112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:43 +0000
Subject: [PATCH 02/19] fix: read the year of type F and type I date-times from
 the date bytes

The year bits sit in the day and month bytes, which are bytes 2-3 of a type F
and bytes 3-4 of a type I value. They were always read from bytes 0-1, so the
year was derived from minutes, hours or seconds.
---
 .../m-bus-application-layer/src/data_information.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index dc209b3..9ba51b7 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -499,9 +499,9 @@ macro_rules! parse_month {
 }
 
 macro_rules! parse_year {
-    ($input:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
-        let byte1 = u16::from($input.get(1).copied().unwrap_or(0) & $mask_byte1);
-        let byte2 = u16::from($input.get(0).copied().unwrap_or(0) & $mask_byte2);
+    ($input:expr, $offset:expr, $mask_byte1:expr, $mask_byte2:expr, $all_value:expr) => {{
+        let byte1 = u16::from($input.get($offset + 1).copied().unwrap_or(0) & $mask_byte1);
+        let byte2 = u16::from($input.get($offset).copied().unwrap_or(0) & $mask_byte2);
         let year = byte1.wrapping_shr(1) | byte2.wrapping_shr(5);
         if year == $all_value {
             SingleEveryOrInvalid::Every()
@@ -772,7 +772,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(1).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 0, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::Date(day, month, year)),
@@ -799,7 +799,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 2, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTime(day, month, year, hour, minutes)),
@@ -863,7 +863,7 @@ impl DataFieldCoding {
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input, 3, 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTimeWithSeconds(
-- 
2.43.0


From 773bbcf0583f36074a3cff6f03c21b90ecf9e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 03/19] fix: report LengthShort for truncated wired frames
 instead of panicking

A frame such as 68 01 01 68 has fewer than two bytes after the start
sequence, so computing the checksum position underflowed.
---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8b6743a..674593a 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -127,7 +127,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
 fn validate_checksum(data: &[u8]) -> Result<(), FrameError> {
     // Assuming the checksum is the second to last byte in the data array.
-    let checksum_byte_index = data.len() - 2;
+    let checksum_byte_index = data.len().checked_sub(2).ok_or(FrameError::LengthShort)?;
     let checksum_byte = *data
         .get(checksum_byte_index)
         .ok_or(FrameError::LengthShort)?;
-- 
2.43.0


From 5cbc00448964319547014e23e6a79fa788f26b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 04/19] fix: require the second start byte of long and control
 frames

The fourth byte of a long frame must repeat the start byte 0x68. It was never
looked at, so 68 03 03 00 53 01 51 A5 16 was accepted.
---
 crates/wired-mbus-link-layer/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 674593a..8d52ca5 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -87,6 +87,10 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
                 let length = *data.get(1).ok_or(FrameError::LengthShort)? as usize;
 
+                if *data.get(3).ok_or(FrameError::LengthShort)? != 0x68 {
+                    return Err(FrameError::InvalidStartByte);
+                }
+
                 if second_byte != third_byte || data.len() != length + 6 {
                     return Err(FrameError::WrongLengthIndication);
                 }
-- 
2.43.0


From 7a79ce917504a4b574a1cc37a927afb79cbe600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 05/19] fix: accept the single-character frame only when it is
 alone

Any input starting with 0xE5 was taken for an acknowledge. A wireless frame
whose length byte is 0xE5 was therefore decoded as a wired single character
and all of its content was dropped.
---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8d52ca5..a8df699 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -74,7 +74,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
     fn try_from(data: &'a [u8]) -> Result<Self, FrameError> {
         let first_byte = *data.first().ok_or(FrameError::EmptyData)?;
 
-        if first_byte == 0xE5 {
+        if first_byte == 0xE5 && data.len() == 1 {
             return Ok(WiredFrame::SingleCharacter { character: 0xE5 });
         }
 
-- 
2.43.0


From 881d1035d54c0b3ee60db024ab4dad4a91f7d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 06/19] fix: decode zero-length variable integers without
 underflow

An LVAR byte of 0xE0 announces an integer of zero bytes. The sign bit position
was computed as shift - 1 with shift == 0, which overflowed.
---
 crates/m-bus-application-layer/src/data_information.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 9ba51b7..3d2a490 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -563,8 +563,7 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         shift += 8;
     }
 
-    let msb = (data_value >> (shift - 1)) & 1;
-    let data_value = if byte_size < 8 && msb == 1 {
+    let data_value = if shift > 0 && byte_size < 8 && (data_value >> (shift - 1)) & 1 == 1 {
         -((data_value ^ (2i64.pow(shift) - 1)) + 1)
     } else {
         data_value
-- 
2.43.0


From a882a0092d723ead5c3ddc900ca8887629882045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 07/19] fix: reject VIFE chains that exceed the VIFE capacity

The length check came after the push into the fixed-capacity list, so an
eleventh VIFE panicked instead of returning InvalidValueInformation.
---
 crates/m-bus-application-layer/src/value_information.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1675d9d..921f8d9 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -59,7 +59,8 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-                vife.push(current_vife);
+                vife.try_push(current_vife)
+                    .map_err(|_| DataInformationError::InvalidValueInformation)?;
                 offset += 1;
                 if !has_extension {
                     break;
-- 
2.43.0


From 9db24b8f5a61f02fe510251628892347b223344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 08/19] fix: reject plain-text units longer than the supported
 length

The text length byte comes from the meter, and more than nine characters
overran the fixed-capacity buffer.
---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 921f8d9..f00b741 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -92,7 +92,9 @@ fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformat
         .get(1..=ascii_length)
         .ok_or(DataInformationError::DataTooShort)?
     {
-        ascii.push(*item as char);
+        ascii
+            .try_push(*item as char)
+            .map_err(|_| DataInformationError::InvalidValueInformation)?;
     }
     Ok(ascii)
 }
-- 
2.43.0


From adef84681722695c74ef622a992d9f6756cddbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:52 +0000
Subject: [PATCH 09/19] fix: treat the reserved VIF 0x7D as an unsupported
 primary code

It reached an unreachable!() and panicked. As a primary code it is reported
as unimplemented like the other reserved codes.
---
 crates/m-bus-application-layer/src/value_information.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index f00b741..1928036 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -158,7 +158,7 @@ pub struct ValueInformationFieldExtension {
 impl From<&ValueInformationField> for ValueInformationCoding {
     fn from(value_information: &ValueInformationField) -> Self {
         match value_information.data {
-            0x00..=0x7B | 0x80..=0xFA => Self::Primary,
+            0x00..=0x7B | 0x7D | 0x80..=0xFA => Self::Primary,
             0x7C | 0xFC => Self::PlainText,
             0xFD => Self::MainVIFExtension,
             0xFB => Self::AlternateVIFExtension,
@@ -166,7 +166,6 @@ impl From<&ValueInformationField> for ValueInformationCoding {
             0xFE => Self::ManufacturerSpecific,
             0x7F => Self::ManufacturerSpecific,
             0xFF => Self::ManufacturerSpecific,
-            _ => unreachable!("Invalid value information: {:X}", value_information.data),
         }
     }
 }
-- 
2.43.0


From 8e71b90fcc7f44ca3e75fa20d3d5faf3e94efc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:59 +0000
Subject: [PATCH 10/19] fix: reject VIFE chains that overflow the label or unit
 list

A value information block holds at most ten labels and ten units. Chains such
as 01 83 28 .. with many unit VIFEs pushed past that capacity and panicked.
---
 .../src/value_information.rs                      | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1928036..13d0292 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -363,7 +363,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::MainVIFExtension => {
                 let first_vife_data = vife_slice
@@ -554,7 +554,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::AlternateVIFExtension => {
                 use UnitName::*;
@@ -686,7 +686,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             // we need to check if the next byte is equivalent to the length of the rest of the
             // the data. In this case it is very likely that, this is how the payload is built up.
@@ -698,7 +698,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::ManufacturerSpecific => {
                 labels.push(ValueLabel::ManufacturerSpecific)
@@ -720,9 +720,13 @@ fn consume_orthhogonal_vife(
     units: &mut ArrayVec<Unit, 10>,
     decimal_scale_exponent: &mut isize,
     decimal_offset_exponent: &mut isize,
-) {
+) -> Result<(), DataInformationError> {
     let mut is_extension_of_combinable_orthogonal_vife = false;
     for v in vife {
+        // A VIFE adds at most one label and two units.
+        if labels.is_full() || units.remaining_capacity() < 2 {
+            return Err(DataInformationError::InvalidValueInformation);
+        }
         if v.data == 0xFC {
             is_extension_of_combinable_orthogonal_vife = true;
             continue;
@@ -968,6 +972,7 @@ fn consume_orthhogonal_vife(
             };
         }
     }
+    Ok(())
 }
 
 #[derive(Debug, Clone, Copy, PartialEq)]
-- 
2.43.0


From 56c76bd095e4c19ce36abe284553dd54a7c2cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:45 +0000
Subject: [PATCH 11/19] fix: do not recurse once per nested extended link layer

An application block made of repeated 8C xx xx sequences recursed for every
layer, so a few hundred kilobytes of input overflowed the stack.
---
 crates/m-bus-application-layer/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 492f789..cee740b 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -1132,7 +1132,13 @@ impl<'a> TryFrom<&'a [u8]> for UserDataBlock<'a> {
                     receiver_address: None,
                     encryption: None,
                 });
-                match UserDataBlock::try_from(iter.as_slice()) {
+                // Only the outermost extended link layer is reported. Skip repeated
+                // ones here so that nesting does not consume stack per layer.
+                let mut inner = iter.as_slice();
+                while let [0x8C, _, _, rest @ ..] = inner {
+                    inner = rest;
+                }
+                match UserDataBlock::try_from(inner) {
                     Ok(UserDataBlock::VariableDataStructureWithShortTplHeader {
                         short_tpl_header,
                         variable_data_block,
-- 
2.43.0


From 96b534eb8bf2b900373aad196b53471147fcfbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:42 +0000
Subject: [PATCH 12/19] fix: report day 31 of date-times of type F and I as a
 day

The 31st was taken for the wildcard "every day", which is day 0.
---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 3d2a490..08a5faa 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -794,7 +794,7 @@ impl DataFieldCoding {
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
@@ -858,7 +858,7 @@ impl DataFieldCoding {
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-- 
2.43.0


From 9d2630c66c7354bcd737b0e87ed93445111eaa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:52 +0000
Subject: [PATCH 13/19] fix: take the declared number of bytes for times of
 type I and J

A type I date-time cut off after five bytes was accepted although it has six, and a type J time of three bytes was reported to have four.
---
 crates/m-bus-application-layer/src/data_information.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 08a5faa..511018f 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -827,10 +827,13 @@ impl DataFieldCoding {
 
                 Ok(Data {
                     value: Some(DataType::Time(seconds, minutes, hours)),
-                    size: 4,
+                    size: 3,
                 })
             }
             Self::DateTimeTypeI => {
+                if input.len() < 6 {
+                    return Err(DataRecordError::InsufficientData);
+                }
                 // note: more information can be extracted from the data,
                 // however, because this data can be derived from the other data that is
                 // that is extracted, it is not necessary to extract it.
-- 
2.43.0


From d001ea72a7b510ff562d8d3112963e0cb8a2bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:52 +0000
Subject: [PATCH 14/19] fix: let the length of the data field select the type
 of a time point

A date or date-time value information made every record two or four bytes long, whatever length its data information announced, so that the following records were read from the wrong place.
---
 .../m-bus-application-layer/src/data_record.rs   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index a450d86..9200aa6 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -202,15 +202,17 @@ impl TryFrom<&RawDataRecordHeader<'_>> for ProcessedDataRecordHeader {
             // unfortunately, the data field coding is not always set in the data information block
             // so we must do some additional checks to determine the correct data field coding
 
+            // (EN 13757-3: the length of the data field selects the type of a time point)
             if v.labels.contains(&ValueLabel::Date) {
-                d.data_field_coding = DataFieldCoding::DateTypeG;
+                if d.data_field_coding == DataFieldCoding::Integer16Bit {
+                    d.data_field_coding = DataFieldCoding::DateTypeG;
+                }
             } else if v.labels.contains(&ValueLabel::DateTime) {
-                // VIF 0x6D with a 6-byte data field is a type I date and time
-                // (EN 13757-3), only the 4-byte variant is type F.
-                d.data_field_coding = if d.data_field_coding == DataFieldCoding::Integer48Bit {
-                    DataFieldCoding::DateTimeTypeI
-                } else {
-                    DataFieldCoding::DateTimeTypeF
+                d.data_field_coding = match d.data_field_coding {
+                    DataFieldCoding::Integer24Bit => DataFieldCoding::DateTimeTypeJ,
+                    DataFieldCoding::Integer32Bit => DataFieldCoding::DateTimeTypeF,
+                    DataFieldCoding::Integer48Bit => DataFieldCoding::DateTimeTypeI,
+                    other => other,
                 };
             } else if v.labels.contains(&ValueLabel::Time) {
                 d.data_field_coding = DataFieldCoding::DateTimeTypeJ;
-- 
2.43.0


From 905f2fc37a17fc2005bdc9a3db48c67c3ad41ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:53 +0000
Subject: [PATCH 15/19] fix: report the unit of averaging and actuality
 durations

---
 .../src/value_information.rs                  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 13d0292..15e7c5e 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -344,8 +344,26 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     0x6C => labels.push(ValueLabel::Date),
                     0x6D => labels.push(ValueLabel::DateTime),
                     0x6E => labels.push(ValueLabel::DimensionlessHCA),
-                    0x70..=0x73 => labels.push(ValueLabel::AveragingDuration),
-                    0x74..=0x77 => labels.push(ValueLabel::ActualityDuration),
+                    0x70..=0x73 => {
+                        labels.push(ValueLabel::AveragingDuration);
+                        match value_information_block.value_information.data & 0x03 {
+                            0x00 => units.push(unit!(Second)),
+                            0x01 => units.push(unit!(Minute)),
+                            0x02 => units.push(unit!(Hour)),
+                            0x03 => units.push(unit!(Day)),
+                            _ => unreachable!(),
+                        }
+                    }
+                    0x74..=0x77 => {
+                        labels.push(ValueLabel::ActualityDuration);
+                        match value_information_block.value_information.data & 0x03 {
+                            0x00 => units.push(unit!(Second)),
+                            0x01 => units.push(unit!(Minute)),
+                            0x02 => units.push(unit!(Hour)),
+                            0x03 => units.push(unit!(Day)),
+                            _ => unreachable!(),
+                        }
+                    }
                     0x78 => labels.push(ValueLabel::FabricationNumber),
                     0x79 => labels.push(ValueLabel::EnhancedIdentification),
                     0x7A => labels.push(ValueLabel::Address),
-- 
2.43.0


From c0c075740d5855e651549345fb6020f9dd05dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:53 +0000
Subject: [PATCH 16/19] fix: correct the units of five value information codes

---
 .../m-bus-application-layer/src/value_information.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 15e7c5e..ba88d77 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -472,7 +472,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x33 => {
-                        units.push(unit!(Meter));
+                        units.push(unit!(Minute));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x34 => {
@@ -531,7 +531,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x6F => {
-                        units.push(unit!(Hour));
+                        units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x70 => {
@@ -610,8 +610,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     .ok_or(DataInformationError::DataTooShort)?
                     .data;
                 match first_vife_data & 0x7F {
-                    0b0 => populate!(Watt / h, 3, dec: 5, Energy),
-                    0b000_0001 => populate!(Watt / h, 3, dec: 6, Energy),
+                    0b0 => populate!(Watt * h, 1, dec: 5, Energy),
+                    0b000_0001 => populate!(Watt * h, 1, dec: 6, Energy),
                     0b000_0010 => populate!(ReactiveWatt * h, 1, dec: 3, ReactiveEnergy),
                     0b000_0011 => populate!(ReactiveWatt * h, 1, dec: 4, ReactiveEnergy),
                     0b000_0100 => populate!(ApparentWatt * h, 1, dec: 3, ApparentEnergy),
@@ -813,7 +813,7 @@ fn consume_orthhogonal_vife(
                     units.push(unit!(Increment));
                     units.push(unit!(OutputPulseOnChannel1 ^ -1));
                 }
-                0x2C => units.push(unit!(Liter)),
+                0x2C => units.push(unit!(Liter ^ -1)),
                 0x2D => units.push(unit!(Meter ^ -3)),
                 0x2E => units.push(unit!(Kilogram ^ -1)),
                 0x2F => units.push(unit!(Kelvin ^ -1)),
-- 
2.43.0


From 24c7e333bcdac0f309fdb039202dfb91c5828352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:48 +0000
Subject: [PATCH 17/19] fix: build the link layer and core crates without the
 standard library

The README promises no_std use with default features off, but m-bus-core and
the two link layer crates linked std in every configuration.
---
 crates/m-bus-core/src/decryption.rs        | 2 +-
 crates/m-bus-core/src/lib.rs               | 2 ++
 crates/wired-mbus-link-layer/src/lib.rs    | 2 ++
 crates/wireless-mbus-link-layer/src/lib.rs | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-core/src/decryption.rs b/crates/m-bus-core/src/decryption.rs
index 6511500..712fab7 100644
--- a/crates/m-bus-core/src/decryption.rs
+++ b/crates/m-bus-core/src/decryption.rs
@@ -30,7 +30,7 @@ pub enum DecryptionError {
 }
 
 impl core::fmt::Display for DecryptionError {
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
         match self {
             Self::UnsupportedMode(mode) => write!(f, "Unsupported security mode: {:?}", mode),
             Self::KeyNotFound => write!(f, "Decryption key not found"),
diff --git a/crates/m-bus-core/src/lib.rs b/crates/m-bus-core/src/lib.rs
index 188fc8d..7949d03 100644
--- a/crates/m-bus-core/src/lib.rs
+++ b/crates/m-bus-core/src/lib.rs
@@ -1,3 +1,5 @@
+#![cfg_attr(not(any(feature = "std", test)), no_std)]
+
 pub mod decryption;
 
 /// Serializes raw byte payloads as compact uppercase hex strings so that
diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index a8df699..4235d1b 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -1,5 +1,7 @@
 //! is part of the MBUS data link layer
 //! It is used to encapsulate the application layer data
+#![cfg_attr(not(any(feature = "std", test)), no_std)]
+
 use m_bus_core::{FrameError, Function};
 
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
diff --git a/crates/wireless-mbus-link-layer/src/lib.rs b/crates/wireless-mbus-link-layer/src/lib.rs
index c3b5652..fb4e8e0 100644
--- a/crates/wireless-mbus-link-layer/src/lib.rs
+++ b/crates/wireless-mbus-link-layer/src/lib.rs
@@ -1,3 +1,5 @@
+#![cfg_attr(not(any(feature = "std", test)), no_std)]
+
 use m_bus_core::{DeviceType, Function, IdentificationNumber, ManufacturerCode};
 
 /// CRC-16/EN13757 used in wireless M-Bus Format A frames.
-- 
2.43.0


From f5f3ed319986dacafd6c53cdf790bf5be0819f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:59 +0000
Subject: [PATCH 18/19] fix: no leading zeros when a constant is added to zero

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 9b0fdee..c74f07f 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1818,6 +1818,9 @@ fn add_abs(left: &str, right: &str) -> String {
         output.push(b'0' + sum % 10);
         carry = sum / 10;
     }
+    while output.len() > 1 && output.last() == Some(&b'0') {
+        output.pop();
+    }
     output.reverse();
     String::from_utf8(output).unwrap_or_else(|_| "0".to_string())
 }
-- 
2.43.0


From 58d2535351c16f70f5dbb5990f69766d36894532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:09 +0000
Subject: [PATCH 19/19] fix: wrap table cells that contain control characters

Control characters were counted as zero columns when a cell was wrapped but
as one column when it was padded, so a text made of them overran the table.
---
 src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index c74f07f..131433f 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -2376,7 +2376,7 @@ fn wrap_display(value: &str, width: usize) -> Vec<String> {
         let mut line = String::new();
         let mut line_width = 0usize;
         for character in source_line.chars() {
-            let character_width = UnicodeWidthChar::width(character).unwrap_or(0);
+            let character_width = UnicodeWidthChar::width(character).unwrap_or(1);
             if line_width != 0 && line_width + character_width > width {
                 lines.push(line);
                 line = String::new();
-- 
2.43.0

