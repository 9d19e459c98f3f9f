From b60c15f95d125548317f5ece936730b2ab4762a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 01/17] fix: reject long frames with a length too short for
 their own fields

A length byte of 0 or 1 underflowed the data length calculation: a panic in
checked builds, a 254/255 byte body in unchecked ones.
---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..5522a98 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -138,7 +138,9 @@ where
 		+ winnow::stream::Compare<u8>
 		+ Clone,
 {
+	// NOTE: The shortest possible long frame has the control, address & CI fields
 	let length = binary::u8
+		.verify(|v| *v >= 3)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From 9147ff941a764e7219fa873a311ab27e37b4b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 02/17] fix: report a DIFE chain that is too long instead of
 panicking

ParserError::assert panics in builds with debug assertions, but the length of
the chain is controlled by the received data.
---
 src/parse/application_layer/dib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..c56592d 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -5,7 +5,8 @@
 use crate::parse::error::{MBResult, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					StrContext::Label("DIFE chain, more than 10 DIFEs"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From 48e7353f73c46fc7230ec1d5b284411da6ca520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 03/17] fix: report unsupported CI fields instead of panicking

Format frames, compact frames and the CI fields that have a header form but no
message (64, 65, 84, 85) hit todo!() and unreachable!().
---
 src/parse/transport_layer/control_info.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..049f36e 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -167,15 +167,23 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
+			0x69..=0x6B => return Err(unsupported(input, &ci_checkpoint, "format frame")),
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
-			_ => unreachable!(),
+			0x73 | 0x79 | 0x7B => return Err(unsupported(input, &ci_checkpoint, "compact frame")),
+			_ => return Err(unsupported(input, &ci_checkpoint, "unsupported CI field")),
 		})
 	}
 }
+
+fn unsupported<'a>(
+	input: &&'a Bytes,
+	ci_checkpoint: &<&'a Bytes as Stream>::Checkpoint,
+	label: &'static str,
+) -> MBusError {
+	MBusError::from_input(input).add_context(input, ci_checkpoint, StrContext::Label(label))
+}
-- 
2.43.0


From 7aa45ae0307e54154b54b2009286ca64a9dbe138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 04/17] fix: accept the CI fields 50, 51 and 52

Their messages (application reset/select, command to device and selection of
device without a header) were handled, but could not be reached because they
were missing from the list of CI fields without a header.
---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index 049f36e..8c31ee5 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From 1e4dc2a41410fa448e0d4441a60f1d6a18826581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 05/17] fix: take the security mode from the low bits of the
 configuration field

EN 13757-7 puts the mode in bits 8 to 12 of the configuration field, which are
the low five bits of its second byte. The high five bits were used, so that
encrypted messages could be taken for reserved modes and decoded as plain ones.
---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..0fce7a7 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From 080e29865b7f40f3f39d0c83b516e27bb033294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 06/17] fix: reject encrypted packets instead of panicking

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 0fce7a7..8ed9dd2 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// TODO: Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From cd2bb5d2f4d2cc7203cd825adf79c55ef403d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 07/17] fix: report link service 15 as not implemented

---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 5522a98..ce7df6f 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From a9b35d01ce74bbf1b50dc45bc3b14063cfa1b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 08/17] fix: assemble storage, tariff and device numbers from
 the right bits

The first DIFE holds bits 0-1 of the tariff, bit 0 of the device and bits 1-4 of
the storage number. All three were shifted by one DIFE too many (tariff 1 was
reported as 4, as comparing EMU_EMU-Professional-375-M-Bus.hex with its XML
shows).
---
 src/parse/application_layer/dib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index c56592d..879dba4 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -122,9 +122,11 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// The DIF itself holds the first bit of the storage number, but
+			// nothing of the tariff or the device
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From 83447f398342e982f1cd7a4139d244bcb9bc8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 09/17] fix: decode six byte time points as type I

Type I is 48 bits long; there is no five byte data field, so it could never be
selected.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..3c85c97 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		vt => vt,
-- 
2.43.0


From 0b6bbd7c2ac3a406def7d32a7758a61deaa324f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 10/17] fix: only decode four byte values as daylight savings
 type K

Type K was decoded whatever the data field said, so that a data field of any
other size made the following records start in the wrong place.
---
 src/parse/application_layer/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 3c85c97..2f54896 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -139,6 +139,10 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
+		ValueType::DSTTypeK => match dib.raw_type {
+			RawDataType::Binary(4) => ValueType::DSTTypeK,
+			_ => ValueType::Invalid(vif!(E111 0010)),
+		},
 		vt => vt,
 	};
 	vib
-- 
2.43.0


From 2ea65956b2426f8a7ea2462f4f2e2fac0643ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 11/17] fix: assemble the local deviation of type K from the
 right bits

As with the year of the other types, the three bits of the earlier byte are the
low bits of the value. The two bits of the second byte were added to the wrong
place, leaving bit 2 always clear.
---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..aa3eae0 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -511,7 +511,7 @@ impl TypeKDST {
 				} else {
 					-dst_deviation
 				},
-				local_deviation: gmt_l + (gmt_u << 3),
+				local_deviation: gmt_u + (gmt_l << 3),
 			},
 		)
 		.verify(|v| matches!(v.local_deviation, 0..=23 | 31))
-- 
2.43.0


From a15e56598e7b13cc2171809ac39e64d2f4464b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 12/17] fix: accept zero as a positive variable length BCD
 number

---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 2f54896..a4361dc 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -84,7 +84,7 @@ impl Record {
 							parse_latin1(n).map(DataType::String).parse_next(input)?
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
-							.verify(|v| *v > 0)
+							.verify(|v| *v >= 0)
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
-- 
2.43.0


From 1fc89cfa8202784dab6b0c62af10aa3b2e043652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 13/17] fix: do not look for byte order marks in latin-1 text

Text whose last characters happen to be the bytes of a byte order mark was
decoded as UTF-8 or UTF-16.
---
 src/parse/types/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..31ef25c 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,10 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| {
+					let (text, _) = WINDOWS_1252.decode_without_bom_handling(data);
+					text.chars().rev().collect()
+				})
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From 1cd48cdf48c3ed8c1f99a55eb52240dea4495785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 14/17] fix: say what is wrong with a packet that has no valid
 start byte

Its error report was empty.
---
 src/parse/link_layer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index ce7df6f..8516d32 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -249,7 +249,12 @@ impl Packet {
 				SHORT_FRAME_HEADER.void(),
 				cut_err(parse_fixed.context(StrContext::Label("short frame header"))),
 			),
-			cut_err(ACK_FRAME.void().map(|_| Packet::Ack)),
+			cut_err(
+				ACK_FRAME
+					.void()
+					.map(|_| Packet::Ack)
+					.context(StrContext::Label("frame start")),
+			),
 		))
 		.parse_next(input)
 	}
-- 
2.43.0


From 6348a0faddd1701e88b2671a0ded2e516953664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 15/17] fix: report a frame that ends before its control byte
 as incomplete

With a partial input every other proper prefix of a frame is reported as
incomplete, but the one ending right before the control byte as malformed: the
bit-level error type could not represent it.
---
 src/parse/link_layer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 8516d32..eeae353 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,8 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, MBusError>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize)
+				.context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
-- 
2.43.0


From e9a6637bfa0bc0f59d6e9fa64642912b270844e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 16/17] fix: reject negative zero as a device identifier

---
 src/parse/transport_layer/header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 8ed9dd2..7792be5 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -300,6 +300,8 @@ impl LongHeader {
 			parse_bcd(4)
 				.try_map(u32::try_from)
 				.with_taken()
+				// "Negative zero" is not an identifier, but does fit in an u32
+				.verify(|(_, raw)| raw[3] >> 4 != 0x0F)
 				.context(StrContext::Label("device identifier")),
 			binary::le_u16
 				.verify_map(|raw| {
-- 
2.43.0


From 207fd800faa36a0d10ac1c4a8ae2cf3876d51a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 17/17] fix: name the record in which a dynamic application
 error is malformed

---
 src/parse/application_layer/application.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse/application_layer/application.rs b/src/parse/application_layer/application.rs
index d0f756c..6c3fe87 100644
--- a/src/parse/application_layer/application.rs
+++ b/src/parse/application_layer/application.rs
@@ -67,7 +67,11 @@ impl ApplicationErrorMessage {
 			0x20 => Self::SecurityError,
 			0x21 => Self::SecurityMechanismNotSupported,
 			0x22 => Self::InadequateSecurityMethod,
-			0xF0 => Self::DynamicError(Record::parse.parse_next(input)?),
+			0xF0 => Self::DynamicError(
+				Record::parse
+					.context(StrContext::Label("dynamic error record"))
+					.parse_next(input)?,
+			),
 			0xF1..=0xFF => Self::ManufacturerSpecific(
 				error_code,
 				repeat::<_, _, Vec<_>, _, _>(0.., binary::u8)
-- 
2.43.0

