From ec455f7b6891e1c1c1d0b7057da5787d02d0730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 01/10] fix: reject dates whose year or ordinal overflows
 instead of panicking

---
 dlhn/src/date.rs        | 6 ++++--
 dlhn/src/format/date.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date.rs b/dlhn/src/date.rs
index e5a2b57..650a91a 100644
--- a/dlhn/src/date.rs
+++ b/dlhn/src/date.rs
@@ -61,11 +61,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         Ok(Date { year, ordinal })
     }
 }
diff --git a/dlhn/src/format/date.rs b/dlhn/src/format/date.rs
index d5d308d..6749844 100644
--- a/dlhn/src/format/date.rs
+++ b/dlhn/src/format/date.rs
@@ -25,11 +25,13 @@ impl<'de> Visitor<'de> for DateVisitor {
         let year = seq
             .next_element::<i32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_YEAR_OFFSET;
+            .checked_add(DATE_YEAR_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let ordinal = seq
             .next_element::<u16>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-            + DATE_ORDINAL_OFFSET;
+            .checked_add(DATE_ORDINAL_OFFSET)
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
         let date = Date::from_ordinal_date(year, ordinal)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?;
         Ok(date)
-- 
2.43.0


From ce88a8cb34730f56edd2bf6d462999841b52b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 02/10] fix: return an error when a date time's nanoseconds
 leave the supported range

---
 dlhn/src/date_time.rs        | 5 +++--
 dlhn/src/format/date_time.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dlhn/src/date_time.rs b/dlhn/src/date_time.rs
index 41af62b..552c704 100644
--- a/dlhn/src/date_time.rs
+++ b/dlhn/src/date_time.rs
@@ -24,8 +24,9 @@ impl std::convert::TryInto<OffsetDateTime> for DateTime {
 
     fn try_into(self) -> Result<OffsetDateTime, Self::Error> {
         OffsetDateTime::from_unix_timestamp(self.unix_timestamp)
-            .map(|v| v + (self.nanosecond as i64).nanoseconds())
-            .or(Err(()))
+            .or(Err(()))?
+            .checked_add((self.nanosecond as i64).nanoseconds())
+            .ok_or(())
     }
 }
 
diff --git a/dlhn/src/format/date_time.rs b/dlhn/src/format/date_time.rs
index 44e4bbb..4d757dc 100644
--- a/dlhn/src/format/date_time.rs
+++ b/dlhn/src/format/date_time.rs
@@ -25,9 +25,10 @@ impl<'de> Visitor<'de> for OffsetDateTimeVisitor {
         let nanosecond = seq
             .next_element::<u32>()?
             .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
-        Ok(OffsetDateTime::from_unix_timestamp(unix_timestamp)
+        OffsetDateTime::from_unix_timestamp(unix_timestamp)
             .or(Err(de::Error::invalid_value(Unexpected::Seq, &Error::Read)))?
-            + (nanosecond as i64).nanoseconds())
+            .checked_add((nanosecond as i64).nanoseconds())
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))
     }
 }
 
-- 
2.43.0


From 35097bed6ebc771c407ad3badfb2052cba29556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 03/10] fix: do not panic or abort on an array whose encoded
 length is huge

---
 dlhn/src/body/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dlhn/src/body/mod.rs b/dlhn/src/body/mod.rs
index 3dcaba0..211a004 100644
--- a/dlhn/src/body/mod.rs
+++ b/dlhn/src/body/mod.rs
@@ -3,6 +3,9 @@ use serde::{ser::SerializeTuple, Deserialize, Serialize};
 use serde_bytes::ByteBuf;
 use std::{collections::BTreeMap, io::Read};
 
+// The length of an array is untrusted input, so it must not decide how much memory is reserved.
+const MAX_PREALLOCATION: u64 = 4096;
+
 #[derive(Clone, Debug, PartialEq)]
 pub enum Body {
     Unit,
@@ -113,7 +116,7 @@ impl Body {
             Header::Binary => ByteBuf::deserialize(deserializer).map(|v| Self::Binary(v)),
             Header::Array(inner) => {
                 let len = u64::deserialize(&mut *deserializer)?;
-                let mut buf = Vec::with_capacity(len as usize);
+                let mut buf = Vec::with_capacity(len.min(MAX_PREALLOCATION) as usize);
                 for _ in 0..len {
                     buf.push(Self::deserialize(inner, deserializer)?);
                 }
-- 
2.43.0


From 9266604836de9609f4de5414311dfac85daf45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 04/10] fix: decode enum variant indexes as the u32 they are
 encoded as

---
 dlhn/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 651ba33..94cd94d 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -371,7 +371,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        self.deserialize_u16(visitor)
+        self.deserialize_u32(visitor)
     }
 
     fn deserialize_ignored_any<V>(self, _: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From dbfe25a6d208a4f96b7a1c479f6c15fbb515c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 05/10] fix: refuse to serialize a header whose element count
 does not fit its encoding

---
 dlhn/src/header/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dlhn/src/header/ser.rs b/dlhn/src/header/ser.rs
index 979635e..8449bbf 100644
--- a/dlhn/src/header/ser.rs
+++ b/dlhn/src/header/ser.rs
@@ -3,7 +3,7 @@ use crate::{BigDecimal, BigInt, BigUint, Date, DateTime, PrefixVarint};
 use serde_bytes::{ByteBuf, Bytes};
 use std::{
     collections::{BTreeMap, HashMap},
-    io::{Result, Write},
+    io::{Error, ErrorKind, Result, Write},
 };
 
 pub trait SerializeHeader {
@@ -293,6 +293,12 @@ impl Header {
     }
 
     fn serialize_inner_vec<W: Write>(code: u8, inner: &Vec<Header>, writer: &mut W) -> Result<()> {
+        if inner.len() > u16::MAX as usize {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "a header cannot have more than 65535 elements",
+            ));
+        }
         writer.write_all(&[code])?;
         let mut buf = [0u8; u16::PREFIX_VARINT_BUF_SIZE];
         let size = (inner.len() as u16).encode_prefix_varint(&mut buf);
-- 
2.43.0


From f99e314f9df51f0cd53a59591d9a604da8337481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 06/10] fix: leave skipped fields of enum variants out of the
 derived header

---
 dlhn_derive/src/lib.rs | 54 +++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/dlhn_derive/src/lib.rs b/dlhn_derive/src/lib.rs
index 180b4ce..0f35a02 100644
--- a/dlhn_derive/src/lib.rs
+++ b/dlhn_derive/src/lib.rs
@@ -81,8 +81,28 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                     .into();
                 }
 
+                if variant
+                    .fields
+                    .iter()
+                    .any(|field| has_skip_serializing_if(field.attrs.iter()))
+                {
+                    return syn::Error::new(
+                        Span::call_site(),
+                        "skip_serializing_if is not supported",
+                    )
+                    .to_compile_error()
+                    .into();
+                }
+
                 if !is_skip_field(variant.attrs.iter()) {
-                    if variant.fields.is_empty() {
+                    let types = variant
+                        .fields
+                        .iter()
+                        .filter(|field| !is_skip_field(field.attrs.iter()))
+                        .map(|field| field.ty.to_token_stream())
+                        .collect::<Vec<_>>();
+
+                    if types.is_empty() {
                         outers.push(
                             Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                 .into_token_stream(),
@@ -93,14 +113,13 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                         )
                         .into_token_stream()]);
                     } else {
-                        if variant.fields.len() > 1 {
+                        if types.len() > 1 {
                             match &variant.fields {
-                                syn::Fields::Named(fields) => {
+                                syn::Fields::Named(_) => {
                                     // let mut buf = vec![STRUCT_CODE];
                                     let mut buf = vec![TUPLE_CODE];
                                     buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
+                                        &mut (types.len() as u16).encode_prefix_varint_vec(),
                                     );
                                     outers.push(
                                         proc_macro2::TokenStream::from_str(
@@ -109,17 +128,12 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                         .unwrap(),
                                     );
 
-                                    let mut field_types = Vec::new();
-                                    fields.named.iter().for_each(|field| {
-                                        field_types.push(field.ty.to_token_stream());
-                                    });
-                                    inners.push(field_types);
+                                    inners.push(types);
                                 }
-                                syn::Fields::Unnamed(fields) => {
+                                syn::Fields::Unnamed(_) => {
                                     let mut buf = vec![TUPLE_CODE];
                                     buf.append(
-                                        &mut (variant.fields.len() as u16)
-                                            .encode_prefix_varint_vec(),
+                                        &mut (types.len() as u16).encode_prefix_varint_vec(),
                                     );
                                     outers.push(
                                         proc_macro2::TokenStream::from_str(
@@ -128,13 +142,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                         .unwrap(),
                                     );
 
-                                    inners.push(
-                                        fields
-                                            .unnamed
-                                            .iter()
-                                            .map(|field| field.ty.to_token_stream())
-                                            .collect(),
-                                    );
+                                    inners.push(types);
                                 }
                                 syn::Fields::Unit => todo!(),
                             }
@@ -143,11 +151,7 @@ pub fn derive_serialize_header(input: TokenStream) -> TokenStream {
                                 Group::new(Delimiter::Bracket, proc_macro2::TokenStream::new())
                                     .into_token_stream(),
                             );
-                            let mut field_types = Vec::new();
-                            variant.fields.iter().for_each(|field| {
-                                field_types.push(field.ty.to_token_stream());
-                            });
-                            inners.push(field_types);
+                            inners.push(types);
                         }
                     }
                 }
-- 
2.43.0


From bf53bdacafd8e5870288a8c1a69075757294f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 07/10] fix: consume the scale of a big decimal whose digits
 are zero but not empty

---
 dlhn/src/format/big_decimal.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/format/big_decimal.rs b/dlhn/src/format/big_decimal.rs
index 3b7c0cf..11f6fd5 100644
--- a/dlhn/src/format/big_decimal.rs
+++ b/dlhn/src/format/big_decimal.rs
@@ -21,12 +21,11 @@ impl<'de> Visitor<'de> for BigDecimalVisitor {
     where
         A: SeqAccess<'de>,
     {
-        let digits = BigInt::from_signed_bytes_le(
-            seq.next_element::<Vec<u8>>()?
-                .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?
-                .as_slice(),
-        );
-        if digits.is_zero() {
+        let signed_bytes = seq
+            .next_element::<Vec<u8>>()?
+            .ok_or(de::Error::invalid_value(Unexpected::Seq, &Error::Read))?;
+        let digits = BigInt::from_signed_bytes_le(signed_bytes.as_slice());
+        if signed_bytes.is_empty() {
             Ok(BigDecimal::from(digits))
         } else {
             Ok(BigDecimal::new(
-- 
2.43.0


From 527a1b9c07802164c63eb9ae977f5a36dc667f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 08/10] fix: decode requests for str and bytes, and refuse any,
 instead of panicking

---
 dlhn/src/de.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dlhn/src/de.rs b/dlhn/src/de.rs
index 94cd94d..5ea4b82 100644
--- a/dlhn/src/de.rs
+++ b/dlhn/src/de.rs
@@ -63,7 +63,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("dlhn is not a self-describing format"))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -200,11 +200,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         )
     }
 
-    fn deserialize_str<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -236,11 +236,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
         }
     }
 
-    fn deserialize_bytes<V>(self, _: V) -> Result<V::Value, Self::Error>
+    fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        self.deserialize_byte_buf(visitor)
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -378,7 +378,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<'de, R> {
     where
         V: de::Visitor<'de>,
     {
-        todo!()
+        Err(de::Error::custom("dlhn is not a self-describing format"))
     }
 
     #[inline]
-- 
2.43.0


From 03954ff295eaa498bff68e0f2bbdba02e75bb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 09/10] hook: kani contracts on the varint and zigzag
 primitives, under cfg(kani)

---
 dlhn/src/contracts.rs     | 172 ++++++++++++++++++++++++++++++++++++++
 dlhn/src/lib.rs           |   3 +
 dlhn/src/prefix_varint.rs |   6 ++
 dlhn/src/zigzag.rs        |   8 ++
 4 files changed, 189 insertions(+)
 create mode 100644 dlhn/src/contracts.rs

diff --git a/dlhn/src/contracts.rs b/dlhn/src/contracts.rs
new file mode 100644
index 0000000..3df06d1
--- /dev/null
+++ b/dlhn/src/contracts.rs
@@ -0,0 +1,172 @@
+//! Verification only, compiled under `cfg(kani)`: the functions that the contracts on the
+//! crate-private encoding primitives are stated with, and the harnesses that discharge them.
+
+/// The number of bytes the prefix varint of `value` takes in a type of `max - 1` bytes.
+pub(crate) fn varint_len(value: u64, max: usize) -> usize {
+    let mut n = 1;
+    // n bytes leave 7 * n bits for the value, up to the form that holds all bytes of the type.
+    if value >= 1 << 7 {
+        n = 2;
+    }
+    if value >= 1 << 14 {
+        n = 3;
+    }
+    if value >= 1 << 21 {
+        n = 4;
+    }
+    if value >= 1 << 28 {
+        n = 5;
+    }
+    if value >= 1 << 35 {
+        n = 6;
+    }
+    if value >= 1 << 42 {
+        n = 7;
+    }
+    if value >= 1 << 49 {
+        n = 8;
+    }
+    if value >= 1 << 56 {
+        n = 9;
+    }
+    if n > max {
+        max
+    } else {
+        n
+    }
+}
+
+/// Byte `i` of the prefix varint of `value` in a type of `max - 1` bytes.
+pub(crate) fn varint_byte(value: u64, max: usize, i: usize) -> u8 {
+    let n = varint_len(value, max);
+    // The first byte announces the bytes that follow by its leading ones. Where all bytes of the
+    // type follow, there are `max - 1` of them and no bits of the value in the first byte.
+    let prefix = if n == 9 { 0xff } else { !(0xffu8 >> (n - 1)) };
+    let low_bits = if n == max || n >= 8 { 0 } else { 8 - n };
+    if i == 0 {
+        prefix | (value & ((1 << low_bits) - 1)) as u8
+    } else {
+        (value >> (low_bits + 8 * (i - 1))) as u8
+    }
+}
+
+/// Whether `buf` starts with the prefix varint of `value`, and that is `n` bytes long.
+pub(crate) fn is_varint(buf: &[u8], n: usize, value: u64) -> bool {
+    let max = buf.len();
+    let at = |i: usize| i >= n || buf[i] == varint_byte(value, max, i);
+    n == varint_len(value, max)
+        && n <= max
+        && at(0)
+        && at(1)
+        && at(2)
+        && at(3)
+        && at(4)
+        && at(5)
+        && at(6)
+        && at(7)
+        && at(8)
+}
+
+/// What decoding `buf` in a type of `max - 1` bytes gives: the value and how many bytes it takes,
+/// or nothing where the input is too short.
+pub(crate) fn decoded(buf: &[u8], max: usize) -> Option<(u64, usize)> {
+    if buf.is_empty() {
+        return None;
+    }
+    let ones = buf[0].leading_ones() as usize;
+    let n = if ones + 1 > max { max } else { ones + 1 };
+    if buf.len() < n {
+        return None;
+    }
+    let low_bits = if n == max || n >= 8 { 0 } else { 8 - n };
+    let low = buf[0] as u64 & ((1 << low_bits) - 1);
+    let byte = |i: usize| if i < n { (buf[i] as u64) << (8 * (i - 1)) } else { 0 };
+    let high =
+        byte(1) | byte(2) | byte(3) | byte(4) | byte(5) | byte(6) | byte(7) | byte(8);
+    Some((low | (high << low_bits), n))
+}
+
+/// The zigzag mapping, in mathematical integers.
+pub(crate) fn zigzag(value: i128) -> i128 {
+    if value >= 0 {
+        2 * value
+    } else {
+        -2 * value - 1
+    }
+}
+
+/// Its inverse.
+pub(crate) fn unzigzag(value: i128) -> i128 {
+    if value % 2 == 0 {
+        value / 2
+    } else {
+        -(value + 1) / 2
+    }
+}
+
+/// The harnesses need `--cfg dlhn_contracts` on top, so that crates that only call this one under
+/// kani do not carry them.
+#[cfg(dlhn_contracts)]
+mod proofs {
+    use super::*;
+    use crate::prefix_varint::PrefixVarint;
+    use crate::zigzag::ZigZag;
+
+    macro_rules! zigzag_contracts {
+        ($signed:ty, $unsigned:ty, $encode:ident, $decode:ident) => {
+            #[kani::proof_for_contract(<$signed as crate::zigzag::ZigZag<$unsigned>>::encode_zigzag)]
+            fn $encode() {
+                let value: $signed = kani::any();
+                let _ = value.encode_zigzag();
+            }
+
+            #[kani::proof_for_contract(<$signed as crate::zigzag::ZigZag<$unsigned>>::decode_zigzag)]
+            fn $decode() {
+                let _ = <$signed>::decode_zigzag(kani::any());
+            }
+        };
+    }
+
+    zigzag_contracts!(i8, u8, zigzag_encode_i8, zigzag_decode_i8);
+    zigzag_contracts!(i16, u16, zigzag_encode_i16, zigzag_decode_i16);
+    zigzag_contracts!(i32, u32, zigzag_encode_i32, zigzag_decode_i32);
+    zigzag_contracts!(i64, u64, zigzag_encode_i64, zigzag_decode_i64);
+
+    macro_rules! varint_contracts {
+        ($ty:ty, $max:literal, $encode:ident, $decode:ident) => {
+            #[kani::proof_for_contract(<$ty as crate::prefix_varint::PrefixVarint>::encode_prefix_varint)]
+            #[kani::unwind(10)]
+            fn $encode() {
+                let value: $ty = kani::any();
+                let mut buf: [u8; $max] = kani::any();
+                let _ = value.encode_prefix_varint(&mut buf);
+            }
+
+            // Decoding is generic over the reader, so its contract is stated here, over every
+            // input of every length up to one more byte than it can read.
+            #[kani::proof]
+            #[kani::unwind(12)]
+            fn $decode() {
+                let bytes: [u8; $max + 1] = kani::any();
+                let len: usize = kani::any();
+                kani::assume(len <= $max + 1);
+                let mut reader = &bytes[..len];
+                let result = <$ty>::decode_prefix_varint(&mut reader);
+                match decoded(&bytes[..len], $max) {
+                    Some((value, n)) => {
+                        assert!(matches!(result, Ok(v) if v as u64 == value));
+                        assert!(reader.len() == len - n);
+                    }
+                    None => assert!(result.is_err()),
+                }
+                kani::cover!(result.is_ok());
+                kani::cover!(result.is_err());
+                std::mem::forget(result);
+            }
+        };
+    }
+
+    varint_contracts!(u16, 3, varint_encode_u16, varint_decode_u16);
+    varint_contracts!(u32, 5, varint_encode_u32, varint_decode_u32);
+    varint_contracts!(u64, 9, varint_encode_u64, varint_decode_u64);
+}
diff --git a/dlhn/src/lib.rs b/dlhn/src/lib.rs
index c9f9a8e..8cd7fed 100644
--- a/dlhn/src/lib.rs
+++ b/dlhn/src/lib.rs
@@ -1,9 +1,12 @@
 #![forbid(unsafe_code)]
+#![allow(unexpected_cfgs)]
 
 pub mod big_decimal;
 pub mod big_int;
 pub mod big_uint;
 pub mod body;
+#[cfg(kani)]
+pub(crate) mod contracts;
 pub mod date;
 pub mod date_time;
 pub mod de;
diff --git a/dlhn/src/prefix_varint.rs b/dlhn/src/prefix_varint.rs
index f967b75..42ee624 100644
--- a/dlhn/src/prefix_varint.rs
+++ b/dlhn/src/prefix_varint.rs
@@ -51,6 +51,8 @@ impl PrefixVarint<2> for u8 {
 impl PrefixVarint<3> for u16 {
     const PREFIX_VARINT_BUF_SIZE: usize = 3;
 
+    #[cfg_attr(kani, kani::ensures(|n: &usize| crate::contracts::is_varint(&buf[..], *n, self as u64)))]
+    #[cfg_attr(kani, kani::modifies(buf))]
     fn encode_prefix_varint(self, buf: &mut [u8; 3]) -> usize {
         let mut value = self;
 
@@ -95,6 +97,8 @@ impl PrefixVarint<3> for u16 {
 impl PrefixVarint<5> for u32 {
     const PREFIX_VARINT_BUF_SIZE: usize = 5;
 
+    #[cfg_attr(kani, kani::ensures(|n: &usize| crate::contracts::is_varint(&buf[..], *n, self as u64)))]
+    #[cfg_attr(kani, kani::modifies(buf))]
     fn encode_prefix_varint(self, buf: &mut [u8; 5]) -> usize {
         let mut value = self;
 
@@ -166,6 +170,8 @@ impl PrefixVarint<5> for u32 {
 impl PrefixVarint<9> for u64 {
     const PREFIX_VARINT_BUF_SIZE: usize = 9;
 
+    #[cfg_attr(kani, kani::ensures(|n: &usize| crate::contracts::is_varint(&buf[..], *n, self as u64)))]
+    #[cfg_attr(kani, kani::modifies(buf))]
     fn encode_prefix_varint(self, buf: &mut [u8; 9]) -> usize {
         let mut value = self;
 
diff --git a/dlhn/src/zigzag.rs b/dlhn/src/zigzag.rs
index 7f690d7..3dba01b 100644
--- a/dlhn/src/zigzag.rs
+++ b/dlhn/src/zigzag.rs
@@ -17,40 +17,48 @@ pub(crate) trait ZigZag<T> {
 // }
 
 impl ZigZag<u64> for i64 {
+    #[cfg_attr(kani, kani::ensures(|r: &u64| *r as i128 == crate::contracts::zigzag(self as i128)))]
     fn encode_zigzag(self) -> u64 {
         ((self << 1) ^ (self >> 63)) as u64
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &i64| *r as i128 == crate::contracts::unzigzag(value as i128)))]
     fn decode_zigzag(value: u64) -> Self {
         (value >> 1) as i64 ^ (-(value as i64 & 1))
     }
 }
 
 impl ZigZag<u32> for i32 {
+    #[cfg_attr(kani, kani::ensures(|r: &u32| *r as i128 == crate::contracts::zigzag(self as i128)))]
     fn encode_zigzag(self) -> u32 {
         ((self << 1) ^ (self >> 31)) as u32
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &i32| *r as i128 == crate::contracts::unzigzag(value as i128)))]
     fn decode_zigzag(value: u32) -> Self {
         (value >> 1) as i32 ^ (-(value as i32 & 1))
     }
 }
 
 impl ZigZag<u16> for i16 {
+    #[cfg_attr(kani, kani::ensures(|r: &u16| *r as i128 == crate::contracts::zigzag(self as i128)))]
     fn encode_zigzag(self) -> u16 {
         ((self << 1) ^ (self >> 15)) as u16
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &i16| *r as i128 == crate::contracts::unzigzag(value as i128)))]
     fn decode_zigzag(value: u16) -> Self {
         (value >> 1) as i16 ^ (-(value as i16 & 1))
     }
 }
 
 impl ZigZag<u8> for i8 {
+    #[cfg_attr(kani, kani::ensures(|r: &u8| *r as i128 == crate::contracts::zigzag(self as i128)))]
     fn encode_zigzag(self) -> u8 {
         ((self << 1) ^ (self >> 7)) as u8
     }
 
+    #[cfg_attr(kani, kani::ensures(|r: &i8| *r as i128 == crate::contracts::unzigzag(value as i128)))]
     fn decode_zigzag(value: u8) -> Self {
         (value >> 1) as i8 ^ (-(value as i8 & 1))
     }
-- 
2.43.0


From fee4be8c4d6e9a45cdcdc99472b4b0edbad69032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 10/10] fix: map keys were serialized as in a human readable
 format

MapKeySerializer did not override is_human_readable, so a key such as an
IpAddr was written as a string that the deserializer, which is not human
readable, could not read back.
---
 dlhn/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dlhn/src/ser.rs b/dlhn/src/ser.rs
index f33e10e..3d28782 100644
--- a/dlhn/src/ser.rs
+++ b/dlhn/src/ser.rs
@@ -572,6 +572,11 @@ impl<'a, W: Write> ser::Serializer for MapKeySerializer<'a, W> {
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Err(Error::UnsupportedKeyType)
     }
+
+    #[inline]
+    fn is_human_readable(&self) -> bool {
+        false
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0

