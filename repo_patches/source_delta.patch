From 250b5695e6bb7de11bc989e395d99dc59fe7e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:59 +0000
Subject: [PATCH 01/20] fix: treat varints longer than ten bytes as malformed

The shift used to overflow on the eleventh byte, which panicked (or, without
overflow checks, folded the excess bytes into the low bits of the value).
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..cb8dee1 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -677,7 +677,8 @@ where
         let mut result = 0u64;
         let mut idx = 0;
         loop {
-            if idx >= data.len() {
+            // A varint is at most ten bytes long. Anything longer than that is malformed.
+            if idx >= data.len() || idx >= 10 {
                 return None;
             }
 
-- 
2.43.0


From d4bbc54d689db4c474c7b5befc8d3a50abd3454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:00 +0000
Subject: [PATCH 02/20] fix: do not panic on varints outside the range of the
 field type

32-bit fields truncate the varint as the protobuf encoding specifies, and
packed uint64/sint64 values with the top bit set no longer go through i64.
---
 src/decode.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index cb8dee1..d23234d 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -178,11 +178,13 @@ impl Value
                 try_read_8_bytes(data).map(|b| Value::Double(f64::from_le_bytes(b)))
             }
             ValueType::Float => try_read_4_bytes(data).map(|b| Value::Float(f32::from_le_bytes(b))),
-            ValueType::Int32 => i32::from_signed_varint(data).map(Value::Int32),
+            // 32-bit values are truncated from the varint on the wire as per the protobuf spec.
+            ValueType::Int32 => i64::from_signed_varint(data).map(|v| Value::Int32(v as i32)),
             ValueType::Int64 => i64::from_signed_varint(data).map(Value::Int64),
-            ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
+            ValueType::UInt32 => u64::from_unsigned_varint(data).map(|v| Value::UInt32(v as u32)),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
-            ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
+            ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
+                let u = u as u32;
                 let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                 let magnitude = (u / 2) as i32 + sign_bit;
                 Value::SInt32(sign * magnitude)
@@ -279,26 +281,27 @@ impl Value
                 read_packed! { Float @ b = try_read_4_bytes(&mut array) => f32::from_le_bytes(b) }
             }
             ValueType::Int32 => {
-                read_packed! { Int32 @ b = i32::from_signed_varint(&mut array) => b }
+                read_packed! { Int32 @ b = i64::from_signed_varint(&mut array) => b as i32 }
             }
             ValueType::Int64 => {
                 read_packed! { Int64 @ b = i64::from_signed_varint(&mut array) => b }
             }
             ValueType::UInt32 => {
-                read_packed! { UInt32 @ b = u32::from_signed_varint(&mut array) => b }
+                read_packed! { UInt32 @ b = u64::from_unsigned_varint(&mut array) => b as u32 }
             }
             ValueType::UInt64 => {
-                read_packed! { UInt64 @ b = u64::from_signed_varint(&mut array) => b }
+                read_packed! { UInt64 @ b = u64::from_unsigned_varint(&mut array) => b }
             }
             ValueType::SInt32 => {
-                read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
+                read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
+                    let b = b as u32;
                     let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
                     let magnitude = (b / 2) as i32 + sign_bit;
                     sign * magnitude
                 } }
             }
             ValueType::SInt64 => {
-                read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
+                read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
                     let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
                     let magnitude = (b / 2) as i64 + sign_bit;
                     sign * magnitude
@@ -317,7 +320,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
-- 
2.43.0


From e1d61bdf21aea0c61df53abc50f639efe70b44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:01 +0000
Subject: [PATCH 03/20] fix: zigzag coding overflowed for values of large
 magnitude

Decoding the minimum value and encoding anything beyond half of the type's
range panicked.
---
 src/decode.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index d23234d..12a671a 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -185,15 +185,10 @@ impl Value
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
             ValueType::SInt32 => u64::from_unsigned_varint(data).map(|u| {
                 let u = u as u32;
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
-            }),
-            ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                Value::SInt32((u >> 1) as i32 ^ -((u & 1) as i32))
             }),
+            ValueType::SInt64 => u64::from_unsigned_varint(data)
+                .map(|u| Value::SInt64((u >> 1) as i64 ^ -((u & 1) as i64))),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
             }
@@ -295,16 +290,12 @@ impl Value
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u64::from_unsigned_varint(&mut array) => {
                     let b = b as u32;
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i32 ^ -((b & 1) as i32)
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_unsigned_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    (b >> 1) as i64 ^ -((b & 1) as i64)
                 } }
             }
             ValueType::Fixed32 => {
@@ -368,14 +359,8 @@ impl Value
             Value::Int64(v) => BytesMut::from(v.into_signed_varint().as_ref()),
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
-            Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
-            Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
+            Value::SInt32(v) => (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint(),
+            Value::SInt64(v) => (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint(),
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::SFixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -469,16 +454,10 @@ impl PackedArray
                 write_packed!(v => |v| BytesMut::from(v.into_unsigned_varint().as_ref()))
             }
             PackedArray::SInt32(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint())
             }
             PackedArray::SInt64(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint())
             }
             PackedArray::Fixed32(v) => {
                 write_packed!( v => |v| BytesMut::from(v.to_le_bytes().as_ref()) )
-- 
2.43.0


From 3db734115956551c55312d71c3694c1a6df27e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:02 +0000
Subject: [PATCH 04/20] fix: consume the bytes of an incomplete unknown value

The bytes were reported in the Incomplete value, but they were left in the
input as well and got decoded again as a series of phantom fields.
---
 src/decode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 12a671a..2463e6f 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -345,9 +345,10 @@ impl Value
                 }
             };
 
-        value
-            .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+        value.map(Value::Unknown).unwrap_or_else(|| {
+            *data = &[];
+            Value::Incomplete(vt, Bytes::copy_from_slice(original))
+        })
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From c7fbc9d6b6a8678303d3c46eadcf09525a8ebe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 05/20] fix: limit an incomplete packed array to its own bytes

The Incomplete value duplicated every byte that followed the array, even
though those were still decoded into fields of their own.
---
 src/decode.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 2463e6f..ffd8be3 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -262,7 +262,15 @@ impl Value
 
                     match $try_read {
                         Some($val) => output.push($insert),
-                        None => return return_incomplete(&mut array, vt_raw, original),
+                        None => {
+                            // Decoding continues after the array so the incomplete value must
+                            // cover the array only.
+                            let consumed = original.len() - data.len();
+                            return Value::Incomplete(
+                                vt_raw,
+                                Bytes::copy_from_slice(&original[..consumed]),
+                            );
+                        }
                     }
                 }
             };
-- 
2.43.0


From 103c130f8cb15f1142b044927ba8081a6556d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:04 +0000
Subject: [PATCH 06/20] fix: encode the garbage at the end of a message

Invalid and incomplete values are already encoded as they were received.
Trailing garbage was dropped instead.
---
 src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index ffd8be3..6409565 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -620,12 +620,14 @@ impl MessageValue
         self.fields
             .iter()
             .filter_map(|f| f.value.encode(ctx).map(|(w, b)| (f, w, b)))
-            .flat_map(|(field, wire_type, bytes)| {
+            .map(|(field, wire_type, bytes)| {
                 let tag = wire_type as u64 + (field.number << 3);
                 let mut field_data = tag.into_unsigned_varint();
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
+            .chain(self.garbage.iter().map(|g| BytesMut::from(g.as_ref())))
+            .flatten()
             .collect()
     }
 }
-- 
2.43.0


From ad9b761c685da9694621234c4916f1e5c7941636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:30 +0000
Subject: [PATCH 07/20] fix: decode repeated scalars in both packed and
 unpacked form

The protobuf encoding requires parsers to accept either one regardless of
the declaration. The one that didn't match was left as an unknown value, and
a RepeatedPacked multiplicity on a non-scalar field panicked.
---
 src/context/api.rs |  8 ++++++++
 src/decode.rs      | 15 +++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/context/api.rs b/src/context/api.rs
index ca871f6..0f3dc15 100644
--- a/src/context/api.rs
+++ b/src/context/api.rs
@@ -162,6 +162,14 @@ impl Service
 
 impl ValueType
 {
+    /// True, if `decode::PackedArray` is able to hold repeated values of the type.
+    pub(crate) fn is_packable(&self) -> bool
+    {
+        match self {
+            Self::String | Self::Bytes | Self::Message(..) | Self::Enum(..) => false,
+            _ => true,
+        }
+    }
     pub(crate) fn wire_type(&self) -> u8
     {
         match self {
diff --git a/src/decode.rs b/src/decode.rs
index 6409565..dce963a 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -586,12 +586,15 @@ impl MessageInfo
 
             let value = match self.get_field(number) {
                 Some(field) => {
-                    if field.multiplicity == Multiplicity::RepeatedPacked {
-                        if wire_type == 2 {
-                            Value::decode_packed(&mut data, wire_type, &field.field_type)
-                        } else {
-                            Value::decode_unknown(&mut data, wire_type)
-                        }
+                    // Repeated scalars may be encoded both packed and unpacked, no matter which
+                    // of these the field is declared to use.
+                    let packable = field.field_type.is_packable()
+                        && match field.multiplicity {
+                            Multiplicity::Repeated | Multiplicity::RepeatedPacked => true,
+                            Multiplicity::Single | Multiplicity::Optional => false,
+                        };
+                    if packable && wire_type == 2 {
+                        Value::decode_packed(&mut data, wire_type, &field.field_type)
                     } else if field.field_type.wire_type() == wire_type {
                         Value::decode(&mut data, wire_type, &field.field_type, ctx)
                     } else {
-- 
2.43.0


From 220cf7f2f601a8f3a8d81e49b45016032eec12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:31 +0000
Subject: [PATCH 08/20] fix: keep the options of services and rpcs

The options were parsed, but Service::options and Rpc::options were always
left empty.
---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..5c9d18a 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -664,7 +664,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -677,7 +677,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From 0249e7860e1ed967bb1c663f0dd5ff1538d58f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:32 +0000
Subject: [PATCH 09/20] fix: accept empty statements at the top level of a file

The grammar allows them, but handling one panicked.
---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From bfad768f723eed2d6a75e8222c9c5befc461c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:00 +0000
Subject: [PATCH 10/20] fix: report an error for a field with a service as its
 type

This used to panic.
---
 src/context/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 5c9d18a..212f116 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -499,14 +499,21 @@ impl FieldTypeBuilder
                 let t = cache
                     .resolve_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
-                        name: s,
+                        name: s.clone(),
                         context: self_data.full_name.to_string(),
                     })?;
 
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: s,
+                            context: "message field",
+                            expected: ItemType::Message,
+                            actual: t.item_type,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From bc258448ea7700cf9bd88a4155dc4356b69f0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:02 +0000
Subject: [PATCH 11/20] fix: accept reserved names as strings and reserved
 statements in enums

Both are valid proto3, but were rejected as syntax errors.
---
 src/context/parse.rs | 1 +
 src/proto.pest       | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..ec9d074 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -140,6 +140,7 @@ impl EnumBuilder
                     })
                 }
                 Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::reserved => {}
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..a385ce7 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -77,10 +77,10 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
-fieldNames = { fieldName ~ ( "," ~ fieldName )* }
+fieldNames = { ( strLit | fieldName ) ~ ( "," ~ ( strLit | fieldName ) )* }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From 7932a0834b44b98d8b9dd602563c588209febe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:03 +0000
Subject: [PATCH 12/20] fix: do not take enum values for options

A value with a name that starts with 'option', such as 'optional = 1', was
parsed as an option of the enum.
---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index a385ce7..2610241 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -80,7 +80,7 @@ range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
 fieldNames = { ( strLit | fieldName ) ~ ( "," ~ ( strLit | fieldName ) )* }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( enumField | option | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From 6596cbba4c4a239a3392c9dccb75a891d3298e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 13/20] fix: do not split type names that start with a keyword

'stringList', 'optionalField', 'streaming.Request' and the like were taken
for the keyword followed by another name.
---
 src/proto.pest | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 2610241..4b25da5 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,6 +7,7 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
+identChar = { letter | decimalDigit | "_" }
 ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
@@ -54,13 +55,14 @@ package = { "package" ~ fullIdent ~ ";" }
 option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ !identChar }
+type_ = { builtinType | messageType | enumType }
 fieldNumber = { intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ !identChar }
+repeated = @{ "repeated" ~ !identChar }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -88,7 +90,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From b6d50a7371699e6173cd7beae97a063029426cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 14/20] fix: parse float and identifier constants

'1.5' failed as it was taken for an integer, identifiers such as 'info' or
'trueValue' failed as they were taken for 'inf' and 'true', and whitespace
within a float panicked.
---
 src/context/parse.rs | 6 +++++-
 src/proto.pest       | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index ec9d074..d794d39 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -364,7 +364,11 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        Rule::floatLit => {
+            // The sign and the value may be separated by whitespace, which isn't included here.
+            let literal: String = p.into_inner().map(|part| part.as_str()).collect();
+            literal.parse::<f64>().unwrap()
+        }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
diff --git a/src/proto.pest b/src/proto.pest
index 4b25da5..371bc73 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -26,11 +26,12 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = { sign? ~ floatValue }
+floatValue = @{ ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | ( "inf" | "nan" ) ~ !identChar }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ !identChar }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -46,7 +47,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-- 
2.43.0


From c08c373fa6d09014cce6ae528ed95a502e10ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 15/20] fix: report literals that are out of range instead of
 panicking

Numbers that don't fit 64 bits, signed and zero field numbers and octal
escapes above \377 are accepted by the grammar, but made the parser panic.
The smallest 64-bit integer is a valid constant, which panicked as well.
---
 src/context/parse.rs | 62 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index d794d39..33dedf9 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -3,6 +3,7 @@ use pest::{
     iterators::{Pair, Pairs},
     Parser,
 };
+use std::convert::TryFrom;
 
 use super::builder::*;
 use super::*;
@@ -37,6 +38,9 @@ impl PackageBuilder
         let pairs = ProtoParser::parse(Rule::proto, input)
             .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
             .context(SyntaxError {})?;
+        check_literals(pairs.clone())
+            .map_err(|e| Box::new(e) as Box<dyn std::error::Error + Send + Sync>)
+            .context(SyntaxError {})?;
 
         let mut current_package = PackageBuilder::default();
         for pair in pairs {
@@ -321,17 +325,51 @@ impl RpcArgBuilder
     }
 }
 
+/// Ensures the literals, which the grammar allows to be arbitrarily large, are representable.
+fn check_literals(pairs: Pairs<Rule>) -> Result<(), pest::error::Error<Rule>>
+{
+    for p in pairs.flatten() {
+        let valid = match p.as_rule() {
+            Rule::fieldNumber => try_parse_uint_literal(p.clone()).is_some(),
+            Rule::constant | Rule::enumField => p
+                .clone()
+                .into_inner()
+                .filter(|lit| lit.as_rule() == Rule::intLit)
+                .all(|lit| try_parse_int_literal(lit).is_some()),
+            Rule::octByte => u8::from_str_radix(p.as_str(), 8).is_ok(),
+            _ => true,
+        };
+
+        if !valid {
+            return Err(pest::error::Error::new_from_span(
+                pest::error::ErrorVariant::CustomError {
+                    message: "literal is out of range".to_string(),
+                },
+                p.as_span(),
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+{
+    try_parse_uint_literal(p).expect("Literals are checked before they are used")
+}
+
+fn try_parse_uint_literal(p: Pair<Rule>) -> Option<u64>
 {
     match p.as_rule() {
-        Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
+        Rule::fieldNumber => try_parse_uint_literal(p.into_inner().next().unwrap()),
         Rule::intLit => {
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()).ok(),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8).ok(),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).ok(),
+                Rule::sign => None,
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
         }
@@ -340,6 +378,11 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
 }
 
 pub fn parse_int_literal(p: Pair<Rule>) -> i64
+{
+    try_parse_int_literal(p).expect("Literals are checked before they are used")
+}
+
+fn try_parse_int_literal(p: Pair<Rule>) -> Option<i64>
 {
     match p.as_rule() {
         Rule::intLit => {
@@ -350,12 +393,13 @@ pub fn parse_int_literal(p: Pair<Rule>) -> i64
                 Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
                 _ => (1, sign),
             };
-            match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+            let magnitude = match lit.as_rule() {
+                Rule::decimalLit => str::parse::<u64>(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
-            }
+            };
+            i64::try_from(sign * i128::from(magnitude.ok()?)).ok()
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
-- 
2.43.0


From c3376f4c3ef8c5dcb7f7c82f28a9af2fe42e2774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 16/20] fix: allow whitespace and comments within qualified
 names

They were taken as part of the name, which then didn't match anything.
---
 src/context/parse.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 33dedf9..9f943d6 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -53,7 +53,7 @@ impl PackageBuilder
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                            Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::emptyStatement => {}
@@ -199,7 +199,7 @@ impl FieldBuilder
             }
             None => Multiplicity::Single,
         };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap());
 
@@ -220,7 +220,7 @@ impl FieldBuilder
     pub fn parse_oneof(p: Pair<Rule>) -> Self
     {
         let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(&parse_type_name(inner.next().unwrap()));
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap());
 
@@ -320,11 +320,29 @@ impl RpcArgBuilder
         let mut inner = p.into_inner();
         RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
+            message: parse_type_name(inner.next().unwrap()),
         }
     }
 }
 
+/// Parses the name of a type without the whitespace and comments there may be around the dots.
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    let mut name = String::new();
+    if p.as_str().starts_with('.') {
+        name.push('.');
+    }
+
+    let parts: Vec<_> = p
+        .into_inner()
+        .flatten()
+        .filter(|part| part.as_rule() == Rule::ident || part.as_rule() == Rule::builtinType)
+        .map(|part| part.as_str())
+        .collect();
+    name.push_str(&parts.join("."));
+    name
+}
+
 /// Ensures the literals, which the grammar allows to be arbitrarily large, are representable.
 fn check_literals(pairs: Pairs<Rule>) -> Result<(), pest::error::Error<Rule>>
 {
-- 
2.43.0


From ff52dbea255035111b613fd7fb50428e9f1fce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 17/20] fix: reject a new oneof that claims the fields of
 another one

The field moved to the new oneof, but it was still listed in the old one as
well. The check was there in a comment only.
---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..df07797 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of another oneof.
+    FieldInOneof
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..48b72e7 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() {
+                return Err(OneofInsertError::FieldInOneof { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From abd26f35265713e0a3c6905894978adf78b10594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 18/20] fix: do not take integer options of messages for fields

---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index 371bc73..4024505 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -88,7 +88,7 @@ enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValue
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
-- 
2.43.0


From ff06d7394d3438372c45167ec527d073d51bf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 19/20] fix: reject keywords glued to the identifier after them

---
 src/proto.pest | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 4024505..6badb41 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -43,17 +43,20 @@ octByte = ${ octalDigit ~ octalDigit? ~ octalDigit? }
 charEscape = ${ "\\" ~ escapeChar }
 escapeChar = { "a" | "b" | "f" | "n" | "r" | "t" | "v" | "\\" | "'" | "\"" }
 anyChar = ${ ANY }
-quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
 constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
-syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
-import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-package = { "package" ~ fullIdent ~ ";" }
+// A keyword and the identifier after it need something in between: `messageFoo {}` is no message.
+glued = @{ ( "syntax" | "import" | "package" | "option" | "oneof" | "reserved" | "enum" | "message"
+    | "service" | "rpc" ) ~ identChar }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+syntax = { !glued ~ "syntax" ~ "=" ~ ( "'proto3'" | "\"proto3\"" ) ~ ";" }
+import = { !glued ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
+package = { !glued ~ "package" ~ fullIdent ~ ";" }
+
+option = { !glued ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
 builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
@@ -70,31 +73,31 @@ field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOp
 fieldOptions = { fieldOption ~ ( "," ~ fieldOption )* }
 fieldOption = { optionName ~ "=" ~ constant }
 
-oneof = { "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
+oneof = { !glued ~ "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
 oneofField = { type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 
 mapField = { "map" ~ "<" ~ keyType ~ "," ~ type_ ~ ">" ~ mapName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
           "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string" }
 
-reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
+reserved = { !glued ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
 fieldNames = { ( strLit | fieldName ) ~ ( "," ~ ( strLit | fieldName ) )* }
 
-enum_ = { "enum" ~ enumName ~ enumBody }
+enum_ = { !glued ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( enumField | option | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-message = { "message" ~ messageName ~ messageBody }
+message = { !glued ~ "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
-service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
+service = { !glued ~ "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
-rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
+rpc = { !glued ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
 proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0


From fd163f12dc17b0f7d02f90c73fe4f4fd713bf135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 20/20] fix: look past services when resolving the type of a
 field

---
 src/context/builder.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 212f116..cf7670d 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -497,7 +497,7 @@ impl FieldTypeBuilder
             FieldTypeBuilder::Builtin(vt) => vt,
             FieldTypeBuilder::Unknown(s) => {
                 let t = cache
-                    .resolve_type(&s, &self_data.full_name)
+                    .resolve_field_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
                         name: s.clone(),
                         context: self_data.full_name.to_string(),
@@ -763,7 +763,31 @@ struct CacheData
 
 impl BuildCache
 {
-    fn resolve_type(&self, relative_name: &str, mut current_path: &str) -> Option<&CacheData>
+    fn resolve_type(&self, relative_name: &str, current_path: &str) -> Option<&CacheData>
+    {
+        self.resolve_item(relative_name, current_path, |_| true)
+    }
+
+    /// Resolves the type of a field. A simple name does not refer to a service
+    /// if there is a type with that name further out.
+    fn resolve_field_type(&self, relative_name: &str, current_path: &str) -> Option<&CacheData>
+    {
+        if relative_name.contains('.') {
+            return self.resolve_type(relative_name, current_path);
+        }
+
+        self.resolve_item(relative_name, current_path, |data| {
+            data.item_type != ItemType::Service
+        })
+        .or_else(|| self.resolve_type(relative_name, current_path))
+    }
+
+    fn resolve_item(
+        &self,
+        relative_name: &str,
+        mut current_path: &str,
+        accept: impl Fn(&CacheData) -> bool,
+    ) -> Option<&CacheData>
     {
         if let Some(absolute) = relative_name.strip_prefix('.') {
             return self.type_by_full_name(absolute);
@@ -775,7 +799,7 @@ impl BuildCache
                 false => format!("{}.{}", current_path, relative_name).into(),
             };
 
-            if let Some(t) = self.type_by_full_name(&lookup) {
+            if let Some(t) = self.type_by_full_name(&lookup).filter(|t| accept(t)) {
                 return Some(t);
             }
 
-- 
2.43.0

