From c7d9037a0ee03f16365117efb7fbfbe3fbc53a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 01/20] fix: encode List with list format codes instead of
 array codes

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index 76be9ac..b15d747 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -611,11 +611,11 @@ impl Encode for List {
     fn encode(&self, buf: &mut BytesMut) {
         let size = list_encoded_size(self);
         if size + 1 > u8::MAX as usize {
-            buf.put_u8(codec::FORMATCODE_ARRAY32);
+            buf.put_u8(codec::FORMATCODE_LIST32);
             buf.put_u32_be((size + 4) as u32); // +4 for 4 byte count that follow
             buf.put_u32_be(self.len() as u32);
         } else {
-            buf.put_u8(codec::FORMATCODE_ARRAY8);
+            buf.put_u8(codec::FORMATCODE_LIST8);
             buf.put_u8((size + 1) as u8); // +1 for 1 byte count that follow
             buf.put_u8(self.len() as u8);
         }
-- 
2.43.0


From 4d333277760af41c204939fade1ade5cd04d08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 02/20] fix: reject compound values whose size does not cover
 the count

---
 src/codec/decode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ac419d8..8f6da17 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -531,7 +531,8 @@ pub(crate) fn decode_map_header(
 
 fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     Ok((
         &input[2..],
@@ -544,7 +545,10 @@ fn decode_compound8(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseEr
 
 fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     Ok((&input[8..], CompoundHeader { size, count }))
 }
-- 
2.43.0


From 1380d0d3cc7ccfa74910396732db483b5aba3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 03/20] fix: report truncated maps as incomplete instead of
 panicking

---
 src/codec/decode.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 8f6da17..494f8f8 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -253,6 +253,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
@@ -286,6 +287,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
 impl DecodeFormatted for VecVariantMap {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_map_header(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map = Vec::with_capacity(count as usize);
-- 
2.43.0


From 11762dd35e825dada5d97ccda0bd640b8f96f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 04/20] fix: report an array without element constructor as
 incomplete instead of panicking

---
 src/codec/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 494f8f8..36d37c2 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -272,6 +272,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
+        decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
         let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
-- 
2.43.0


From 2f887ee932c108f178483c2158c159c5d8f477b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 05/20] fix: confine list and array elements to the declared
 size

---
 src/codec/decode.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 36d37c2..ecb8fcf 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -272,6 +272,9 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
 impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         let (input, header) = decode_array_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (input, remainder) = input.split_at(size);
         decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
@@ -281,7 +284,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, result))
+        Ok((remainder, result))
     }
 }
 
@@ -320,14 +323,17 @@ impl<T: ArrayDecode + DecodeFormatted> DecodeFormatted for Multiple<T> {
 
 impl DecodeFormatted for List {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
-        let (mut input, header) = decode_list_header(input, fmt)?;
+        let (input, header) = decode_list_header(input, fmt)?;
+        let size = header.size as usize;
+        decode_check_len!(input, size);
+        let (mut input, remainder) = input.split_at(size);
         let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
             input = new_input;
         }
-        Ok((input, List(result)))
+        Ok((remainder, List(result)))
     }
 }
 
-- 
2.43.0


From 29db35de2e9fa0f29a6be0e3d655605c094f70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 06/20] fix: bound preallocation by the bytes present instead
 of the announced count

---
 src/codec/decode.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index ecb8fcf..47ffc45 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -257,7 +257,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(count as usize, Default::default());
+            HashMap::with_capacity_and_hasher(map_input.len().min(count as usize), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -278,7 +278,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(input.len().min(header.count as usize));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
@@ -294,7 +294,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(map_input.len().min(count as usize));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -327,7 +327,7 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut input, remainder) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(input.len().min(header.count as usize));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
-- 
2.43.0


From 30fd45a41dbfe57541c887f0955005226926a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 07/20] fix: switch arrays to array32 before the array8 size
 octet overflows

---
 src/codec/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/encode.rs b/src/codec/encode.rs
index b15d747..6684f8d 100644
--- a/src/codec/encode.rs
+++ b/src/codec/encode.rs
@@ -545,7 +545,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
     fn encoded_size(&self) -> usize {
         let content_size = array_encoded_size(self);
         // format_code + size + count + item constructor -- todo: support described ctor?
-        (if content_size + 1 > u8::MAX as usize {
+        (if content_size + 2 > u8::MAX as usize {
             10
         } else {
             4
@@ -555,7 +555,7 @@ impl<T: ArrayEncode> Encode for Vec<T> {
 
     fn encode(&self, buf: &mut BytesMut) {
         let size = array_encoded_size(self);
-        if size + 1 > u8::MAX as usize {
+        if size + 2 > u8::MAX as usize {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32_be((size + 5) as u32); // +4 for 4 byte count and 1 byte item ctor that follow
             buf.put_u32_be(self.len() as u32);
-- 
2.43.0


From 7df2f4a7152eb4735e196b67cc8fa86d1aeabf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 08/20] fix: decode timestamps before 1970 and reject
 unrepresentable ones

---
 src/codec/decode.rs | 22 +++++++++-------------
 src/errors.rs       |  2 ++
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 47ffc45..445bec5 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -170,7 +170,8 @@ impl DecodeFormatted for char {
 impl DecodeFormatted for DateTime<Utc> {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         validate_code!(fmt, codec::FORMATCODE_TIMESTAMP);
-        be_read!(input, read_i64, 8).map(|(i, o)| (i, datetime_from_millis(o)))
+        let (input, millis) = i64::decode_with_format(input, codec::FORMATCODE_LONG)?;
+        Ok((input, datetime_from_millis(millis)?))
     }
 }
 
@@ -562,18 +563,13 @@ fn decode_compound32(input: &[u8]) -> Result<(&[u8], CompoundHeader), AmqpParseE
     Ok((&input[8..], CompoundHeader { size, count }))
 }
 
-fn datetime_from_millis(millis: i64) -> DateTime<Utc> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds - 1, nanoseconds)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).abs() as u32;
-        Utc.timestamp(seconds, nanoseconds)
-    }
+fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
+    // floor division keeps the sub-second part positive for times before 1970
+    let seconds = millis.div_euclid(1000);
+    let nanoseconds = millis.rem_euclid(1000) as u32 * 1_000_000;
+    Utc.timestamp_opt(seconds, nanoseconds)
+        .single()
+        .ok_or(AmqpParseError::InvalidTimestamp(millis))
 }
 
 #[cfg(test)]
diff --git a/src/errors.rs b/src/errors.rs
index 1d7ff3b..e2680c3 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -13,6 +13,8 @@ pub enum AmqpParseError {
     InvalidFormatCode(u8),
     #[display(fmt = "Invalid value converting to char: {}", "_0")]
     InvalidChar(u32),
+    #[display(fmt = "Timestamp is out of range: {}", "_0")]
+    InvalidTimestamp(i64),
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From e84fdecb3f1f37eb94bce5cc7b9b9a3433fc6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 09/20] fix: accept the ulong0 encoding of a numeric descriptor

---
 src/codec/decode.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 445bec5..518ecca 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -453,6 +453,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
         match fmt {
+            codec::FORMATCODE_ULONG_0 => Ok((input, Descriptor::Ulong(0))),
             codec::FORMATCODE_SMALLULONG => {
                 u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))
             }
-- 
2.43.0


From eb052d28b5951b09416487d8f7fe8c39b16d8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 10/20] fix: stop endless recursion when comparing owned and
 static strings

---
 src/types/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index e6a45e8..82c24d5 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -142,10 +142,11 @@ impl PartialEq<Str> for Str {
         match self {
             Str::ByteStr(s) => match other {
                 Str::ByteStr(o) => s == o,
-                Str::Static(o) => s == *o,
+                // compare as `str`, `string::String::eq(&str)` recurses endlessly
+                Str::Static(o) => **s == **o,
             },
             Str::Static(s) => match other {
-                Str::ByteStr(o) => o == *s,
+                Str::ByteStr(o) => **o == **s,
                 Str::Static(o) => s == o,
             },
         }
-- 
2.43.0


From 704b1b8dfb96991f913268b46b4ad3a09cd9d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 11/20] fix: order Str by content, consistently with Eq and
 Borrow<str>

---
 src/types/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 82c24d5..351ec32 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -70,7 +70,7 @@ impl List {
     }
 }
 
-#[derive(Clone, Eq, Ord, PartialOrd)]
+#[derive(Clone, Eq)]
 pub enum Str {
     ByteStr(String<Bytes>),
     Static(&'static str),
@@ -137,6 +137,18 @@ impl borrow::Borrow<str> for Str {
     }
 }
 
+impl Ord for Str {
+    fn cmp(&self, other: &Str) -> std::cmp::Ordering {
+        self.as_str().cmp(other.as_str())
+    }
+}
+
+impl PartialOrd for Str {
+    fn partial_cmp(&self, other: &Str) -> Option<std::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl PartialEq<Str> for Str {
     fn eq(&self, other: &Str) -> bool {
         match self {
-- 
2.43.0


From ee9a24233467af526f548bc76749098806b5ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 12/20] fix: make maps hashable so that they can be used as map
 keys

---
 src/types/variant.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/variant.rs b/src/types/variant.rs
index 6fd0f29..862afc7 100644
--- a/src/types/variant.rs
+++ b/src/types/variant.rs
@@ -136,8 +136,9 @@ impl VariantMap {
 }
 
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // iteration order is arbitrary, equal maps have the same number of entries
+        self.map.len().hash(state)
     }
 }
 
-- 
2.43.0


From 5b5427e17c69c0d3e75c98e02e8221d70e66ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 13/20] fix: drop the cached message size when the body value
 is replaced

---
 src/message/inmessage.rs  | 1 +
 src/message/outmessage.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 34b66b2..a5418e2 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -132,6 +132,7 @@ impl InMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4e9e6fc..f926d23 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -124,6 +124,7 @@ impl OutMessage {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(mut self, v: V) -> Self {
         self.body.value = Some(v.into());
+        self.size.set(0);
         self
     }
 
-- 
2.43.0


From 072158c460f2ddf756bd6383ce5764505169104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 14/20] fix: count the header section prefix once in the
 message size

---
 src/message/inmessage.rs  | 2 +-
 src/message/outmessage.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index a5418e2..55596df 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -217,7 +217,7 @@ impl Encode for InMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index f926d23..10b501f 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -209,7 +209,7 @@ impl Encode for OutMessage {
         };
 
         if let Some(ref h) = self.header {
-            size += h.encoded_size() + SECTION_PREFIX_LENGTH;
+            size += h.encoded_size();
         }
         if let Some(ref da) = self.delivery_annotations {
             size += da.encoded_size() + SECTION_PREFIX_LENGTH;
-- 
2.43.0


From 9d72494d024435a8df63e9ca765aee9cb0582f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:59 +0000
Subject: [PATCH 15/20] fix: return an empty remainder after decoding a whole
 message

---
 src/message/inmessage.rs  | 4 ++--
 src/message/outmessage.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index 55596df..e3f2be7 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -191,10 +191,10 @@ impl Decode for InMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 10b501f..4d3a43e 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -183,10 +183,10 @@ impl Decode for OutMessage {
                     message.body.data.push(val);
                 }
             }
-            if buf.is_empty() {
+            input = buf;
+            if input.is_empty() {
                 break;
             }
-            input = buf;
         }
         Ok((input, message))
     }
-- 
2.43.0


From d68f2e9111be83dee8e937c9bfaedd9217732545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 16/20] fix: ignore the size cache when comparing messages

---
 src/message/inmessage.rs  | 16 +++++++++++++++-
 src/message/outmessage.rs | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/message/inmessage.rs b/src/message/inmessage.rs
index e3f2be7..8f02561 100644
--- a/src/message/inmessage.rs
+++ b/src/message/inmessage.rs
@@ -14,7 +14,7 @@ use super::body::MessageBody;
 use super::outmessage::OutMessage;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct InMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -154,6 +154,20 @@ impl InMessage {
     }
 }
 
+impl PartialEq for InMessage {
+    // `size` is a cache and not part of the message
+    fn eq(&self, other: &Self) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl Decode for InMessage {
     fn decode(mut input: &[u8]) -> Result<(&[u8], InMessage), AmqpParseError> {
         let mut message = InMessage::default();
diff --git a/src/message/outmessage.rs b/src/message/outmessage.rs
index 4d3a43e..40169e2 100644
--- a/src/message/outmessage.rs
+++ b/src/message/outmessage.rs
@@ -10,7 +10,7 @@ use crate::types::{Descriptor, Str, Variant, VecVariantMap};
 use super::body::MessageBody;
 use super::SECTION_PREFIX_LENGTH;
 
-#[derive(Debug, Clone, Default, PartialEq)]
+#[derive(Debug, Clone, Default)]
 pub struct OutMessage {
     pub message_format: Option<MessageFormat>,
     header: Option<Header>,
@@ -146,6 +146,20 @@ impl OutMessage {
     }
 }
 
+impl PartialEq for OutMessage {
+    // `size` is a cache and not part of the message
+    fn eq(&self, other: &Self) -> bool {
+        self.message_format == other.message_format
+            && self.header == other.header
+            && self.delivery_annotations == other.delivery_annotations
+            && self.message_annotations == other.message_annotations
+            && self.properties == other.properties
+            && self.application_properties == other.application_properties
+            && self.footer == other.footer
+            && self.body == other.body
+    }
+}
+
 impl Decode for OutMessage {
     fn decode(mut input: &[u8]) -> Result<(&[u8], OutMessage), AmqpParseError> {
         let mut message = OutMessage::default();
-- 
2.43.0


From e094180dfc4d679afedf79d212174f71026bb336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 17/20] fix: reject frames smaller than the frame header

---
 src/io.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index aeeaa70..3f27ab3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -3,7 +3,7 @@ use std::marker::PhantomData;
 use bytes::{BigEndian, BufMut, ByteOrder, BytesMut};
 use tokio_io::codec::{Decoder, Encoder};
 
-use super::errors::{AmqpCodecError, ProtocolIdError};
+use super::errors::{AmqpCodecError, AmqpParseError, ProtocolIdError};
 use super::framing::HEADER_LEN;
 use crate::codec::{Decode, Encode};
 use crate::protocol::ProtocolId;
@@ -51,6 +51,11 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                     }
                     let size = BigEndian::read_u32(src.as_ref()) as usize;
 
+                    // size includes the frame header
+                    if size < HEADER_LEN {
+                        return Err(AmqpParseError::InvalidSize.into());
+                    }
+
                     // todo: max frame size check
                     self.state = DecodeState::Frame(size - 4);
                     src.split_to(4);
-- 
2.43.0


From c56f91f048b0507d91b15a7fb5c22d83349bb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:00 +0000
Subject: [PATCH 18/20] fix: continue with the next frame header after a
 malformed frame

---
 src/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 3f27ab3..e4c1a90 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -73,13 +73,14 @@ impl<T: Decode + Encode> Decoder for AmqpCodec<T> {
                         return Ok(None);
                     }
 
+                    // frame bytes are consumed even if the frame is malformed
+                    self.state = DecodeState::FrameHeader;
                     let frame_buf = src.split_to(size);
                     let (remainder, frame) = T::decode(frame_buf.as_ref())?;
                     if !remainder.is_empty() {
                         // todo: could it really happen?
                         return Err(AmqpCodecError::UnparsedBytesLeft);
                     }
-                    self.state = DecodeState::FrameHeader;
                     return Ok(Some(frame));
                 }
             }
-- 
2.43.0


From 08c35a46862bb4726442172f2bc346a4ac9d557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 19/20] fix: limit the nesting of dynamic values so that input
 cannot exhaust the stack

---
 src/codec/decode.rs | 30 ++++++++++++++++++++++++++++++
 src/errors.rs       |  2 ++
 2 files changed, 32 insertions(+)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 518ecca..8e8f5c2 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::hash::{BuildHasher, Hash};
 use std::{char, str, u8};
 
@@ -338,8 +339,37 @@ impl DecodeFormatted for List {
     }
 }
 
+/// Decoding a `Variant` recurses once per level of nesting. The depth is chosen by the peer, so
+/// it has to be limited to keep it from exhausting the stack.
+const MAX_NESTING_DEPTH: usize = 128;
+
+thread_local! {
+    static NESTING_DEPTH: Cell<usize> = Cell::new(0);
+}
+
+struct NestingLevel;
+
+impl NestingLevel {
+    fn enter() -> Result<NestingLevel, AmqpParseError> {
+        NESTING_DEPTH.with(|depth| {
+            if depth.get() >= MAX_NESTING_DEPTH {
+                return Err(AmqpParseError::NestingTooDeep);
+            }
+            depth.set(depth.get() + 1);
+            Ok(NestingLevel)
+        })
+    }
+}
+
+impl Drop for NestingLevel {
+    fn drop(&mut self) {
+        NESTING_DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &[u8], fmt: u8) -> Result<(&[u8], Self), AmqpParseError> {
+        let _level = NestingLevel::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok((input, Variant::Null)),
             codec::FORMATCODE_BOOLEAN => {
diff --git a/src/errors.rs b/src/errors.rs
index e2680c3..603c4aa 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -15,6 +15,8 @@ pub enum AmqpParseError {
     InvalidChar(u32),
     #[display(fmt = "Timestamp is out of range: {}", "_0")]
     InvalidTimestamp(i64),
+    #[display(fmt = "Values are nested too deeply")]
+    NestingTooDeep,
     #[display(fmt = "Unexpected descriptor: '{:?}'", "_0")]
     InvalidDescriptor(Descriptor),
     #[display(fmt = "Unexpected frame type: '{:?}'", "_0")]
-- 
2.43.0


From 96199826ce538f7b466f28f40fef03978ab76812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 20/20] fix: reserve space for few elements at each level of
 announced counts

---
 src/codec/decode.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/codec/decode.rs b/src/codec/decode.rs
index 8e8f5c2..0925976 100644
--- a/src/codec/decode.rs
+++ b/src/codec/decode.rs
@@ -51,6 +51,13 @@ fn read_bytes_u32(input: &[u8]) -> Result<(&[u8], &[u8]), AmqpParseError> {
     Ok((input, bytes))
 }
 
+/// Number of elements to reserve space for. The announced count is chosen by the peer, at each
+/// level of a nested value, so collections start small and grow with the elements actually read.
+fn reserve_count(input: &[u8], count: u32) -> usize {
+    const MAX_RESERVED: usize = 8;
+    MAX_RESERVED.min(input.len()).min(count as usize)
+}
+
 #[macro_export]
 macro_rules! validate_code {
     ($fmt:ident, $code:expr) => {
@@ -259,7 +266,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
         let mut map: HashMap<K, V, S> =
-            HashMap::with_capacity_and_hasher(map_input.len().min(count as usize), Default::default());
+            HashMap::with_capacity_and_hasher(reserve_count(map_input, count), Default::default());
         for _ in 0..count {
             let (input1, key) = K::decode(map_input)?;
             let (input2, value) = V::decode(input1)?;
@@ -280,7 +287,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
         decode_check_len!(input, 1);
         let item_fmt = input[0]; // todo: support descriptor
         let mut input = &input[1..];
-        let mut result: Vec<T> = Vec::with_capacity(input.len().min(header.count as usize));
+        let mut result: Vec<T> = Vec::with_capacity(reserve_count(input, header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = T::decode_with_format(input, item_fmt)?;
             result.push(decoded);
@@ -296,7 +303,7 @@ impl DecodeFormatted for VecVariantMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = &input[..header.size as usize];
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(map_input.len().min(count as usize));
+        let mut map = Vec::with_capacity(reserve_count(map_input, count));
         for _ in 0..count {
             let (input1, key) = Str::decode(map_input)?;
             let (input2, value) = Variant::decode(input1)?;
@@ -329,7 +336,7 @@ impl DecodeFormatted for List {
         let size = header.size as usize;
         decode_check_len!(input, size);
         let (mut input, remainder) = input.split_at(size);
-        let mut result: Vec<Variant> = Vec::with_capacity(input.len().min(header.count as usize));
+        let mut result: Vec<Variant> = Vec::with_capacity(reserve_count(input, header.count));
         for _ in 0..header.count {
             let (new_input, decoded) = Variant::decode(input)?;
             result.push(decoded);
-- 
2.43.0

