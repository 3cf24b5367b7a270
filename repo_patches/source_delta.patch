From dc0c346208d89aaa42925a202dc55e0306c2a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 1/9] fix: count the size varint in the async write_map_begin

---
 src/thrift/protocol/compact_stream_write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index d842eee..8479d56 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -244,7 +244,8 @@ where
         if identifier.size == 0 {
             self.write_byte(0).await
         } else {
-            self.transport.write_varint_async(identifier.size).await?;
+            let mut written = 0;
+            written += self.transport.write_varint_async(identifier.size).await?;
 
             let key_type = identifier
                 .key_type
@@ -257,7 +258,8 @@ where
             let val_type_byte = collection_type_to_u8(val_type);
 
             let map_type_header = key_type_byte | val_type_byte;
-            self.write_byte(map_type_header).await
+            written += self.write_byte(map_type_header).await?;
+            Ok(written)
         }
     }
 
-- 
2.43.0


From 98c835277848d851cf897fa70185790f04bed114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 2/9] fix: write single bytes with write_all so that none is
 silently lost

---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index 8479d56..cb1e8d4 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -275,6 +275,7 @@ where
     //
 
     async fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).await.map_err(From::from)
+        self.transport.write_all(&[b]).await?;
+        Ok(1)
     }
 }
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index 906d579..f8330e1 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -244,7 +244,8 @@ where
     //
 
     fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).map_err(From::from)
+        self.transport.write_all(&[b])?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 74512c611859d54ab90eb0155a1e3d5857f86eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 3/9] fix: charge nested structs to the budget in the async
 reader too

---
 src/thrift/protocol/compact_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 25e26be..f5f8afb 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -123,6 +123,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
+        self.update_remaining::<i16>(1)?;
         self.read_field_id_stack.push(self.last_read_field_id);
         self.last_read_field_id = 0;
         Ok(None)
-- 
2.43.0


From 88cfd99810d1abc3106e88a53250f3dba6fe5523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:43 +0000
Subject: [PATCH 4/9] fix: report binaries and strings cut short by the end of
 input

---
 src/thrift/protocol/compact.rs        | 3 +++
 src/thrift/protocol/compact_stream.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index ec6b329..29c88c4 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -223,6 +223,9 @@ where
             .by_ref()
             .take(len.try_into()?)
             .read_to_end(&mut buf)?;
+        if buf.len() != usize::try_from(len)? {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index f5f8afb..eb79eb4 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -217,6 +217,9 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
             .take(len.try_into()?)
             .read_to_end(&mut buf)
             .await?;
+        if buf.len() != usize::try_from(len)? {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
-- 
2.43.0


From a85d9dd38b6bc1a44fd0bb574a5e54bd159fef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 5/9] fix: return an error instead of aborting when a list
 cannot be allocated

---
 src/thrift/protocol/mod.rs    | 3 ++-
 src/thrift/protocol/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 168aedd..f449894 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -211,7 +211,8 @@ pub trait TInputProtocol: Sized {
 
     fn read_list<P: ReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin()?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::read_from_in_protocol(self)?);
         }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ee04bd2..6bd3ca4 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -118,7 +118,8 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     async fn read_list<P: AsyncReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin().await?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::stream_from_in_protocol(self).await?);
         }
-- 
2.43.0


From 458e45957b0b0d51b039d8026087ead558d89992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 6/9] fix: treat a negative skip depth as exhausted instead of
 overflowing

---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index f449894..fdd9fb1 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -148,7 +148,7 @@ pub trait TInputProtocol: Sized {
     }
     /// Skip a field with type `field_type` recursively up to `depth` levels.
     fn skip_till_depth(&mut self, field_type: TType, depth: i8) -> crate::thrift::Result<()> {
-        if depth == 0 {
+        if depth <= 0 {
             return Err(crate::thrift::Error::Protocol(ProtocolError {
                 kind: ProtocolErrorKind::DepthLimit,
                 message: format!("cannot parse past {:?}", field_type),
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index 6bd3ca4..524b40f 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -135,7 +135,7 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     /// Skip a field with type `field_type` recursively up to `depth` levels.
     async fn skip_till_depth(&mut self, field_type: TType, depth: i8) -> Result<()> {
-        if depth == 0 {
+        if depth <= 0 {
             return Err(Error::Protocol(ProtocolError {
                 kind: ProtocolErrorKind::DepthLimit,
                 message: format!("cannot parse past {:?}", field_type),
-- 
2.43.0


From c2b23fe17aa5ffaedc122bfd9c5d57b7f886f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 7/9] fix: do not overflow when computing the delta of distant
 field ids

---
 src/thrift/protocol/compact_stream_write.rs | 2 +-
 src/thrift/protocol/compact_write.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index cb1e8d4..8f983c7 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -51,7 +51,7 @@ where
     async fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self
                 .write_byte(((field_delta as u8) << 4) | field_type)
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index f8330e1..5e8a8ad 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -45,7 +45,7 @@ where
     fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        let field_delta = i32::from(field_id) - i32::from(self.last_write_field_id);
         if field_delta > 0 && field_delta < 15 {
             written += self.write_byte(((field_delta as u8) << 4) | field_type)?;
         } else {
-- 
2.43.0


From 663cc5d1e1954a719ac2e960980b5cfc51df0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:44 +0000
Subject: [PATCH 8/9] fix: do not overflow the field count of a union

---
 src/parquet_format.rs | 160 +++++++++++++++++++++---------------------
 1 file changed, 80 insertions(+), 80 deletions(-)

diff --git a/src/parquet_format.rs b/src/parquet_format.rs
index 13c3cfb..cf44118 100644
--- a/src/parquet_format.rs
+++ b/src/parquet_format.rs
@@ -1988,7 +1988,7 @@ impl TimeUnit {
 impl ReadThrift for TimeUnit {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<TimeUnit> {
     let mut ret: Option<TimeUnit> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -2002,25 +2002,25 @@ impl ReadThrift for TimeUnit {
           if ret.is_none() {
             ret = Some(TimeUnit::MILLIS(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = MicroSeconds::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(TimeUnit::MICROS(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         3 => {
           let val = NanoSeconds::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(TimeUnit::NANOS(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -2060,7 +2060,7 @@ impl ReadThrift for TimeUnit {
 impl AsyncReadThrift for TimeUnit {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<TimeUnit> {
     let mut ret: Option<TimeUnit> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -2074,25 +2074,25 @@ impl AsyncReadThrift for TimeUnit {
           if ret.is_none() {
             ret = Some(TimeUnit::MILLIS(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = MicroSeconds::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(TimeUnit::MICROS(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         3 => {
           let val = NanoSeconds::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(TimeUnit::NANOS(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -2890,7 +2890,7 @@ impl LogicalType {
 impl ReadThrift for LogicalType {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<LogicalType> {
     let mut ret: Option<LogicalType> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -2904,95 +2904,95 @@ impl ReadThrift for LogicalType {
           if ret.is_none() {
             ret = Some(LogicalType::STRING(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = MapType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::MAP(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         3 => {
           let val = ListType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::LIST(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         4 => {
           let val = EnumType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::ENUM(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         5 => {
           let val = DecimalType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::DECIMAL(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         6 => {
           let val = DateType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::DATE(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         7 => {
           let val = TimeType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::TIME(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         8 => {
           let val = TimestampType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::TIMESTAMP(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         10 => {
           let val = IntType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::INTEGER(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         11 => {
           let val = NullType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::UNKNOWN(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         12 => {
           let val = JsonType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::JSON(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         13 => {
           let val = BsonType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::BSON(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         14 => {
           let val = UUIDType::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(LogicalType::UUID(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -3032,7 +3032,7 @@ impl ReadThrift for LogicalType {
 impl AsyncReadThrift for LogicalType {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<LogicalType> {
     let mut ret: Option<LogicalType> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -3046,95 +3046,95 @@ impl AsyncReadThrift for LogicalType {
           if ret.is_none() {
             ret = Some(LogicalType::STRING(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = MapType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::MAP(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         3 => {
           let val = ListType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::LIST(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         4 => {
           let val = EnumType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::ENUM(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         5 => {
           let val = DecimalType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::DECIMAL(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         6 => {
           let val = DateType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::DATE(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         7 => {
           let val = TimeType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::TIME(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         8 => {
           let val = TimestampType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::TIMESTAMP(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         10 => {
           let val = IntType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::INTEGER(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         11 => {
           let val = NullType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::UNKNOWN(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         12 => {
           let val = JsonType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::JSON(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         13 => {
           let val = BsonType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::BSON(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         14 => {
           let val = UUIDType::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(LogicalType::UUID(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -4400,7 +4400,7 @@ impl BloomFilterAlgorithm {
 impl ReadThrift for BloomFilterAlgorithm {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterAlgorithm> {
     let mut ret: Option<BloomFilterAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -4414,11 +4414,11 @@ impl ReadThrift for BloomFilterAlgorithm {
           if ret.is_none() {
             ret = Some(BloomFilterAlgorithm::BLOCK(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -4458,7 +4458,7 @@ impl ReadThrift for BloomFilterAlgorithm {
 impl AsyncReadThrift for BloomFilterAlgorithm {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterAlgorithm> {
     let mut ret: Option<BloomFilterAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -4472,11 +4472,11 @@ impl AsyncReadThrift for BloomFilterAlgorithm {
           if ret.is_none() {
             ret = Some(BloomFilterAlgorithm::BLOCK(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -4647,7 +4647,7 @@ impl BloomFilterHash {
 impl ReadThrift for BloomFilterHash {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterHash> {
     let mut ret: Option<BloomFilterHash> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -4661,11 +4661,11 @@ impl ReadThrift for BloomFilterHash {
           if ret.is_none() {
             ret = Some(BloomFilterHash::XXHASH(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -4705,7 +4705,7 @@ impl ReadThrift for BloomFilterHash {
 impl AsyncReadThrift for BloomFilterHash {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterHash> {
     let mut ret: Option<BloomFilterHash> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -4719,11 +4719,11 @@ impl AsyncReadThrift for BloomFilterHash {
           if ret.is_none() {
             ret = Some(BloomFilterHash::XXHASH(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -4893,7 +4893,7 @@ impl BloomFilterCompression {
 impl ReadThrift for BloomFilterCompression {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterCompression> {
     let mut ret: Option<BloomFilterCompression> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -4907,11 +4907,11 @@ impl ReadThrift for BloomFilterCompression {
           if ret.is_none() {
             ret = Some(BloomFilterCompression::UNCOMPRESSED(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -4951,7 +4951,7 @@ impl ReadThrift for BloomFilterCompression {
 impl AsyncReadThrift for BloomFilterCompression {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<BloomFilterCompression> {
     let mut ret: Option<BloomFilterCompression> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -4965,11 +4965,11 @@ impl AsyncReadThrift for BloomFilterCompression {
           if ret.is_none() {
             ret = Some(BloomFilterCompression::UNCOMPRESSED(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -6703,7 +6703,7 @@ impl ColumnCryptoMetaData {
 impl ReadThrift for ColumnCryptoMetaData {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<ColumnCryptoMetaData> {
     let mut ret: Option<ColumnCryptoMetaData> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -6717,18 +6717,18 @@ impl ReadThrift for ColumnCryptoMetaData {
           if ret.is_none() {
             ret = Some(ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = EncryptionWithColumnKey::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(ColumnCryptoMetaData::ENCRYPTIONWITHCOLUMNKEY(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -6768,7 +6768,7 @@ impl ReadThrift for ColumnCryptoMetaData {
 impl AsyncReadThrift for ColumnCryptoMetaData {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<ColumnCryptoMetaData> {
     let mut ret: Option<ColumnCryptoMetaData> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -6782,18 +6782,18 @@ impl AsyncReadThrift for ColumnCryptoMetaData {
           if ret.is_none() {
             ret = Some(ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = EncryptionWithColumnKey::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(ColumnCryptoMetaData::ENCRYPTIONWITHCOLUMNKEY(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -7560,7 +7560,7 @@ impl ColumnOrder {
 impl ReadThrift for ColumnOrder {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<ColumnOrder> {
     let mut ret: Option<ColumnOrder> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -7574,11 +7574,11 @@ impl ReadThrift for ColumnOrder {
           if ret.is_none() {
             ret = Some(ColumnOrder::TYPEORDER(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -7618,7 +7618,7 @@ impl ReadThrift for ColumnOrder {
 impl AsyncReadThrift for ColumnOrder {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<ColumnOrder> {
     let mut ret: Option<ColumnOrder> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -7632,11 +7632,11 @@ impl AsyncReadThrift for ColumnOrder {
           if ret.is_none() {
             ret = Some(ColumnOrder::TYPEORDER(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
@@ -8605,7 +8605,7 @@ impl EncryptionAlgorithm {
 impl ReadThrift for EncryptionAlgorithm {
   fn read_from_in_protocol<T: TInputProtocol>(i_prot: &mut T) -> thrift::Result<EncryptionAlgorithm> {
     let mut ret: Option<EncryptionAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin()?;
     loop {
       let field_ident = i_prot.read_field_begin()?;
@@ -8619,18 +8619,18 @@ impl ReadThrift for EncryptionAlgorithm {
           if ret.is_none() {
             ret = Some(EncryptionAlgorithm::AESGCMV1(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = AesGcmCtrV1::read_from_in_protocol(i_prot)?;
           if ret.is_none() {
             ret = Some(EncryptionAlgorithm::AESGCMCTRV1(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type)?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end()?;
@@ -8670,7 +8670,7 @@ impl ReadThrift for EncryptionAlgorithm {
 impl AsyncReadThrift for EncryptionAlgorithm {
   async fn stream_from_in_protocol<T: TInputStreamProtocol>(i_prot: &mut T) -> thrift::Result<EncryptionAlgorithm> {
     let mut ret: Option<EncryptionAlgorithm> = None;
-    let mut received_field_count = 0;
+    let mut received_field_count: u32 = 0;
     i_prot.read_struct_begin().await?;
     loop {
       let field_ident = i_prot.read_field_begin().await?;
@@ -8684,18 +8684,18 @@ impl AsyncReadThrift for EncryptionAlgorithm {
           if ret.is_none() {
             ret = Some(EncryptionAlgorithm::AESGCMV1(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         2 => {
           let val = AesGcmCtrV1::stream_from_in_protocol(i_prot).await?;
           if ret.is_none() {
             ret = Some(EncryptionAlgorithm::AESGCMCTRV1(val));
           }
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
         _ => {
           i_prot.skip(field_ident.field_type).await?;
-          received_field_count += 1;
+          received_field_count = received_field_count.saturating_add(1);
         },
       };
       i_prot.read_field_end().await?;
-- 
2.43.0


From 997caf4ef237324d179afc8926b2804453e26ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 9/9] fix: skip unknown binary fields that are not valid UTF-8

The wire type of strings and binaries is the same, so an unknown binary
field made the whole read fail with a UTF-8 error.
---
 src/thrift/protocol/mod.rs    | 2 +-
 src/thrift/protocol/stream.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index fdd9fb1..7574f52 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -162,7 +162,7 @@ pub trait TInputProtocol: Sized {
             TType::I32 => self.read_i32().map(|_| ()),
             TType::I64 => self.read_i64().map(|_| ()),
             TType::Double => self.read_double().map(|_| ()),
-            TType::String => self.read_string().map(|_| ()),
+            TType::String => self.read_bytes().map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin()?;
                 loop {
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index 524b40f..97aac66 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -149,7 +149,7 @@ pub trait TInputStreamProtocol: Send + Sized {
             TType::I32 => self.read_i32().await.map(|_| ()),
             TType::I64 => self.read_i64().await.map(|_| ()),
             TType::Double => self.read_double().await.map(|_| ()),
-            TType::String => self.read_string().await.map(|_| ()),
+            TType::String => self.read_bytes().await.map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin().await?;
                 loop {
-- 
2.43.0

