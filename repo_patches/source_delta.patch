From 612ed8de96c7af46a4a734c8beb29224cddf1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 01/36] fix: flush the stream after writing a packet

Over a transport that buffers written bytes until it is flushed, commands and
login packets never reached the server and every exchange timed out.
---
 src/connection/io.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 986ab5b..839a0f0 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -135,6 +135,13 @@ impl Connection {
             .await??;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
+
+        Timeout::new(
+            self.stream.flush(),
+            self.data.sleep,
+            self.options.timeout(),
+        )
+        .await??;
         Ok(())
     }
 
-- 
2.43.0


From 4c099cae1884495c76e5d4378aa363165446ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 02/36] fix: read EOF packets correctly

The header byte of EOF packets was parsed as part of their content, so the
status and warnings of every result set were wrong, and servers without
CLIENT_DEPRECATE_EOF, which send the old EOF packet also after column
definitions, were not understood at all.
---
 src/connection/packets/ok.rs         | 24 ++++++++++++++++++++++++
 src/connection/prepared_statement.rs |  9 +++++++--
 src/connection/query.rs              | 15 +++++++++++++++
 src/connection/result_set.rs         |  4 ++--
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/connection/packets/ok.rs b/src/connection/packets/ok.rs
index 087b086..6dea504 100644
--- a/src/connection/packets/ok.rs
+++ b/src/connection/packets/ok.rs
@@ -78,11 +78,29 @@ impl OkPacket {
         })
     }
 
+    /// Reads the packet that ends a result set.
+    pub fn read_end(
+        packet: PoolItem<'_, Vec<u8>>,
+        capabilities: CapabilityFlags,
+    ) -> Result<Self, ProtocolError> {
+        if capabilities.contains(CapabilityFlags::DEPRECATE_EOF) {
+            Self::read_eof(packet, capabilities)
+        } else {
+            Self::read_old_eof(packet, capabilities)
+        }
+    }
+
     pub fn read_eof(
         packet: PoolItem<'_, Vec<u8>>,
         capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        if buf.checked_eat_u8()? != 0xFE {
+            return Err(ProtocolError::unexpected_packet(
+                buf.0.to_vec(),
+                Some("Eof Packet"),
+            ));
+        }
         // We need to skip affected_rows and insert_id here
         // because valid content of EOF packet includes
         // packet marker, server status and warning count only.
@@ -120,6 +138,12 @@ impl OkPacket {
         _capabilities: CapabilityFlags,
     ) -> Result<Self, ProtocolError> {
         let mut buf = ParseBuf(&packet);
+        if buf.checked_eat_u8()? != 0xFE {
+            return Err(ProtocolError::unexpected_packet(
+                buf.0.to_vec(),
+                Some("Eof Packet"),
+            ));
+        }
         // We assume that CLIENT_PROTOCOL_41 was set
         let warnings = buf.checked_eat_u16()?;
         let status = StatusFlags::from_bits_truncate(buf.checked_eat_u16()?);
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index ef018c7..4abd248 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -55,8 +55,13 @@ impl Connection {
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
 
-        for _ in 0..(stmt.params_len as usize + stmt.columns_len as usize) {
-            self.read_packet().await?;
+        for count in [stmt.params_len, stmt.columns_len] {
+            for _ in 0..count {
+                self.read_packet().await?;
+            }
+            if count > 0 {
+                self.read_definitions_end().await?;
+            }
         }
 
         Ok(PreparedStatement {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 92fb477..d46747a 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -4,6 +4,7 @@ use {
         Command, Connection, ParseBuf, ResultSet, BUFFER_POOL,
     },
     crate::{
+        bitflags::CapabilityFlags,
         model::FromQueryResult,
         packets::{ColumnDef, OkPacket},
         types::Value,
@@ -45,9 +46,23 @@ impl Connection {
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
             columns.push(def.try_into()?);
         }
+        self.read_definitions_end().await?;
         Ok(columns)
     }
 
+    /// Reads the EOF packet that follows definitions unless the server agreed to omit it.
+    pub(super) async fn read_definitions_end(&mut self) -> Result<(), Error> {
+        if !self
+            .data
+            .capabilities
+            .contains(CapabilityFlags::DEPRECATE_EOF)
+        {
+            let packet = self.read_packet().await?;
+            OkPacket::read_old_eof(packet, self.data.capabilities)?;
+        }
+        Ok(())
+    }
+
     pub(super) async fn read_settings(&mut self) -> Result<(), Error> {
         if self.options.max_allowed_packet().is_none() {
             let mut res = self
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 76951a4..8694859 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -79,7 +79,7 @@ where
             packet[0] == 0xFE && packet.len() < 8
         };
         if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_eof(packet, self.conn.data.capabilities)?);
+            self.ok_packet = Some(OkPacket::read_end(packet, self.conn.data.capabilities)?);
             self.conn.pending_result = false;
             Ok(None)
         } else {
@@ -161,7 +161,7 @@ impl Connection {
                 };
                 if is_last_result_set_packet {
                     self.pending_result = false;
-                    return Ok(Some(OkPacket::read_eof(packet, self.data.capabilities)?));
+                    return Ok(Some(OkPacket::read_end(packet, self.data.capabilities)?));
                 }
             }
         } else {
-- 
2.43.0


From c59034e60160a6a1e2de435ee2930671fa3214ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 03/36] fix: read column metadata as length encoded strings

Names of 251 bytes or more made the column definition unreadable.
---
 src/connection/packets/column_def.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/connection/packets/column_def.rs b/src/connection/packets/column_def.rs
index 26846b5..01fa44a 100644
--- a/src/connection/packets/column_def.rs
+++ b/src/connection/packets/column_def.rs
@@ -23,17 +23,17 @@ impl<'de> Deserialize<'de> for ColumnDef<'de> {
     type Ctx = ();
 
     fn deserialize(buf: &mut ParseBuf<'de>, _ctx: Self::Ctx) -> Result<Self, ProtocolError> {
-        if buf.checked_eat_u8_slice()? != b"def" {
+        if buf.checked_eat_lenenc_slice()? != b"def" {
             return Err(ProtocolError::unexpected_packet(
                 buf.0.to_vec(),
                 Some("Column Definition"),
             ));
         }
-        let db = buf.checked_eat_u8_str()?;
-        let table = buf.checked_eat_u8_str()?;
-        let org_table = buf.checked_eat_u8_str()?;
-        let name = buf.checked_eat_u8_str()?;
-        let org_name = buf.checked_eat_u8_str()?;
+        let db = buf.checked_eat_lenenc_str()?;
+        let table = buf.checked_eat_lenenc_str()?;
+        let org_table = buf.checked_eat_lenenc_str()?;
+        let name = buf.checked_eat_lenenc_str()?;
+        let org_name = buf.checked_eat_lenenc_str()?;
         buf.check_len(13)?;
         if buf.eat_u8() != 12 {
             return Err(ProtocolError::eof());
-- 
2.43.0


From f58edf8b204416373d2a29dfe2c80b858f5c4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 04/36] fix: report a server error that ends a result set

An ERR packet after the first rows was parsed as a row, and skipping an
abandoned result set waited for more packets after it. Also an empty packet
in place of a row made the client panic, and one() kept reading after an error.
---
 src/connection/io.rs         |  2 +-
 src/connection/query.rs      |  2 +-
 src/connection/result_set.rs | 96 ++++++++++++++++++++++--------------
 3 files changed, 60 insertions(+), 40 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index 839a0f0..74e4716 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -152,7 +152,7 @@ impl Connection {
     }
 
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
-        self.cleanup().await?;
+        self.discard_pending().await?;
         self.seq_id = 0;
         self.write_struct(cmd).await
     }
diff --git a/src/connection/query.rs b/src/connection/query.rs
index d46747a..9cc2852 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -34,7 +34,7 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.cleanup().await?;
+        self.discard_pending().await?;
         self.seq_id = 0;
         self.write_packet(&buf).await
     }
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 8694859..f92d03f 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -5,8 +5,10 @@ use {
     },
     crate::{
         bitflags::CapabilityFlags,
+        error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
+        pool::PoolItem,
         Deserialize, Error, ParseBuf,
     },
     std::marker::PhantomData,
@@ -67,24 +69,19 @@ where
         if self.ok_packet.is_some() {
             return Ok(None);
         }
-        let packet = self.conn.read_packet().await?;
-        let is_last_result_set_packet = if self
-            .conn
-            .data
-            .capabilities
-            .contains(CapabilityFlags::DEPRECATE_EOF)
-        {
-            packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-        } else {
-            packet[0] == 0xFE && packet.len() < 8
-        };
-        if is_last_result_set_packet {
-            self.ok_packet = Some(OkPacket::read_end(packet, self.conn.data.capabilities)?);
-            self.conn.pending_result = false;
-            Ok(None)
-        } else {
-            let mut row = P::read_result_set_row(&packet, &self.columns)?;
-            Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+        if !self.conn.pending_result {
+            // The result set ended with an error.
+            return Err(ProtocolError::OutOfSync.into());
+        }
+        match self.conn.read_row_packet().await? {
+            RowPacket::End(ok_packet) => {
+                self.ok_packet = Some(ok_packet);
+                Ok(None)
+            }
+            RowPacket::Row(packet) => {
+                let mut row = P::read_result_set_row(&packet, &self.columns)?;
+                Ok(Some(R::from_mapping_and_row(&self.mapping, &mut row)?))
+            }
         }
     }
 
@@ -97,9 +94,9 @@ where
     }
 
     pub async fn one(&mut self) -> Result<Option<R>, Error> {
-        let res = self.next().await;
+        let res = self.next().await?;
         while self.next().await?.is_some() {}
-        res
+        Ok(res)
     }
 
     pub fn columns(&self) -> &[Column] {
@@ -145,27 +142,50 @@ where
     }
 }
 
+enum RowPacket<'b> {
+    Row(PoolItem<'b, Vec<u8>>),
+    End(OkPacket),
+}
+
 impl Connection {
+    /// Reads the next packet of the pending result set.
+    async fn read_row_packet<'b>(&mut self) -> Result<RowPacket<'b>, Error> {
+        let packet = self.read_packet().await?;
+        let capabilities = self.data.capabilities;
+        match packet.first() {
+            Some(0xFE)
+                if packet.len() < MAX_PAYLOAD_LEN
+                    && (packet.len() < 8
+                        || capabilities.contains(CapabilityFlags::DEPRECATE_EOF)) =>
+            {
+                let ok_packet = OkPacket::read_end(packet, capabilities)?;
+                self.pending_result = false;
+                Ok(RowPacket::End(ok_packet))
+            }
+            Some(0xFF) => {
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
+                self.pending_result = false;
+                Err(err.into())
+            }
+            _ => Ok(RowPacket::Row(packet)),
+        }
+    }
+
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
-        if self.pending_result {
-            loop {
-                let packet = self.read_packet().await?;
-                let is_last_result_set_packet = if self
-                    .data
-                    .capabilities
-                    .contains(CapabilityFlags::DEPRECATE_EOF)
-                {
-                    packet[0] == 0xFE && packet.len() < MAX_PAYLOAD_LEN
-                } else {
-                    packet[0] == 0xFE && packet.len() < 8
-                };
-                if is_last_result_set_packet {
-                    self.pending_result = false;
-                    return Ok(Some(OkPacket::read_end(packet, self.data.capabilities)?));
-                }
+        while self.pending_result {
+            if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
+                return Ok(Some(ok_packet));
             }
-        } else {
-            Ok(None)
+        }
+        Ok(None)
+    }
+
+    /// Discards what is left of the replies to earlier commands.
+    pub(super) async fn discard_pending(&mut self) -> Result<(), Error> {
+        match self.cleanup().await {
+            // An error that ended an abandoned result set does not concern the next command.
+            Ok(_) | Err(Error::Server(_)) => Ok(()),
+            Err(err) => Err(err),
         }
     }
 }
-- 
2.43.0


From ab1bce5690a3625667806c40687a80f2a73f6ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 05/36] fix: do not reuse a connection after an interrupted
 exchange

If a call was dropped, timed out or failed in the middle of an exchange, the
next command took what was left of the old reply as its own. Remember that an
exchange was not completed and refuse later commands.
---
 src/connection/init.rs               |  1 +
 src/connection/io.rs                 | 47 +++++++++++++++++++++++-----
 src/connection/mod.rs                |  4 +++
 src/connection/prepared_statement.rs |  7 +++--
 src/connection/query.rs              |  3 +-
 src/connection/result_set.rs         | 22 +++++++------
 6 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a023413..3f109a3 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -22,6 +22,7 @@ impl Connection {
             data,
             options,
             pending_result: false,
+            in_exchange: false,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index 74e4716..e11f412 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -26,20 +26,25 @@ impl Connection {
         V: SimpleValue + 'a,
         I: Iterator<Item = &'a V>,
     {
+        self.begin_command().await?;
         for (i, value) in params.enumerate() {
             if let Value::Bytes(bytes) = value.value() {
                 if bytes.is_empty() {
-                    self.write_command(&StmtSendLongData::new(statement_id, i as u16, &[]))
+                    self.seq_id = 0;
+                    self.write_struct(&StmtSendLongData::new(statement_id, i as u16, &[]))
                         .await?;
                 } else {
                     let chunks = bytes.chunks(MAX_PAYLOAD_LEN - 6);
                     for chunk in chunks {
-                        self.write_command(&StmtSendLongData::new(statement_id, i as u16, chunk))
+                        self.seq_id = 0;
+                        self.write_struct(&StmtSendLongData::new(statement_id, i as u16, chunk))
                             .await?;
                     }
                 }
             }
         }
+        // The server does not answer these commands.
+        self.in_exchange = false;
         Ok(())
     }
 
@@ -151,9 +156,30 @@ impl Connection {
         self.write_packet(&buf).await
     }
 
-    pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
+    /// Fails if an earlier exchange was not completed.
+    pub(super) fn check_in_sync(&self) -> Result<(), Error> {
+        if self.in_exchange {
+            Err(ProtocolError::OutOfSync.into())
+        } else {
+            Ok(())
+        }
+    }
+
+    pub(super) fn start_exchange(&mut self) -> Result<(), Error> {
+        self.check_in_sync()?;
+        self.in_exchange = true;
+        Ok(())
+    }
+
+    pub(super) async fn begin_command(&mut self) -> Result<(), Error> {
         self.discard_pending().await?;
+        self.start_exchange()?;
         self.seq_id = 0;
+        Ok(())
+    }
+
+    pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
+        self.begin_command().await?;
         self.write_struct(cmd).await
     }
 
@@ -166,11 +192,16 @@ impl Connection {
             return Err(ProtocolError::eof().into());
         }
         match packet[0] {
-            0x00 => Ok(Ok(OkPacket::read_ok(packet, capabilities)?)),
-            0xFF => Ok(Err(ErrPacket::deserialize(
-                &mut ParseBuf(packet),
-                capabilities,
-            )?)),
+            0x00 => {
+                let ok_packet = OkPacket::read_ok(packet, capabilities)?;
+                self.in_exchange = false;
+                Ok(Ok(ok_packet))
+            }
+            0xFF => {
+                let err = ErrPacket::deserialize(&mut ParseBuf(packet), capabilities)?;
+                self.in_exchange = false;
+                Ok(Err(err))
+            }
             _ => Err(
                 ProtocolError::unexpected_packet(packet.to_vec(), Some("Ok or Err Packet")).into(),
             ),
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 318a9ee..fac8ed6 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -53,6 +53,10 @@ pub struct Connection {
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
     pending_result: bool,
+    /// Whether an exchange with the server was started whose end was not reached. If it is still
+    /// set when the next one starts, an earlier call was interrupted or failed and the position
+    /// in the stream is unknown.
+    in_exchange: bool,
 }
 
 impl Connection {
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 4abd248..0326526 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -48,9 +48,9 @@ impl Connection {
         let stmt = match packet.first() {
             Some(0x00) => Stmt::deserialize(&mut ParseBuf(&packet), ())?,
             Some(0xFF) => {
-                return Err(
-                    ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?.into(),
-                )
+                let err = ErrPacket::deserialize(&mut ParseBuf(&packet), self.data.capabilities)?;
+                self.in_exchange = false;
+                return Err(err.into());
             }
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
@@ -64,6 +64,7 @@ impl Connection {
             }
         }
 
+        self.in_exchange = false;
         Ok(PreparedStatement {
             id: stmt.id,
             conn: self,
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 9cc2852..8db531d 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -34,8 +34,7 @@ impl Connection {
         let body: &mut Vec<u8> = buf.as_mut();
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
-        self.discard_pending().await?;
-        self.seq_id = 0;
+        self.begin_command().await?;
         self.write_packet(&buf).await
     }
 
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index f92d03f..b0804bc 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -34,21 +34,18 @@ where
     pub(super) async fn read(conn: &'a mut Connection) -> Result<Self, Error> {
         let packet = conn.read_packet().await?;
         match packet.first() {
-            Some(0x00) => {
+            Some(0x00 | 0xFF) => {
+                let ok_packet = conn.decode_response(&packet).await??;
                 let mut res = ResultSet::new(Vec::new(), conn);
-                res.ok_packet = Some(res.conn.decode_response(&packet).await??);
+                res.ok_packet = Some(ok_packet);
                 Ok(res)
             }
             Some(0xFB) => unimplemented!("local infile"),
-            Some(0xFF) => Err(ErrPacket::deserialize(
-                &mut ParseBuf(&packet),
-                conn.data().capabilities(),
-            )?
-            .into()),
             _ => {
-                conn.pending_result = true;
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = conn.read_column_defs(columns_len as usize).await?;
+                conn.pending_result = true;
+                conn.in_exchange = false;
                 Ok(ResultSet::new(columns, conn))
             }
         }
@@ -150,6 +147,7 @@ enum RowPacket<'b> {
 impl Connection {
     /// Reads the next packet of the pending result set.
     async fn read_row_packet<'b>(&mut self) -> Result<RowPacket<'b>, Error> {
+        self.start_exchange()?;
         let packet = self.read_packet().await?;
         let capabilities = self.data.capabilities;
         match packet.first() {
@@ -160,18 +158,24 @@ impl Connection {
             {
                 let ok_packet = OkPacket::read_end(packet, capabilities)?;
                 self.pending_result = false;
+                self.in_exchange = false;
                 Ok(RowPacket::End(ok_packet))
             }
             Some(0xFF) => {
                 let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
                 self.pending_result = false;
+                self.in_exchange = false;
                 Err(err.into())
             }
-            _ => Ok(RowPacket::Row(packet)),
+            _ => {
+                self.in_exchange = false;
+                Ok(RowPacket::Row(packet))
+            }
         }
     }
 
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
+        self.check_in_sync()?;
         while self.pending_result {
             if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
                 return Ok(Some(ok_packet));
-- 
2.43.0


From a524065c3b0563ae2743b20ec30b5bacb86d7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 06/36] fix: expect further results of a command

The MORE_RESULTS_EXISTS flag was ignored, so the results of the second and
later statements of a command, or of a called procedure, were taken for the
reply to the next command.
---
 src/connection/init.rs       |  4 +--
 src/connection/io.rs         | 24 ++++++++-----
 src/connection/mod.rs        | 12 ++++++-
 src/connection/result_set.rs | 66 +++++++++++++++++++++++-------------
 4 files changed, 71 insertions(+), 35 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 3f109a3..a8fb69b 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -1,7 +1,7 @@
 use {
     super::{
         types::AuthPlugin, Command, Connection, ConnectionData, ConnectionOptions, ParseBuf,
-        Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
+        PendingResult, Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
         packets::{HandshakePacket, HandshakeResponse},
@@ -21,7 +21,7 @@ impl Connection {
             seq_id,
             data,
             options,
-            pending_result: false,
+            pending_result: PendingResult::None,
             in_exchange: false,
         };
         this.do_handshake_response().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index e11f412..bd86ce8 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -1,9 +1,10 @@
 use {
     super::{
         packets::{ErrPacket, OkPacket},
-        Connection, ParseBuf, Serialize, BUFFER_POOL, MAX_PAYLOAD_LEN,
+        Connection, ParseBuf, PendingResult, Serialize, BUFFER_POOL, MAX_PAYLOAD_LEN,
     },
     crate::{
+        bitflags::StatusFlags,
         error::ProtocolError,
         packets::StmtSendLongData,
         pool::PoolItem,
@@ -141,12 +142,7 @@ impl Connection {
             self.seq_id = self.seq_id.wrapping_add(1);
         }
 
-        Timeout::new(
-            self.stream.flush(),
-            self.data.sleep,
-            self.options.timeout(),
-        )
-        .await??;
+        Timeout::new(self.stream.flush(), self.data.sleep, self.options.timeout()).await??;
         Ok(())
     }
 
@@ -171,6 +167,16 @@ impl Connection {
         Ok(())
     }
 
+    /// Has to be called when a result was read completely.
+    pub(super) fn end_result(&mut self, status: StatusFlags) {
+        self.pending_result = if status.contains(StatusFlags::MORE_RESULTS_EXISTS) {
+            PendingResult::Next
+        } else {
+            PendingResult::None
+        };
+        self.in_exchange = false;
+    }
+
     pub(super) async fn begin_command(&mut self) -> Result<(), Error> {
         self.discard_pending().await?;
         self.start_exchange()?;
@@ -194,12 +200,12 @@ impl Connection {
         match packet[0] {
             0x00 => {
                 let ok_packet = OkPacket::read_ok(packet, capabilities)?;
-                self.in_exchange = false;
+                self.end_result(ok_packet.status());
                 Ok(Ok(ok_packet))
             }
             0xFF => {
                 let err = ErrPacket::deserialize(&mut ParseBuf(packet), capabilities)?;
-                self.in_exchange = false;
+                self.end_result(StatusFlags::empty());
                 Ok(Err(err))
             }
             _ => Err(
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index fac8ed6..29debd2 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -52,13 +52,23 @@ pub struct Connection {
     seq_id: u8,
     data: ConnectionData,
     options: Arc<dyn ConnectionOptionsTrait>,
-    pending_result: bool,
+    pending_result: PendingResult,
     /// Whether an exchange with the server was started whose end was not reached. If it is still
     /// set when the next one starts, an earlier call was interrupted or failed and the position
     /// in the stream is unknown.
     in_exchange: bool,
 }
 
+/// What the server will send before it waits for the next command.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum PendingResult {
+    None,
+    /// The rows of the current result set.
+    Rows,
+    /// Another result.
+    Next,
+}
+
 impl Connection {
     pub fn data(&self) -> &ConnectionData {
         &self.data
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index b0804bc..13e8b8a 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -1,10 +1,10 @@
 use {
     super::{
         types::{Column, Protocol},
-        Connection, MAX_PAYLOAD_LEN,
+        Connection, PendingResult, MAX_PAYLOAD_LEN,
     },
     crate::{
-        bitflags::CapabilityFlags,
+        bitflags::{CapabilityFlags, StatusFlags},
         error::ProtocolError,
         model::{FromQueryResult, FromQueryResultMapping},
         packets::{ErrPacket, OkPacket},
@@ -32,22 +32,13 @@ where
     R: FromQueryResult,
 {
     pub(super) async fn read(conn: &'a mut Connection) -> Result<Self, Error> {
-        let packet = conn.read_packet().await?;
-        match packet.first() {
-            Some(0x00 | 0xFF) => {
-                let ok_packet = conn.decode_response(&packet).await??;
+        match conn.read_result_head().await? {
+            ResultHead::Ok(ok_packet) => {
                 let mut res = ResultSet::new(Vec::new(), conn);
                 res.ok_packet = Some(ok_packet);
                 Ok(res)
             }
-            Some(0xFB) => unimplemented!("local infile"),
-            _ => {
-                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
-                let columns = conn.read_column_defs(columns_len as usize).await?;
-                conn.pending_result = true;
-                conn.in_exchange = false;
-                Ok(ResultSet::new(columns, conn))
-            }
+            ResultHead::Columns(columns) => Ok(ResultSet::new(columns, conn)),
         }
     }
 
@@ -66,7 +57,7 @@ where
         if self.ok_packet.is_some() {
             return Ok(None);
         }
-        if !self.conn.pending_result {
+        if self.conn.pending_result != PendingResult::Rows {
             // The result set ended with an error.
             return Err(ProtocolError::OutOfSync.into());
         }
@@ -139,12 +130,32 @@ where
     }
 }
 
+enum ResultHead {
+    Ok(OkPacket),
+    Columns(Vec<Column>),
+}
+
 enum RowPacket<'b> {
     Row(PoolItem<'b, Vec<u8>>),
     End(OkPacket),
 }
 
 impl Connection {
+    async fn read_result_head(&mut self) -> Result<ResultHead, Error> {
+        let packet = self.read_packet().await?;
+        match packet.first() {
+            Some(0x00 | 0xFF) => Ok(ResultHead::Ok(self.decode_response(&packet).await??)),
+            Some(0xFB) => unimplemented!("local infile"),
+            _ => {
+                let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
+                let columns = self.read_column_defs(columns_len as usize).await?;
+                self.pending_result = PendingResult::Rows;
+                self.in_exchange = false;
+                Ok(ResultHead::Columns(columns))
+            }
+        }
+    }
+
     /// Reads the next packet of the pending result set.
     async fn read_row_packet<'b>(&mut self) -> Result<RowPacket<'b>, Error> {
         self.start_exchange()?;
@@ -157,14 +168,12 @@ impl Connection {
                         || capabilities.contains(CapabilityFlags::DEPRECATE_EOF)) =>
             {
                 let ok_packet = OkPacket::read_end(packet, capabilities)?;
-                self.pending_result = false;
-                self.in_exchange = false;
+                self.end_result(ok_packet.status());
                 Ok(RowPacket::End(ok_packet))
             }
             Some(0xFF) => {
                 let err = ErrPacket::deserialize(&mut ParseBuf(&packet), capabilities)?;
-                self.pending_result = false;
-                self.in_exchange = false;
+                self.end_result(StatusFlags::empty());
                 Err(err.into())
             }
             _ => {
@@ -176,12 +185,23 @@ impl Connection {
 
     pub async fn cleanup(&mut self) -> Result<Option<OkPacket>, Error> {
         self.check_in_sync()?;
-        while self.pending_result {
-            if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
-                return Ok(Some(ok_packet));
+        let mut last = None;
+        loop {
+            match self.pending_result {
+                PendingResult::None => return Ok(last),
+                PendingResult::Rows => {
+                    if let RowPacket::End(ok_packet) = self.read_row_packet().await? {
+                        last = Some(ok_packet);
+                    }
+                }
+                PendingResult::Next => {
+                    self.start_exchange()?;
+                    if let ResultHead::Ok(ok_packet) = self.read_result_head().await? {
+                        last = Some(ok_packet);
+                    }
+                }
             }
         }
-        Ok(None)
     }
 
     /// Discards what is left of the replies to earlier commands.
-- 
2.43.0


From eadcedc5f92a078f58310d958321af281d5a1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 07/36] fix: return an error if the handshake is refused or
 malformed

Connecting panicked if the server refused the connection in place of the
greeting, offered an authentication plugin the client does not know, or sent
a malformed greeting.
---
 src/connection/init.rs              | 11 ++++++++---
 src/connection/packets/err.rs       | 11 +++--------
 src/connection/packets/handshake.rs |  3 ++-
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index a8fb69b..25dce66 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -4,8 +4,9 @@ use {
         PendingResult, Stream, BUFFER_POOL, DEFAULT_MAX_ALLOWED_PACKET,
     },
     crate::{
-        packets::{HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Error, Serialize, StreamRequirements,
+        bitflags::CapabilityFlags,
+        packets::{ErrPacket, HandshakePacket, HandshakeResponse},
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
     },
     std::sync::Arc,
 };
@@ -54,7 +55,11 @@ impl Connection {
         let mut packet = BUFFER_POOL.get();
         Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
             .await?;
-        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(()).unwrap();
+        if packet.first() == Some(&0xFF) {
+            let err = ErrPacket::deserialize(&mut ParseBuf(&packet), CapabilityFlags::PROTOCOL_41)?;
+            return Err(err.into());
+        }
+        let handshake = ParseBuf(&packet).parse::<HandshakePacket>(())?;
 
         let (version, is_mariadb) = handshake
             .parse_server_version()
diff --git a/src/connection/packets/err.rs b/src/connection/packets/err.rs
index b02ce63..964884d 100644
--- a/src/connection/packets/err.rs
+++ b/src/connection/packets/err.rs
@@ -83,14 +83,9 @@ impl Deserialize<'_> for ErrorPacket {
         buf: &mut crate::connection::ParseBuf<'_>,
         (code, protocol_41): Self::Ctx,
     ) -> Result<Self, ProtocolError> {
-        let state = if protocol_41 {
-            if buf.checked_eat_u8()? != b'#' {
-                return Err(ProtocolError::invalid_packet(
-                    buf.0.to_vec(),
-                    "Err",
-                    "missing state",
-                ));
-            }
+        // Errors that are sent before the capabilities were negotiated have no state.
+        let state = if protocol_41 && buf.0.first() == Some(&b'#') {
+            buf.skip(1);
             let state = unsafe { *(buf.checked_eat(5)? as *const _ as *const [u8; 5]) };
             std::str::from_utf8(&state)?;
             Some(state)
diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index ec8253c..f776aae 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -53,7 +53,8 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         nonce.resize(20, 0);
 
         let auth_plugin = if capabilities.contains(CapabilityFlags::PLUGIN_AUTH) {
-            Some(AuthPlugin::from_bytes(buf.eat_all())?)
+            // The server switches to another plugin if it can't use the one of the response.
+            AuthPlugin::from_bytes(buf.eat_all()).ok()
         } else {
             None
         };
-- 
2.43.0


From 4f0e3d1ef34321a3f22270508713f3c854a0f3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 08/36] fix: recognise the version of MariaDB servers with the
 5.5.5- prefix

They were taken for MySQL 5.5.5. A version with multi-byte characters could
also make the client panic.
---
 src/connection/packets/handshake.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index f776aae..d0ad944 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -84,12 +84,18 @@ impl<'a> HandshakePacket<'a> {
     }
 
     pub fn parse_server_version(&self) -> Option<((u16, u16, u16), bool)> {
-        let mut server_version = self.server_version;
+        // MariaDB servers may put this in front of their version for old replication clients.
+        let mut server_version = match self.server_version.strip_prefix("5.5.5-") {
+            Some(version) if version.contains("MariaDB") => version,
+            _ => self.server_version,
+        };
         fn eat_int(string: &mut &str) -> Option<u16> {
-            match string.chars().position(|x| !x.is_alphanumeric()) {
+            match string.find(|x: char| !x.is_alphanumeric()) {
                 Some(pos) => {
                     let value = u16::from_str(&string[..pos]).ok();
-                    *string = &string[pos + 1..];
+                    let mut rest = string[pos..].chars();
+                    rest.next();
+                    *string = rest.as_str();
                     value
                 }
                 None => {
-- 
2.43.0


From 1670c15e977775d7d2ba3654850438dbcf5a1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 09/36] fix: report a refusal after fast authentication

The packet after the fast authentication succeeded was ignored, so a server
error in its place (unknown database, ...) was reported as success.
---
 src/connection/auth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index 3ee6c11..aa29283 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -59,8 +59,8 @@ impl Connection {
             }
             Some(0x01) => match packet.get(1) {
                 Some(0x03) => {
-                    // auth ok
-                    self.read_packet().await?;
+                    // fast auth succeeded, the server may still refuse the connection
+                    self.read_response().await??;
                     Ok(())
                 }
                 Some(0x04) => {
-- 
2.43.0


From 5614fa9b202ee233ece65b8ce6d9572ee113e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:57 +0000
Subject: [PATCH 10/36] fix: support long blobs in the text protocol, reject
 unsupported types

Reading a LONGBLOB or LONGTEXT column of a text result and reading a column of
a type that is not supported panicked.
---
 src/types/value/bin.rs  | 4 ++--
 src/types/value/text.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index 89d8461..e9a483c 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::ProtocolError,
+        error::{InvalidFlags, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -249,7 +249,7 @@ impl Value {
             ColumnType::Timestamp | ColumnType::Datetime => Self::deserialize_datetime(buf),
             ColumnType::Time => Self::deserialize_time(buf),
             ColumnType::Null => Ok(Self::Null),
-            x => unimplemented!("Unsupported column type {:?}", x),
+            x => Err(InvalidFlags::ColumnType(x as u8).into()),
         }
     }
 }
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 7b52306..06c4680 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -3,7 +3,7 @@ use {
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{ParseError, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         ParseBuf,
     },
     std::{
@@ -367,6 +367,7 @@ impl Value {
                     | ColumnType::Blob
                     | ColumnType::TinyBlob
                     | ColumnType::MediumBlob
+                    | ColumnType::LongBlob
                     | ColumnType::Set
                     | ColumnType::Enum
                     | ColumnType::Decimal
@@ -379,7 +380,7 @@ impl Value {
                     }
                     ColumnType::Date => Self::deserialize_date_text(bytes),
                     ColumnType::Time => Self::deserialize_time_text(bytes),
-                    x => unimplemented!("Unsupported column type {:?}", x),
+                    x => Err(InvalidFlags::ColumnType(x as u8).into()),
                 }
             }
         }
-- 
2.43.0


From 058189c2b8720f5348a9168b6d9af2a50fd17123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 11/36] fix: reject malformed values instead of misreading them

A time with more than six fractional digits panicked, characters after the
seconds, hours of a datetime beyond a day, invalid lengths of binary dates and
invalid length prefixes were accepted as other values.
---
 src/connection/parse_buf.rs      |  2 +-
 src/connection/types/protocol.rs |  7 ++++++-
 src/types/value/bin.rs           | 13 +++++++++++--
 src/types/value/text.rs          | 20 +++++++++++---------
 4 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/connection/parse_buf.rs b/src/connection/parse_buf.rs
index 3e89816..3b16ce8 100644
--- a/src/connection/parse_buf.rs
+++ b/src/connection/parse_buf.rs
@@ -161,7 +161,7 @@ impl<'a> ParseBuf<'a> {
             0xfc => self.checked_eat_u16().map(|x| x as u64),
             0xfd => self.checked_eat_u24().map(|x| x as u64),
             0xfe => self.checked_eat_u64(),
-            0xfb | 0xff => Ok(0),
+            0xfb | 0xff => Err(io::Error::from(io::ErrorKind::InvalidData).into()),
         }
     }
 
diff --git a/src/connection/types/protocol.rs b/src/connection/types/protocol.rs
index e479709..a97c2ef 100644
--- a/src/connection/types/protocol.rs
+++ b/src/connection/types/protocol.rs
@@ -33,7 +33,12 @@ pub struct BinaryProtocol;
 impl Protocol for BinaryProtocol {
     fn read_result_set_row(packet: &[u8], columns: &[Column]) -> Result<Vec<Value>, ProtocolError> {
         let mut buf = ParseBuf(packet);
-        buf.skip(1);
+        if buf.checked_eat_u8()? != 0x00 {
+            return Err(ProtocolError::unexpected_packet(
+                packet.to_vec(),
+                Some("Binary Row"),
+            ));
+        }
 
         let bitmap = NullBitmap::<false, Vec<u8>>::deserialize(&mut buf, columns.len())?;
         let mut values = Vec::with_capacity(columns.len());
diff --git a/src/types/value/bin.rs b/src/types/value/bin.rs
index e9a483c..cd5ff38 100644
--- a/src/types/value/bin.rs
+++ b/src/types/value/bin.rs
@@ -1,9 +1,9 @@
 use {
-    super::Value,
+    super::{Value, ValueType},
     crate::{
         bitflags::ColumnFlags,
         connection::types::ColumnType,
-        error::{InvalidFlags, ProtocolError},
+        error::{InvalidFlags, ParseError, ProtocolError},
         utils::{lenenc_slice_len, BufMutExt},
         ParseBuf, Serialize,
     },
@@ -131,6 +131,9 @@ impl Value {
         let mut month = 0u8;
         let mut day = 0u8;
 
+        if !matches!(len, 0 | 4) {
+            return Err(ParseError::InvalidValue(ValueType::Date, vec![len]).into());
+        }
         if len >= 4 {
             year = buf.eat_u16();
             month = buf.eat_u8();
@@ -152,6 +155,9 @@ impl Value {
         let mut second = 0u8;
         let mut micro_second = 0u32;
 
+        if !matches!(len, 0 | 4 | 7 | 11) {
+            return Err(ParseError::InvalidValue(ValueType::Datetime, vec![len]).into());
+        }
         if len >= 4 {
             year = buf.eat_u16();
             month = buf.eat_u8();
@@ -188,6 +194,9 @@ impl Value {
         let mut seconds = 0u8;
         let mut micro_seconds = 0u32;
 
+        if !matches!(len, 0 | 8 | 12) {
+            return Err(ParseError::InvalidValue(ValueType::Time, vec![len]).into());
+        }
         if len >= 8 {
             is_negative = buf.eat_u8() == 1;
             days = buf.eat_u32();
diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 06c4680..9df9b5b 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -214,15 +214,14 @@ impl Value {
             btoi::btou(&value[first_colon + 1..first_colon + 3]).map_err(|_| invalid_value())?;
         let seconds: u8 =
             btoi::btou(&value[first_colon + 4..first_colon + 6]).map_err(|_| invalid_value())?;
-        let mut microseconds: u32 = 0;
-        if value.len() > first_colon + 6 + 1 {
-            if value[first_colon + 6] != b'.' {
-                return Err(invalid_value().into());
+        let microseconds = match &value[first_colon + 6..] {
+            [] => 0,
+            [b'.', buf @ ..] if buf.len() <= 6 => {
+                let fraction: u32 = btoi::btou(buf).map_err(|_| invalid_value())?;
+                fraction * 10u32.pow(6 - buf.len() as u32)
             }
-            let buf = &value[first_colon + 6 + 1..];
-            microseconds = btoi::btou(buf).map_err(|_| invalid_value())?;
-            microseconds *= 10u32.pow(6 - buf.len() as u32);
-        }
+            _ => return Err(invalid_value().into()),
+        };
         Ok((
             hours / 24,
             (hours % 24) as u8,
@@ -277,8 +276,11 @@ impl Value {
             return Err(ParseError::InvalidValue(ValueType::Date, value.to_vec()).into());
         }
         let (year, month, day) = Self::deserialize_date_text_inner(&value[0..10])?;
-        let (_, hour, minute, second, microsecond) =
+        let (days, hour, minute, second, microsecond) =
             Self::deserialize_time_text_inner(&value[11..])?;
+        if days != 0 {
+            return Err(ParseError::InvalidValue(ValueType::Datetime, value.to_vec()).into());
+        }
         Ok(Self::Datetime(
             year,
             month,
-- 
2.43.0


From 5e8c100aa76338dff6623be9980225f92eac3b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 12/36] fix: do not panic on malformed packets of the server

Truncated or malformed public keys, a challenge of zero length, a huge column
count, a nonce length of 128 or more and a request for a local file made the
client panic or allocate without bound. Keys of 8 n + 1 bits could not be used.
---
 src/connection/auth.rs              |  8 +++
 src/connection/packets/handshake.rs |  2 +-
 src/connection/query.rs             |  2 +-
 src/connection/result_set.rs        |  6 ++-
 src/utils/crypt.rs                  | 78 ++++++++++++++++-------------
 5 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/src/connection/auth.rs b/src/connection/auth.rs
index aa29283..a3e5b24 100644
--- a/src/connection/auth.rs
+++ b/src/connection/auth.rs
@@ -102,6 +102,14 @@ impl Connection {
                                 }
                             }
                         };
+                        if self.data.nonce.is_empty() {
+                            return Err(ProtocolError::invalid_packet(
+                                packet.to_vec(),
+                                "AuthSwitchRequest",
+                                "missing nonce",
+                            )
+                            .into());
+                        }
                         for (i, byte) in pass.iter_mut().enumerate() {
                             *byte ^= self.data.nonce[i % self.data.nonce.len()];
                         }
diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index d0ad944..0d1c338 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -44,7 +44,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         let capabilities = CapabilityFlags::try_from(capabilities_bits_1 | capabilities_bits_2)?;
 
         if capabilities.contains(CapabilityFlags::SECURE_CONNECTION) {
-            let len = i8::max(13, auth_plugin_data_len as i8 - 8) as usize;
+            let len = usize::max(13, (auth_plugin_data_len as usize).saturating_sub(8));
             nonce.extend_from_slice(buf.checked_eat(len)?);
         }
 
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 8db531d..0cfe943 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -39,7 +39,7 @@ impl Connection {
     }
 
     pub(super) async fn read_column_defs(&mut self, count: usize) -> Result<Vec<Column>, Error> {
-        let mut columns: Vec<Column> = Vec::with_capacity(count);
+        let mut columns: Vec<Column> = Vec::with_capacity(count.min(4096));
         for _ in 0..count {
             let packet = self.read_packet().await?;
             let def = ColumnDef::deserialize(&mut ParseBuf(&packet), ())?;
diff --git a/src/connection/result_set.rs b/src/connection/result_set.rs
index 13e8b8a..4ededf0 100644
--- a/src/connection/result_set.rs
+++ b/src/connection/result_set.rs
@@ -145,7 +145,11 @@ impl Connection {
         let packet = self.read_packet().await?;
         match packet.first() {
             Some(0x00 | 0xFF) => Ok(ResultHead::Ok(self.decode_response(&packet).await??)),
-            Some(0xFB) => unimplemented!("local infile"),
+            Some(0xFB) => Err(ProtocolError::unexpected_packet(
+                packet.to_vec(),
+                Some("Result set or Ok Packet"),
+            )
+            .into()),
             _ => {
                 let columns_len = ParseBuf(&packet).checked_eat_lenenc_int()?;
                 let columns = self.read_column_defs(columns_len as usize).await?;
diff --git a/src/utils/crypt.rs b/src/utils/crypt.rs
index 4c86d67..b12cc28 100644
--- a/src/utils/crypt.rs
+++ b/src/utils/crypt.rs
@@ -17,55 +17,53 @@ mod der {
         num::BigUint,
     };
 
+    const MAX_MODULUS_BITS: u64 = 16384;
+    const MAX_EXPONENT_BITS: u64 = 64;
+
+    fn eat<'a>(der: &mut &'a [u8], len: usize) -> Result<&'a [u8], Error> {
+        if der.len() < len {
+            return Err(Error::InvalidPem);
+        }
+        let (left, right) = der.split_at(len);
+        *der = right;
+        Ok(left)
+    }
+
     fn eat_len(der: &mut &[u8]) -> Result<usize, Error> {
-        if der[0] & 0x80 == 0x80 {
+        let first = eat(der, 1)?[0];
+        if first & 0x80 == 0x80 {
             const BITS: usize = (usize::BITS / 8) as usize;
-            let len = (der[0] & (!0x80)) as usize;
+            let len = (first & (!0x80)) as usize;
             if len > BITS {
                 return Err(Error::InvalidPem);
             }
             let mut bytes = [0u8; BITS];
-            bytes[BITS - len..].copy_from_slice(&der[1..=len]);
-            *der = &der[len + 1..];
+            bytes[BITS - len..].copy_from_slice(eat(der, len)?);
             Ok(usize::from_be_bytes(bytes))
         } else {
-            let len = der[0] as usize;
-            *der = &der[1..];
-            Ok(len)
+            Ok(first as usize)
         }
     }
 
-    fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
-        if der[0] != 0x02 {
+    fn eat_tagged<'a>(der: &mut &'a [u8], tag: u8) -> Result<&'a [u8], Error> {
+        if eat(der, 1)?[0] != tag {
             return Err(Error::InvalidPem);
         }
-        *der = &der[1..];
         let len = eat_len(der)?;
-        let uint = BigUint::from_bytes_be(&der[..len]);
-        *der = &der[len..];
-        Ok(uint)
+        eat(der, len)
+    }
+
+    fn eat_uint(der: &mut &[u8]) -> Result<BigUint, Error> {
+        eat_tagged(der, 0x02).map(BigUint::from_bytes_be)
     }
 
     fn eat_sequence<'a>(der: &mut &'a [u8]) -> Result<&'a [u8], Error> {
-        if der[0] != 0x30 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
-        let len = eat_len(der)?;
-        let sequence = &der[..len];
-        *der = &der[len..];
-        Ok(sequence)
+        eat_tagged(der, 0x30)
     }
 
     fn eat_bit_string<'a>(der: &mut &'a [u8]) -> Result<(u8, &'a [u8]), Error> {
-        if der[0] != 0x03 {
-            return Err(Error::InvalidPem);
-        }
-        *der = &der[1..];
-        let len = eat_len(der)?;
-        let unused_bits = der[0];
-        let bit_string = &der[1..len];
-        *der = &der[len..];
+        let mut bit_string = eat_tagged(der, 0x03)?;
+        let unused_bits = eat(&mut bit_string, 1)?[0];
         Ok((unused_bits, bit_string))
     }
 
@@ -74,6 +72,15 @@ mod der {
             let mut pub_key = eat_sequence(&mut der)?;
             let modulus = eat_uint(&mut pub_key)?;
             let exponent = eat_uint(&mut pub_key)?;
+            // Messages are not encrypted by trivial exponents, and encrypting with keys that are
+            // larger than any real one takes very long.
+            if modulus.bits() < 2
+                || modulus.bits() > MAX_MODULUS_BITS
+                || exponent.bits() < 2
+                || exponent.bits() > MAX_EXPONENT_BITS
+            {
+                return Err(Error::InvalidPem);
+            }
             Ok(Self { modulus, exponent })
         }
 
@@ -98,10 +105,13 @@ mod der {
                 .cloned()
                 .collect();
 
-            let (body, is_pkcs_1) = if pem.starts_with(PKCS1.0) && pem.ends_with(PKCS1.1) {
-                (&pem[PKCS1.0.len()..pem.len() - PKCS1.1.len()], true)
-            } else if pem.starts_with(PKCS8.0) && pem.ends_with(PKCS8.1) {
-                (&pem[PKCS8.0.len()..pem.len() - PKCS8.1.len()], false)
+            fn strip<'a>(pem: &'a [u8], (start, end): (&[u8], &[u8])) -> Option<&'a [u8]> {
+                pem.strip_prefix(start)?.strip_suffix(end)
+            }
+            let (body, is_pkcs_1) = if let Some(body) = strip(&pem, PKCS1) {
+                (body, true)
+            } else if let Some(body) = strip(&pem, PKCS8) {
+                (body, false)
             } else {
                 return Err(Error::InvalidPem);
             };
@@ -127,7 +137,7 @@ impl PublicKey {
     }
 
     pub fn num_octets(&self) -> usize {
-        (self.modulus().bits() as usize + 6) >> 3
+        (self.modulus().bits() as usize + 7) >> 3
     }
 
     pub fn modulus(&self) -> &BigUint {
-- 
2.43.0


From 6fefb1354bc59894f8b2085522aad33568f7d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 13/36] fix: keep the sign of negative durations of less than a
 second

---
 src/types/value/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 8033391..857a5e9 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -172,7 +172,7 @@ impl From<Duration> for Value {
         let days = hours / 24;
 
         Value::Time(
-            value.num_seconds() < 0,
+            value < Duration::zero(),
             days as u32,
             (hours % 24) as u8,
             (minutes % 60) as u8,
-- 
2.43.0


From f5705dad8de8d920ad74fb7be3954394a6486ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:07 +0000
Subject: [PATCH 14/36] fix: map columns if a table has the name of a reference
 field

If the table of a model was named like one of its reference fields, or the
table of a referenced model like one of its own, columns were mapped to the
wrong model.
---
 macros/src/lib.rs              |  4 ++--
 src/model/from_query_result.rs | 11 ++++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index cf4aa48..4c55e41 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -147,9 +147,9 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
             set_child_mapping = quote! {
                 #set_child_mapping
                 #maybe_else if table == #name {
-                    self.#ident.set_mapping(column, "", index);
+                    self.#ident.set_mapping_inner(column, "", index);
                 } else if table.starts_with(#name_with_point) {
-                    self.#ident.set_mapping(column, &table[#len..], index);
+                    self.#ident.set_mapping_inner(column, &table[#len..], index);
                 }
             };
         }
diff --git a/src/model/from_query_result.rs b/src/model/from_query_result.rs
index 36dea75..ddbb5f1 100644
--- a/src/model/from_query_result.rs
+++ b/src/model/from_query_result.rs
@@ -4,13 +4,14 @@ pub trait FromQueryResultMapping<ModelData: super::ModelData>: Default {
     fn set_mapping_inner(&mut self, column: &Column, table: &str, index: usize);
 
     fn set_mapping(&mut self, column: &Column, table: &str, index: usize) {
-        self.set_mapping_inner(
-            column,
+        let table = if table == ModelData::TABLE {
+            ""
+        } else {
             table
                 .strip_prefix(ModelData::TABLE_WITH_POINT)
-                .unwrap_or(table),
-            index,
-        )
+                .unwrap_or(table)
+        };
+        self.set_mapping_inner(column, table, index)
     }
 
     fn from_columns(columns: &[Column]) -> Self {
-- 
2.43.0


From 438205e637ab35cb8dc5eceb03be336d7e5dbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 15/36] fix: note a migration as applied only after it was
 recorded

If recording a migration failed, repeating the run with the same migrator
skipped it and reported success although its record was missing or left over.
---
 src/migrator/migrator_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 4e855ac..5a4ce4a 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -108,12 +108,12 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
+                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                         }
                     }
                 }
@@ -132,8 +132,8 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        applied.swap_remove(index);
                         self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        applied.swap_remove(index);
                     }
                 }
             }
@@ -154,8 +154,8 @@ impl<'a> Migrator<'a> {
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    applied.swap_remove(index);
                     self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    applied.swap_remove(index);
                     return Ok(true);
                 }
             }
-- 
2.43.0


From 755917323380b5bea9ef1faac270570d92fa4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 16/36] fix: apply the timeout to opening the transport

A server that could not be reached made connect wait without any limit.
---
 src/connection/init.rs | 50 +++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 25dce66..9dd054d 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -6,17 +6,26 @@ use {
     crate::{
         bitflags::CapabilityFlags,
         packets::{ErrPacket, HandshakePacket, HandshakeResponse},
-        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements,
+        ConnectionOptionsTrait, Deserialize, Error, Serialize, StreamRequirements, Timeout,
+        TimeoutFuture,
     },
     std::sync::Arc,
 };
 
+type Sleep = &'static (dyn Fn(std::time::Duration) -> TimeoutFuture + Send + Sync);
+
 impl Connection {
     pub async fn connect<T: Stream>(options: Arc<ConnectionOptions<T>>) -> Result<Self, Error> {
-        let mut stream = T::connect(&options.connection).await?;
+        let sleep = Self::sleep(&*options);
+        let mut stream = Timeout::new(
+            T::connect(&options.connection),
+            sleep,
+            ConnectionOptionsTrait::timeout(&*options),
+        )
+        .await??;
         let mut seq_id = 0;
 
-        let data = Self::handle_handshake(&mut stream, &mut seq_id, options.clone()).await?;
+        let data = Self::handle_handshake(&mut stream, &mut seq_id, options.clone(), sleep).await?;
         let mut this = Self {
             stream: Box::new(stream),
             seq_id,
@@ -35,26 +44,30 @@ impl Connection {
         self.execute_command(Command::Quit, &[]).await
     }
 
-    async fn handle_handshake(
-        stream: &mut dyn StreamRequirements,
-        seq_id: &mut u8,
-        options: Arc<dyn ConnectionOptionsTrait>,
-    ) -> Result<ConnectionData, Error> {
-        #[cfg(feature = "time")]
-        fn sleep(duration: std::time::Duration) -> crate::TimeoutFuture {
-            Box::pin(tokio::time::sleep(duration))
-        }
-        #[cfg(not(feature = "time"))]
-        let sleep = match options.sleep() {
+    #[cfg(feature = "time")]
+    fn sleep(_options: &dyn ConnectionOptionsTrait) -> Sleep {
+        &|duration| Box::pin(tokio::time::sleep(duration))
+    }
+
+    #[cfg(not(feature = "time"))]
+    fn sleep(options: &dyn ConnectionOptionsTrait) -> Sleep {
+        match options.sleep() {
             Some(x) => x,
             None => panic!(concat!(
                 "No `sleep` function provided.\n",
                 "You have to either provide a custom `sleep` function by setting `ConnectionData::sleep` or enable the feature `time`.",
             )),
-        };
+        }
+    }
+
+    async fn handle_handshake(
+        stream: &mut dyn StreamRequirements,
+        seq_id: &mut u8,
+        options: Arc<dyn ConnectionOptionsTrait>,
+        sleep: Sleep,
+    ) -> Result<ConnectionData, Error> {
         let mut packet = BUFFER_POOL.get();
-        Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), &sleep, options.timeout())
-            .await?;
+        Self::read_packet_to_buf(stream, seq_id, packet.as_mut(), sleep, options.timeout()).await?;
         if packet.first() == Some(&0xFF) {
             let err = ErrPacket::deserialize(&mut ParseBuf(&packet), CapabilityFlags::PROTOCOL_41)?;
             return Err(err.into());
@@ -79,9 +92,6 @@ impl Connection {
             max_allowed_packet: options
                 .max_allowed_packet()
                 .unwrap_or(DEFAULT_MAX_ALLOWED_PACKET),
-            #[cfg(feature = "time")]
-            sleep: &sleep,
-            #[cfg(not(feature = "time"))]
             sleep,
         })
     }
-- 
2.43.0


From 14c614a6fe86ca883fd3b1a35d8d6de0b784d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 17/36] fix: read the result of the settings query completely

A new connection still had the result of an internal query pending, which
cleanup() then returned as if it were the result of the user's command.
---
 src/connection/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/query.rs b/src/connection/query.rs
index 0cfe943..975b811 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -67,7 +67,8 @@ impl Connection {
             let mut res = self
                 .query::<Vec<Value>>("select @@max_allowed_packet")
                 .await?;
-            let row = res.next().await?;
+            // Read the whole result, the connection is handed to the user without pending results.
+            let row = res.one().await?;
             let columns = res.into_columns();
 
             if let Some(mut row) = row {
-- 
2.43.0


From 1a2d68698e6905e67705cf1a45b53aea873dca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 18/36] fix: wake requests that wait for a pool item

Returning an item to the pool woke nobody, so requests waited forever once the
pool was exhausted.
---
 src/pool/async_pool.rs | 82 +++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 37 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 458dd43..41b1370 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -5,7 +5,7 @@ use {
         future::Future,
         mem::ManuallyDrop,
         pin::Pin,
-        sync::atomic::{AtomicUsize, Ordering},
+        sync::atomic::{fence, AtomicUsize, Ordering},
         task::{self, Poll, Waker},
     },
 };
@@ -21,6 +21,7 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N
     fn put(&self, value: T) {
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
+        self.wake();
     }
 }
 
@@ -33,6 +34,18 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
             wakers: SegQueue::new(),
         }
     }
+
+    /// Wakes everyone who waits for an item. As a request that was already cancelled or completed
+    /// can still have its waker registered, it would not be enough to wake a single one.
+    fn wake(&self) {
+        fence(Ordering::SeqCst);
+        for _ in 0..self.wakers.len() {
+            match self.wakers.pop() {
+                Some(waker) => waker.wake(),
+                None => break,
+            }
+        }
+    }
 }
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<T, C, N> {
@@ -40,7 +53,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
         Box::pin(PoolTake {
             pool: self,
             add: None,
-            waker_added: false,
         })
     }
 }
@@ -50,7 +62,6 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPoolTrait<T> for AsyncPool<
 pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
     pool: &'a AsyncPool<T, C, N>,
     add: Option<Pin<Box<dyn Future<Output = Result<T, T::Error>> + 'a>>>,
-    waker_added: bool,
 }
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
@@ -72,41 +83,38 @@ impl<'a, T: AsyncPoolContent<C>, C, const N: usize> Future for PoolTake<'a, T, C
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
         let pool = this.pool;
-        if let Some(res) = this.poll_add(cx) {
-            return res;
-        }
-        match pool.pool.pop() {
-            Some(item) => Poll::Ready(Ok(PoolItem {
-                item: ManuallyDrop::new(item),
-                pool,
-            })),
-            None => {
-                let item_count = pool.items.load(Ordering::Relaxed);
-                if item_count < N {
-                    if pool
-                        .items
-                        .compare_exchange(
-                            item_count,
-                            item_count + 1,
-                            Ordering::Relaxed,
-                            Ordering::Relaxed,
-                        )
-                        .is_ok()
-                    {
-                        this.add = Some(Box::pin(T::new(&pool.ctx)));
-                        if let Some(res) = this.poll_add(cx) {
-                            return res;
-                        }
-                    } else {
-                        cx.waker().wake_by_ref();
-                    }
-                } else if !this.waker_added {
-                    this.waker_added = true;
-                    pool.wakers.push(cx.waker().clone());
-                    // wake for the rare case that an item was added after we tried to get one but before we registered the waker
-                    cx.waker().wake_by_ref();
+        let mut waker_added = false;
+        loop {
+            if let Some(res) = this.poll_add(cx) {
+                return res;
+            }
+            if let Some(item) = pool.pool.pop() {
+                return Poll::Ready(Ok(PoolItem {
+                    item: ManuallyDrop::new(item),
+                    pool,
+                }));
+            }
+            let item_count = pool.items.load(Ordering::SeqCst);
+            if item_count < N {
+                if pool
+                    .items
+                    .compare_exchange(
+                        item_count,
+                        item_count + 1,
+                        Ordering::SeqCst,
+                        Ordering::SeqCst,
+                    )
+                    .is_ok()
+                {
+                    this.add = Some(Box::pin(T::new(&pool.ctx)));
                 }
-                Poll::Pending
+            } else if !waker_added {
+                waker_added = true;
+                pool.wakers.push(cx.waker().clone());
+                fence(Ordering::SeqCst);
+                // try again for the rare case that an item was added after we tried to get one but before we registered the waker
+            } else {
+                return Poll::Pending;
             }
         }
     }
-- 
2.43.0


From fbeab343f863d1680c8f25703c754d7ea669adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:48 +0000
Subject: [PATCH 19/36] fix: give the place in the pool back if creating an
 item fails

If creating an item failed or the request was dropped meanwhile, the pool kept
counting the item until no further one could be created.
---
 src/pool/async_pool.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 41b1370..1a3e910 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -35,6 +35,12 @@ impl<T: AsyncPoolContent<C>, C, const N: usize> AsyncPool<T, C, N> {
         }
     }
 
+    /// Has to be called when an item that was counted does not exist any more.
+    fn release(&self) {
+        self.items.fetch_sub(1, Ordering::SeqCst);
+        self.wake();
+    }
+
     /// Wakes everyone who waits for an item. As a request that was already cancelled or completed
     /// can still have its waker registered, it would not be enough to wake a single one.
     fn wake(&self) {
@@ -66,14 +72,26 @@ pub struct PoolTake<'a, T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<'a, T: AsyncPoolContent<C>, C, const N: usize> PoolTake<'a, T, C, N> {
     fn poll_add(&mut self, cx: &mut task::Context<'_>) -> Option<Poll<<Self as Future>::Output>> {
-        self.add.as_mut().map(|add| {
-            add.as_mut().poll(cx).map(|res| {
-                res.map(|item| PoolItem {
-                    item: ManuallyDrop::new(item),
-                    pool: self.pool,
-                })
-            })
-        })
+        let res = match self.add.as_mut()?.as_mut().poll(cx) {
+            Poll::Ready(res) => res,
+            Poll::Pending => return Some(Poll::Pending),
+        };
+        self.add = None;
+        if res.is_err() {
+            self.pool.release();
+        }
+        Some(Poll::Ready(res.map(|item| PoolItem {
+            item: ManuallyDrop::new(item),
+            pool: self.pool,
+        })))
+    }
+}
+
+impl<T: AsyncPoolContent<C>, C, const N: usize> Drop for PoolTake<'_, T, C, N> {
+    fn drop(&mut self) {
+        if self.add.take().is_some() {
+            self.pool.release();
+        }
     }
 }
 
-- 
2.43.0


From f4d97e7b56ec14e2de99092af5ac0d29b18a1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:50 +0000
Subject: [PATCH 20/36] fix: do not hand out broken connections

A connection that failed or was abandoned in the middle of an exchange went
back to the pool and failed, or showed left-over results, for its next user.
---
 src/connection/mod.rs  | 4 ++++
 src/pool/async_pool.rs | 4 ++++
 src/pool/mod.rs        | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 29debd2..ec4da75 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -119,6 +119,10 @@ impl<T: Stream> AsyncPoolContent<T> for Connection {
     ) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Self, Self::Error>> + 'a>> {
         Box::pin(Self::connect(Arc::clone(ctx)))
     }
+
+    fn reusable(&self) -> bool {
+        !self.in_exchange && self.pending_result == PendingResult::None
+    }
 }
 
 #[cfg(feature = "tcpstream")]
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 1a3e910..66ca4ab 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -19,6 +19,10 @@ pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
 
 impl<T: AsyncPoolContent<C>, C, const N: usize> PoolPut<T> for AsyncPool<T, C, N> {
     fn put(&self, value: T) {
+        if !value.reusable() {
+            drop(value);
+            return self.release();
+        }
         // As we won't create too many items, the pool won't be full
         let _ = self.pool.push(value);
         self.wake();
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 69048a8..e2727f1 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -21,6 +21,11 @@ pub trait AsyncPoolContent<T>: AsyncPoolContentError + Sized + 'static {
     type Ctx: fmt::Debug;
     fn new<'a>(ctx: &'a Self::Ctx)
         -> Pin<Box<dyn Future<Output = Result<Self, Self::Error>> + 'a>>;
+
+    /// Whether the pool can hand this item out again.
+    fn reusable(&self) -> bool {
+        true
+    }
 }
 
 pub trait AsyncPoolContentError: 'static {
-- 
2.43.0


From cc19a40c51ef9a074d3108e1b8d9126bda0cecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 21/36] hook: let a simulator schedule the pools' shared
 accesses (--cfg mysql_connector_sim)

---
 src/lib.rs             |   4 ++
 src/pool/async_pool.rs |  11 +++-
 src/pool/sync_pool.rs  |   6 +-
 src/sim.rs             | 127 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 145 insertions(+), 3 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index c4996d0..09a0812 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,11 +1,15 @@
 #![cfg_attr(doc, feature(doc_cfg))]
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
 
 pub mod connection;
 pub mod error;
 mod migrator;
 pub mod model;
 pub mod pool;
+#[cfg(mysql_connector_sim)]
+#[doc(hidden)]
+pub mod sim;
 pub mod types;
 mod utils;
 
diff --git a/src/pool/async_pool.rs b/src/pool/async_pool.rs
index 66ca4ab..eecca6c 100644
--- a/src/pool/async_pool.rs
+++ b/src/pool/async_pool.rs
@@ -1,15 +1,22 @@
 use {
     super::{AsyncPoolContent, AsyncPoolGetFuture, AsyncPoolTrait, PoolItem, PoolPut},
-    crossbeam::queue::{ArrayQueue, SegQueue},
     std::{
         future::Future,
         mem::ManuallyDrop,
         pin::Pin,
-        sync::atomic::{fence, AtomicUsize, Ordering},
+        sync::atomic::Ordering,
         task::{self, Poll, Waker},
     },
 };
 
+#[cfg(mysql_connector_sim)]
+use crate::sim::{fence, ArrayQueue, AtomicUsize, SegQueue};
+#[cfg(not(mysql_connector_sim))]
+use {
+    crossbeam::queue::{ArrayQueue, SegQueue},
+    std::sync::atomic::{fence, AtomicUsize},
+};
+
 pub struct AsyncPool<T: AsyncPoolContent<C>, C, const N: usize> {
     ctx: T::Ctx,
     items: AtomicUsize,
diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index baa3d0a..4cd322a 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -1,9 +1,13 @@
 use {
     super::{PoolItem, PoolPut},
-    crossbeam::queue::ArrayQueue,
     std::{fmt, mem::ManuallyDrop},
 };
 
+#[cfg(mysql_connector_sim)]
+use crate::sim::ArrayQueue;
+#[cfg(not(mysql_connector_sim))]
+use crossbeam::queue::ArrayQueue;
+
 pub struct SyncPool<T: SyncPoolContent, const N: usize> {
     ctx: T::Ctx,
     pool: ArrayQueue<T>,
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..99e24be
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,127 @@
+//! Wrappers of the shared primitives the pools are made of. They call a hook before every access,
+//! so that a simulator can decide the interleaving of threads. Only built with
+//! `--cfg mysql_connector_sim`.
+
+use std::{
+    cell::Cell,
+    ops::Deref,
+    sync::atomic::{self, Ordering},
+};
+
+thread_local! {
+    static HOOK: Cell<Option<fn(&'static str)>> = const { Cell::new(None) };
+}
+
+/// Sets the hook of the current thread.
+pub fn set_hook(hook: Option<fn(&'static str)>) {
+    HOOK.with(|x| x.set(hook));
+}
+
+fn hook(operation: &'static str) {
+    if let Ok(Some(hook)) = HOOK.try_with(|x| x.get()) {
+        hook(operation);
+    }
+}
+
+pub fn fence(order: Ordering) {
+    hook("fence");
+    atomic::fence(order);
+}
+
+macro_rules! wrapper {
+    ($name:ident $(<$t:ident>)?, $inner:ty, { $(fn $fn:ident(&self $(, $arg:ident: $ty:ty)* $(,)?) $(-> $ret:ty)?;)* }) => {
+        #[derive(Debug)]
+        pub struct $name $(<$t>)? ($inner);
+
+        impl $(<$t>)? $name $(<$t>)? {
+            $(
+                pub fn $fn(&self $(, $arg: $ty)*) $(-> $ret)? {
+                    hook(concat!(stringify!($name), "::", stringify!($fn)));
+                    self.0.$fn($($arg),*)
+                }
+            )*
+        }
+
+        impl $(<$t>)? Deref for $name $(<$t>)? {
+            type Target = $inner;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+    };
+}
+
+wrapper!(ArrayQueue<T>, crossbeam::queue::ArrayQueue<T>, {
+    fn push(&self, value: T) -> Result<(), T>;
+    fn force_push(&self, value: T) -> Option<T>;
+    fn pop(&self) -> Option<T>;
+    fn len(&self) -> usize;
+    fn is_empty(&self) -> bool;
+    fn is_full(&self) -> bool;
+});
+
+impl<T> ArrayQueue<T> {
+    pub fn new(cap: usize) -> Self {
+        Self(crossbeam::queue::ArrayQueue::new(cap))
+    }
+}
+
+wrapper!(SegQueue<T>, crossbeam::queue::SegQueue<T>, {
+    fn push(&self, value: T);
+    fn pop(&self) -> Option<T>;
+    fn len(&self) -> usize;
+    fn is_empty(&self) -> bool;
+});
+
+impl<T> SegQueue<T> {
+    pub fn new() -> Self {
+        Self(crossbeam::queue::SegQueue::new())
+    }
+}
+
+wrapper!(AtomicUsize, atomic::AtomicUsize, {
+    fn load(&self, order: Ordering) -> usize;
+    fn store(&self, value: usize, order: Ordering);
+    fn swap(&self, value: usize, order: Ordering) -> usize;
+    fn fetch_add(&self, value: usize, order: Ordering) -> usize;
+    fn fetch_sub(&self, value: usize, order: Ordering) -> usize;
+    fn fetch_max(&self, value: usize, order: Ordering) -> usize;
+    fn fetch_min(&self, value: usize, order: Ordering) -> usize;
+    fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize>;
+    fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize>;
+});
+
+impl AtomicUsize {
+    pub const fn new(value: usize) -> Self {
+        Self(atomic::AtomicUsize::new(value))
+    }
+
+    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: F,
+    ) -> Result<usize, usize> {
+        let mut old = self.load(fetch_order);
+        loop {
+            let Some(new) = f(old) else { return Err(old) };
+            match self.compare_exchange_weak(old, new, set_order, fetch_order) {
+                Ok(x) => return Ok(x),
+                Err(x) => old = x,
+            }
+        }
+    }
+}
-- 
2.43.0


From 791b9becad379f74f467e0d02ea77a0d70881cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 22/36] fix: read the migration record again after its last
 change failed

If the outcome of noting or removing a migration is unknown, the migrator's
copy of the record may be wrong: repeating the run failed forever or reported
success although a migration was missing from the record.
---
 src/migrator/migrator_inner.rs | 47 ++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 5a4ce4a..55ac27e 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -11,6 +11,8 @@ pub struct Migrator<'a> {
     pool: &'a dyn AsyncPoolTrait<Connection>,
     migrations: &'a [MigrationList],
     applied: HashMap<Version, Vec<String>>,
+    /// Whether a change of the record was started without learning its outcome.
+    outdated: bool,
 }
 
 impl<'a> Migrator<'a> {
@@ -36,6 +38,18 @@ impl<'a> Migrator<'a> {
             .await?;
         }
 
+        Ok(Self {
+            pool,
+            migrations,
+            applied: Self::load_applied(&mut conn, migrations).await?,
+            outdated: false,
+        })
+    }
+
+    async fn load_applied(
+        conn: &mut Connection,
+        migrations: &[MigrationList],
+    ) -> Result<HashMap<Version, Vec<String>>, Error> {
         let mut query = conn
             .query::<MigrationModel>(
                 "select `version_0`, `version_1`, `version_2`, `name` from `migrations`",
@@ -60,11 +74,16 @@ impl<'a> Migrator<'a> {
             }
             Self::insert_applied(&mut applied, row.version, row.name);
         }
-        Ok(Self {
-            pool,
-            migrations,
-            applied,
-        })
+        Ok(applied)
+    }
+
+    async fn update_applied(&mut self) -> Result<(), Error> {
+        if self.outdated {
+            self.applied =
+                Self::load_applied(&mut *self.pool.get().await?, self.migrations).await?;
+            self.outdated = false;
+        }
+        Ok(())
     }
 
     pub async fn up(&mut self) -> Result<(), Error> {
@@ -95,6 +114,7 @@ impl<'a> Migrator<'a> {
     }
 
     pub async fn up_to_version(&mut self, version: Option<Version>) -> Result<(), Error> {
+        self.update_applied().await?;
         for migration_list in self.migrations {
             match &version {
                 Some(version) if migration_list.version > *version => (),
@@ -108,12 +128,15 @@ impl<'a> Migrator<'a> {
                         .is_none()
                         {
                             migration.up(self.pool).await?;
-                            self.pool.get().await?.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            let mut conn = self.pool.get().await?;
+                            self.outdated = true;
+                            conn.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
                                 migration.name().to_owned(),
                             );
+                            self.outdated = false;
                         }
                     }
                 }
@@ -123,6 +146,7 @@ impl<'a> Migrator<'a> {
     }
 
     pub async fn down_to_version(&mut self, version: Version) -> Result<(), Error> {
+        self.update_applied().await?;
         for migration_list in self.migrations.iter().rev() {
             if migration_list.version > version {
                 for migration in migration_list.migrations.iter().rev() {
@@ -132,8 +156,11 @@ impl<'a> Migrator<'a> {
                         migration.name(),
                     ) {
                         migration.down(self.pool).await?;
-                        self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        let mut conn = self.pool.get().await?;
+                        self.outdated = true;
+                        conn.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                         applied.swap_remove(index);
+                        self.outdated = false;
                     }
                 }
             }
@@ -148,14 +175,18 @@ impl<'a> Migrator<'a> {
 
     #[cfg(debug_assertions)]
     pub async fn one_down(&mut self) -> Result<bool, Error> {
+        self.update_applied().await?;
         for migration_list in self.migrations.iter().rev() {
             for migration in migration_list.migrations.iter().rev() {
                 if let Some((applied, index)) =
                     Self::get_applied(&mut self.applied, &migration_list.version, migration.name())
                 {
                     migration.down(self.pool).await?;
-                    self.pool.get().await?.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    let mut conn = self.pool.get().await?;
+                    self.outdated = true;
+                    conn.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
                     applied.swap_remove(index);
+                    self.outdated = false;
                     return Ok(true);
                 }
             }
-- 
2.43.0


From e2b91df526f485b43ce376661013fcd595461d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 23/36] fix: escape the names of migrations

---
 src/migrator/migrator_inner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/migrator/migrator_inner.rs b/src/migrator/migrator_inner.rs
index 55ac27e..8611fc9 100644
--- a/src/migrator/migrator_inner.rs
+++ b/src/migrator/migrator_inner.rs
@@ -7,6 +7,11 @@ use {
     std::collections::HashMap,
 };
 
+/// Escapes a name for use inside of double quotes.
+fn escape(name: &str) -> String {
+    name.replace('\\', "\\\\").replace('"', "\"\"")
+}
+
 pub struct Migrator<'a> {
     pool: &'a dyn AsyncPoolTrait<Connection>,
     migrations: &'a [MigrationList],
@@ -130,7 +135,7 @@ impl<'a> Migrator<'a> {
                             migration.up(self.pool).await?;
                             let mut conn = self.pool.get().await?;
                             self.outdated = true;
-                            conn.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                            conn.execute_query(&format!("insert into `migrations` (`version_0`, `version_1`, `version_2`, `name`) values ({}, {}, {}, \"{}\")", migration_list.version.0, migration_list.version.1, migration_list.version.2, escape(migration.name()))).await?;
                             Self::insert_applied(
                                 &mut self.applied,
                                 migration_list.version,
@@ -158,7 +163,7 @@ impl<'a> Migrator<'a> {
                         migration.down(self.pool).await?;
                         let mut conn = self.pool.get().await?;
                         self.outdated = true;
-                        conn.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                        conn.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, escape(migration.name()))).await?;
                         applied.swap_remove(index);
                         self.outdated = false;
                     }
@@ -184,7 +189,7 @@ impl<'a> Migrator<'a> {
                     migration.down(self.pool).await?;
                     let mut conn = self.pool.get().await?;
                     self.outdated = true;
-                    conn.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, migration.name())).await?;
+                    conn.execute_query(&format!("delete from `migrations` where `version_0` = {} and `version_1` = {} and `version_2` = {} and `name` = \"{}\"", migration_list.version.0, migration_list.version.1, migration_list.version.2, escape(migration.name()))).await?;
                     applied.swap_remove(index);
                     self.outdated = false;
                     return Ok(true);
-- 
2.43.0


From 931a656d0976130eea267da3c19bd1df4b734970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 24/36] fix: read negative numbers as true

---
 src/types/value/conversion.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 857a5e9..49f19ba 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -49,14 +49,14 @@ impl TryInto<bool> for Value {
 
     fn try_into(self) -> Result<bool, Self::Error> {
         match self {
-            Value::Tiny(x) => Ok(x > 0),
-            Value::Short(x) => Ok(x > 0),
-            Value::Int(x) => Ok(x > 0),
-            Value::Long(x) => Ok(x > 0),
-            Value::UTiny(x) => Ok(x > 0),
-            Value::UShort(x) => Ok(x > 0),
-            Value::UInt(x) => Ok(x > 0),
-            Value::ULong(x) => Ok(x > 0),
+            Value::Tiny(x) => Ok(x != 0),
+            Value::Short(x) => Ok(x != 0),
+            Value::Int(x) => Ok(x != 0),
+            Value::Long(x) => Ok(x != 0),
+            Value::UTiny(x) => Ok(x != 0),
+            Value::UShort(x) => Ok(x != 0),
+            Value::UInt(x) => Ok(x != 0),
+            Value::ULong(x) => Ok(x != 0),
             _ => Err(Self::Error::wrong_value(ValueType::Number, self.clone())),
         }
     }
-- 
2.43.0


From 3b070b55d06d5d14e03ad3af37436b00390be180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 25/36] fix: refuse leap seconds instead of sending an invalid
 time

---
 src/types/value/conversion.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/types/value/conversion.rs b/src/types/value/conversion.rs
index 49f19ba..2c8637d 100644
--- a/src/types/value/conversion.rs
+++ b/src/types/value/conversion.rs
@@ -115,6 +115,13 @@ impl TryFrom<NaiveDateTime> for Value {
     type Error = SerializeError;
 
     fn try_from(value: NaiveDateTime) -> Result<Self, Self::Error> {
+        // There is no way to send a leap second.
+        if value.nanosecond() >= 1_000_000_000 {
+            return Err(SerializeError::InvalidValue(
+                ValueType::Datetime,
+                Box::new(value),
+            ));
+        }
         Ok(Value::Datetime(
             value
                 .year()
-- 
2.43.0


From da7e844c7fb9865c9c5388c63bb9488cbb626d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 26/36] fix: restart the timeout whenever bytes are transferred

---
 src/connection/io.rs | 64 +++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/connection/io.rs b/src/connection/io.rs
index bd86ce8..f047501 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -13,7 +13,7 @@ use {
         Deserialize, Error, StreamRequirements, Timeout, TimeoutFuture,
     },
     bytes::Buf,
-    std::time::Duration,
+    std::{io, time::Duration},
     tokio::io::{AsyncReadExt, AsyncWriteExt},
 };
 
@@ -49,6 +49,40 @@ impl Connection {
         Ok(())
     }
 
+    /// Fills `dst`. The timeout starts again whenever bytes arrive.
+    async fn read_bytes(
+        stream: &mut dyn StreamRequirements,
+        mut dst: &mut [u8],
+        sleep: &dyn Fn(std::time::Duration) -> TimeoutFuture,
+        timeout: Duration,
+    ) -> Result<(), Error> {
+        while !dst.is_empty() {
+            let len = Timeout::new(stream.read(dst), sleep, timeout).await??;
+            if len == 0 {
+                return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+            }
+            dst = &mut dst[len..];
+        }
+        Ok(())
+    }
+
+    /// Writes all of `bytes`. The timeout starts again whenever bytes were accepted.
+    async fn write_bytes(&mut self, mut bytes: &[u8]) -> Result<(), Error> {
+        while !bytes.is_empty() {
+            let len = Timeout::new(
+                self.stream.write(bytes),
+                self.data.sleep,
+                self.options.timeout(),
+            )
+            .await??;
+            if len == 0 {
+                return Err(io::Error::from(io::ErrorKind::WriteZero).into());
+            }
+            bytes = &bytes[len..];
+        }
+        Ok(())
+    }
+
     async fn read_chunk_to_buf(
         stream: &mut dyn StreamRequirements,
         dst: &mut Vec<u8>,
@@ -56,7 +90,7 @@ impl Connection {
         timeout: Duration,
     ) -> Result<(u8, bool), Error> {
         let mut metadata_buf = [0u8; 4];
-        Timeout::new(stream.read_exact(&mut metadata_buf), sleep, timeout).await??;
+        Self::read_bytes(stream, &mut metadata_buf, sleep, timeout).await?;
         let chunk_len = read_u32(&metadata_buf[..3]) as usize;
         let seq_id = metadata_buf[3];
 
@@ -66,7 +100,7 @@ impl Connection {
 
         let start = dst.len();
         dst.resize(start + chunk_len, 0);
-        Timeout::new(stream.read_exact(&mut dst[start..]), sleep, timeout).await??;
+        Self::read_bytes(stream, &mut dst[start..], sleep, timeout).await?;
 
         if dst.len() % MAX_PAYLOAD_LEN == 0 {
             Ok((seq_id, false))
@@ -115,30 +149,16 @@ impl Connection {
 
         while bytes.has_remaining() {
             let chunk_len = usize::min(bytes.remaining(), MAX_PAYLOAD_LEN);
-            Timeout::new(
-                self.stream
-                    .write_u32_le(chunk_len as u32 | (u32::from(self.seq_id) << 24)),
-                self.data.sleep,
-                self.options.timeout(),
-            )
-            .await??;
-            Timeout::new(
-                self.stream.write_all(&bytes[..chunk_len]),
-                self.data.sleep,
-                self.options.timeout(),
-            )
-            .await??;
+            let header = chunk_len as u32 | (u32::from(self.seq_id) << 24);
+            self.write_bytes(&header.to_le_bytes()).await?;
+            self.write_bytes(&bytes[..chunk_len]).await?;
             bytes = &bytes[chunk_len..];
             self.seq_id = self.seq_id.wrapping_add(1);
         }
 
         if extra_packet {
-            Timeout::new(
-                self.stream.write_u32_le(u32::from(self.seq_id) << 24),
-                self.data.sleep,
-                self.options.timeout(),
-            )
-            .await??;
+            let header = u32::from(self.seq_id) << 24;
+            self.write_bytes(&header.to_le_bytes()).await?;
             self.seq_id = self.seq_id.wrapping_add(1);
         }
 
-- 
2.43.0


From e54e61f179fcfbaf0ca85c7a01124c2c81db9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 27/36] fix: terminate a cleartext password and do not truncate
 long ones

The first answer of `mysql_clear_password` was sent without its terminating
null character, and was cut off after 255 bytes.
---
 src/connection/init.rs    | 10 +++++++---
 src/connection/options.rs |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 9dd054d..9f06720 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -98,11 +98,15 @@ impl Connection {
 
     async fn do_handshake_response(&mut self) -> Result<(), Error> {
         let auth_plugin = self.options.auth_plugin().unwrap_or(self.data.auth_plugin);
-        let auth_data =
-            auth_plugin.gen_data(self.options.password(), &self.data.nonce, &*self.options)?;
+        let mut auth_data = BUFFER_POOL.get();
+        if let Some(data) =
+            auth_plugin.gen_data(self.options.password(), &self.data.nonce, &*self.options)?
+        {
+            data.serialize(auth_data.as_mut());
+        }
 
         let handshake_response = HandshakeResponse::new(
-            auth_data.as_deref().unwrap_or_default(),
+            &auth_data,
             self.data.version,
             self.options.user().as_bytes(),
             self.options.db_name().map(|x| x.as_bytes()),
diff --git a/src/connection/options.rs b/src/connection/options.rs
index 2a0154d..ef12d6d 100644
--- a/src/connection/options.rs
+++ b/src/connection/options.rs
@@ -84,7 +84,8 @@ impl<T: Stream> ConnectionOptionsTrait for ConnectionOptions<T> {
             | CapabilityFlags::TRANSACTIONS
             | CapabilityFlags::PS_MULTI_RESULTS
             | CapabilityFlags::DEPRECATE_EOF
-            | CapabilityFlags::PLUGIN_AUTH;
+            | CapabilityFlags::PLUGIN_AUTH
+            | CapabilityFlags::PLUGIN_AUTH_LENENC_CLIENT_DATA;
 
         if self.db_name.is_some() {
             out |= CapabilityFlags::CONNECT_WITH_DB;
-- 
2.43.0


From 499ec5078d6c148e567bd5e980fbbe0311709f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 28/36] fix: Hex::try_from_hex does not panic on texts of less
 than two bytes

---
 src/types/hex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index aeff5f2..0d8d59d 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -18,7 +18,7 @@ impl Hex {
 
     pub fn try_from_hex<T: AsRef<[u8]>>(data: T) -> Result<Self, hex::FromHexError> {
         let mut data: &[u8] = data.as_ref();
-        if data[..2] == *b"0x" || data[..2] == *b"0X" {
+        if data.starts_with(b"0x") || data.starts_with(b"0X") {
             data = &data[2..];
         }
         hex::decode(data).map(Self)
-- 
2.43.0


From 7d9a56bd62db41d2325c434f317f17512ef370a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 29/36] fix: empty bytes are displayed as a literal

---
 src/types/value/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 9df9b5b..bfadf5b 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -165,6 +165,8 @@ impl fmt::Display for Value {
             Value::ULong(x) => x.fmt(f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
+            // MySQL takes `0x` without digits for an identifier
+            Value::Bytes(x) if x.is_empty() => f.write_str("x''"),
             Value::Bytes(x) => {
                 f.write_str("0x")?;
                 hex::encode(x).fmt(f)
-- 
2.43.0


From 5e46e71fe9caf5db778b52619f5394e86a67133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 30/36] fix: displaying a time of many days does not overflow

---
 src/types/value/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index bfadf5b..0723032 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -142,7 +142,7 @@ impl fmt::Display for Value {
         }
         fn format_time(
             f: &mut fmt::Formatter<'_>,
-            hours: &u32,
+            hours: &u64,
             minutes: &u8,
             seconds: &u8,
             microseconds: &u32,
@@ -183,7 +183,7 @@ impl fmt::Display for Value {
                 }
                 format_time(
                     f,
-                    &(*days * 24 + *hours as u32),
+                    &(*days as u64 * 24 + *hours as u64),
                     minutes,
                     seconds,
                     microseconds,
@@ -194,7 +194,7 @@ impl fmt::Display for Value {
                 write!(f, "\"")?;
                 format_date(f, year, month, day)?;
                 write!(f, " ")?;
-                format_time(f, &(*hour as u32), minute, second, microsecond)?;
+                format_time(f, &(*hour as u64), minute, second, microsecond)?;
                 write!(f, "\"")
             }
         }
-- 
2.43.0


From 9b3ce4a6a22debd5eebd5be68c83d724f8f6b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 31/36] fix: very large and very small floats are displayed
 with an exponent

---
 src/types/value/text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types/value/text.rs b/src/types/value/text.rs
index 0723032..d0a9e55 100644
--- a/src/types/value/text.rs
+++ b/src/types/value/text.rs
@@ -153,6 +153,9 @@ impl fmt::Display for Value {
             }
             Ok(())
         }
+        fn needs_exponent(x: f64) -> bool {
+            x.is_finite() && x != 0.0 && !(1e-5..1e16).contains(&x.abs())
+        }
         match self {
             Value::Null => write!(f, "NULL"),
             Value::Tiny(x) => x.fmt(f),
@@ -163,6 +166,9 @@ impl fmt::Display for Value {
             Value::UShort(x) => x.fmt(f),
             Value::UInt(x) => x.fmt(f),
             Value::ULong(x) => x.fmt(f),
+            // MySQL limits the digits of literals without exponent
+            Value::Float(x) if needs_exponent(*x as f64) => fmt::LowerExp::fmt(x, f),
+            Value::Double(x) if needs_exponent(*x) => fmt::LowerExp::fmt(x, f),
             Value::Float(x) => x.fmt(f),
             Value::Double(x) => x.fmt(f),
             // MySQL takes `0x` without digits for an identifier
-- 
2.43.0


From 9ac396bc6feaf0ee3a79b6ad2a72073fe9d09627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:16 +0000
Subject: [PATCH 32/36] fix: a greeting with unknown status flags is accepted,
 like OK packets are

---
 src/connection/packets/handshake.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection/packets/handshake.rs b/src/connection/packets/handshake.rs
index 0d1c338..66ae8b9 100644
--- a/src/connection/packets/handshake.rs
+++ b/src/connection/packets/handshake.rs
@@ -36,7 +36,7 @@ impl<'de> Deserialize<'de> for HandshakePacket<'de> {
         buf.skip(1);
         let capabilities_bits_1 = <u32 as HalfInteger>::deserialize_lower(buf)?;
         let default_collation = buf.parse_unchecked(())?;
-        let status_flags = buf.parse_unchecked(())?;
+        let status_flags = StatusFlags::from_bits_truncate(buf.parse_unchecked(())?);
         let capabilities_bits_2 = <u32 as HalfInteger>::deserialize_upper(buf)?;
         let auth_plugin_data_len: u8 = buf.parse_unchecked(())?;
         buf.skip(10);
-- 
2.43.0


From 279c3ca70ef54f86bc4dd7ef73843a98b891be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:07 +0000
Subject: [PATCH 33/36] fix: prepared statements are closed on the server

---
 src/connection/init.rs               |  1 +
 src/connection/io.rs                 | 12 +++++++++++-
 src/connection/mod.rs                |  2 ++
 src/connection/packets/stmt_close.rs |  1 -
 src/connection/prepared_statement.rs |  1 +
 src/connection/query.rs              |  1 +
 6 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/connection/init.rs b/src/connection/init.rs
index 9f06720..b350ea1 100644
--- a/src/connection/init.rs
+++ b/src/connection/init.rs
@@ -33,6 +33,7 @@ impl Connection {
             options,
             pending_result: PendingResult::None,
             in_exchange: false,
+            prepared: None,
         };
         this.do_handshake_response().await?;
         this.continue_auth::<T>().await?;
diff --git a/src/connection/io.rs b/src/connection/io.rs
index f047501..a1165f5 100644
--- a/src/connection/io.rs
+++ b/src/connection/io.rs
@@ -1,6 +1,6 @@
 use {
     super::{
-        packets::{ErrPacket, OkPacket},
+        packets::{ErrPacket, OkPacket, StmtClose},
         Connection, ParseBuf, PendingResult, Serialize, BUFFER_POOL, MAX_PAYLOAD_LEN,
     },
     crate::{
@@ -204,6 +204,16 @@ impl Connection {
         Ok(())
     }
 
+    /// Closes the statement that was prepared last. As it borrows the connection, it does not exist
+    /// any more when another one is prepared or a query is made. The server does not answer.
+    pub(super) async fn close_prepared(&mut self) -> Result<(), Error> {
+        if let Some(id) = self.prepared.take() {
+            self.write_struct(&StmtClose::new(id)).await?;
+            self.seq_id = 0;
+        }
+        Ok(())
+    }
+
     pub(super) async fn write_command<S: Serialize>(&mut self, cmd: &S) -> Result<(), Error> {
         self.begin_command().await?;
         self.write_struct(cmd).await
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index ec4da75..66b16e8 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -57,6 +57,8 @@ pub struct Connection {
     /// set when the next one starts, an earlier call was interrupted or failed and the position
     /// in the stream is unknown.
     in_exchange: bool,
+    /// The prepared statement that the server keeps.
+    prepared: Option<u32>,
 }
 
 /// What the server will send before it waits for the next command.
diff --git a/src/connection/packets/stmt_close.rs b/src/connection/packets/stmt_close.rs
index 5b2556e..100be62 100644
--- a/src/connection/packets/stmt_close.rs
+++ b/src/connection/packets/stmt_close.rs
@@ -6,7 +6,6 @@ pub struct StmtClose {
 }
 
 impl StmtClose {
-    #[allow(dead_code)]
     pub fn new(stmt_id: u32) -> Self {
         Self { stmt_id }
     }
diff --git a/src/connection/prepared_statement.rs b/src/connection/prepared_statement.rs
index 0326526..a4b953f 100644
--- a/src/connection/prepared_statement.rs
+++ b/src/connection/prepared_statement.rs
@@ -54,6 +54,7 @@ impl Connection {
             }
             _ => return Err(ProtocolError::unexpected_packet(Vec::clone(&packet), None).into()),
         };
+        self.prepared = Some(stmt.id);
 
         for count in [stmt.params_len, stmt.columns_len] {
             for _ in 0..count {
diff --git a/src/connection/query.rs b/src/connection/query.rs
index 975b811..2573c98 100644
--- a/src/connection/query.rs
+++ b/src/connection/query.rs
@@ -35,6 +35,7 @@ impl Connection {
         body.push(cmd as u8);
         body.extend_from_slice(data.as_ref());
         self.begin_command().await?;
+        self.close_prepared().await?;
         self.write_packet(&buf).await
     }
 
-- 
2.43.0


From eaa2e97a101457758bf5a8e7220342935fbab373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:47 +0000
Subject: [PATCH 34/36] fix: Hex can be deserialized from formats that do not
 lend their text

---
 src/types/hex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/hex.rs b/src/types/hex.rs
index 0d8d59d..3c93aeb 100644
--- a/src/types/hex.rs
+++ b/src/types/hex.rs
@@ -74,8 +74,8 @@ impl<'de> serde::Deserialize<'de> for Hex {
     where
         D: serde::Deserializer<'de>,
     {
-        let hex = <&str as serde::Deserialize>::deserialize(deserializer)?;
-        <Hex as std::str::FromStr>::from_str(hex).map_err(<D::Error as serde::de::Error>::custom)
+        let hex = <String as serde::Deserialize>::deserialize(deserializer)?;
+        <Hex as std::str::FromStr>::from_str(&hex).map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0


From deb35e57de8806364e975c65271f81f48c685330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:34 +0000
Subject: [PATCH 35/36] fix: elements of returned buffers are dropped

---
 src/pool/sync_pool.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pool/sync_pool.rs b/src/pool/sync_pool.rs
index 4cd322a..ae72917 100644
--- a/src/pool/sync_pool.rs
+++ b/src/pool/sync_pool.rs
@@ -58,9 +58,7 @@ impl<T> SyncPoolContent for Vec<T> {
     }
 
     fn reset(&mut self, ctx: &Self::Ctx) {
-        unsafe {
-            self.set_len(0);
-        }
+        self.clear();
         self.shrink_to(ctx.size_cap);
     }
 }
-- 
2.43.0


From 5dcf4aec5129a0c263a5f5f6248a32a0f8204f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:55 +0000
Subject: [PATCH 36/36] fix: fields named by raw identifiers map to the columns
 they name

---
 macros/src/lib.rs   | 66 +++++++++++++++++++++++++++------------------
 macros/src/parse.rs | 13 ++++++---
 2 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 4c55e41..1ecad04 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -38,6 +38,14 @@ impl Error {
     }
 }
 
+fn column_names(fields: &[NamedField], filter: fn(&NamedField) -> bool) -> Vec<String> {
+    fields
+        .iter()
+        .filter(|x| filter(x))
+        .map(NamedField::name)
+        .collect()
+}
+
 #[proc_macro_derive(ModelData, attributes(mysql_connector))]
 pub fn derive_model_data(input: TokenStream) -> TokenStream {
     let mut error = Error::empty();
@@ -88,6 +96,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
         .filter(TypeComplexity::simple_ref)
         .map(|x| &x.ident)
         .collect();
+    let simple_column_names = column_names(&fields, TypeComplexity::simple);
     let mut struct_field_names = Vec::new();
     let mut set_struct_fields = proc_macro2::TokenStream::new();
     for field in &fields {
@@ -126,20 +135,13 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
     let set_mapping = {
         let mut set_child_mapping = proc_macro2::TokenStream::new();
 
-        for (
-            i,
-            NamedField {
-                complexity: _,
-                //vis: _,
-                ident,
-                ty: _,
-            },
-        ) in fields
+        for (i, field) in fields
             .iter()
             .filter(TypeComplexity::complex_ref)
             .enumerate()
         {
-            let name = ident.to_string();
+            let ident = &field.ident;
+            let name = field.name();
             let name_with_point = name.clone() + ".";
             let len = name_with_point.as_bytes().len();
             let maybe_else = if i == 0 { None } else { Some(quote!(else)) };
@@ -156,7 +158,7 @@ pub fn derive_from_query_result(input: TokenStream) -> TokenStream {
 
         let set_own_mapping = quote! {
             *match column.org_name() {
-                #(stringify!(#simple_field_names) => &mut self.#simple_field_names,)*
+                #(#simple_column_names => &mut self.#simple_field_names,)*
                 #(stringify!(#struct_field_names) => &mut self.#struct_field_names,)*
                 _ => return,
             } = Some(index);
@@ -217,7 +219,13 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
     let primary = match attr_span {
         Some(span) => match attrs.get("primary") {
             Some(primary) => match attrs.get("auto_increment") {
-                Some(ai) => Some((format_ident!("{primary}"), ai == "true")),
+                Some(ai) => {
+                    let ident = match fields.iter().find(|field| field.name() == *primary) {
+                        Some(field) => field.ident.clone(),
+                        None => format_ident!("{primary}"),
+                    };
+                    Some((ident, ai == "true"))
+                }
                 None => {
                     error.add(
                         span,
@@ -243,7 +251,7 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             let names = r#struct
                 .fields
                 .iter()
-                .map(|(_, x)| format_ident!("{ident}_{x}"));
+                .map(|(_, x)| format_ident!("{}_{}", ident, x));
             insert_struct_fields = quote! {
                 #insert_struct_fields
                 match self.#ident {
@@ -315,6 +323,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
         .map(|x| &x.ty)
         .collect();
 
+    let simple_column_names = column_names(&fields, TypeComplexity::simple);
+    let complex_column_names = column_names(&fields, TypeComplexity::complex);
+
     let ident = &input.ident;
     let model_ident = format_ident!("{ident}ActiveModel");
 
@@ -330,9 +341,9 @@ pub fn derive_active_model(input: TokenStream) -> TokenStream {
             impl mysql_connector::model::ActiveModel<#ident> for #model_ident {
                 async fn into_values(self, conn: &mut mysql_connector::Connection) -> Result<Vec<mysql_connector::model::NamedValue>, mysql_connector::error::Error> {
                     let mut values = Vec::new();
-                    #(self.#simple_field_names.insert_named_value(&mut values, stringify!(#simple_field_names))?;)*
+                    #(self.#simple_field_names.insert_named_value(&mut values, #simple_column_names)?;)*
                     #insert_struct_fields
-                    #(self.#complex_field_names.insert_named_value(&mut values, stringify!(#complex_field_names), conn).await?;)*
+                    #(self.#complex_field_names.insert_named_value(&mut values, #complex_column_names, conn).await?;)*
                     Ok(values)
                 }
 
@@ -372,21 +383,23 @@ pub fn derive_into_query(input: TokenStream) -> TokenStream {
     let mut simple_field_names: Vec<LitStr> = fields
         .iter()
         .filter(TypeComplexity::simple_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.name(), x.ident.span()))
         .collect();
     for field in &fields {
         if let TypeComplexity::Struct(r#struct) = &field.complexity {
-            let mapping_names = r#struct
-                .fields
-                .iter()
-                .map(|x| LitStr::new(&format!("{}_{}", field.ident, x.1), field.ident.span()));
+            let mapping_names = r#struct.fields.iter().map(|x| {
+                LitStr::new(
+                    &format_ident!("{}_{}", field.ident, x.1).to_string(),
+                    field.ident.span(),
+                )
+            });
             simple_field_names.extend(mapping_names);
         }
     }
     let complex_field_names: &Vec<LitStr> = &fields
         .iter()
         .filter(TypeComplexity::complex_ref)
-        .map(|x| LitStr::new(&x.ident.to_string(), x.ident.span()))
+        .map(|x| LitStr::new(&x.name(), x.ident.span()))
         .collect();
     let complex_field_types: &Vec<&Type> = &fields
         .iter()
@@ -419,12 +432,12 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let (attr_span, attrs, types) = parse_attr(&mut error, input.ident.span(), &input.attrs);
     let fields = parse_fields(&mut error, input.ident.span(), &input.data, &types);
 
-    let mut primary_type = None;
+    let mut primary_field = None;
     let mut auto_increment = false;
     if let Some(span) = attr_span {
         match attrs.get("primary") {
-            Some(primary) => match fields.iter().find(|field| field.ident == primary) {
-                Some(field) => primary_type = Some(&field.ty),
+            Some(primary) => match fields.iter().find(|field| field.name() == *primary) {
+                Some(field) => primary_field = Some(field),
                 None => error.add(span, "primary not found in struct"),
             },
             None => error.add(
@@ -446,8 +459,9 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     }
 
     let primary = attrs.get("primary").unwrap();
-    let primary_type = primary_type.unwrap();
-    let primary_ident = Ident::new(primary, Span::call_site());
+    let primary_field = primary_field.unwrap();
+    let primary_type = &primary_field.ty;
+    let primary_ident = &primary_field.ident;
     let ident = &input.ident;
 
     quote! {
diff --git a/macros/src/parse.rs b/macros/src/parse.rs
index a0d70c6..b411123 100644
--- a/macros/src/parse.rs
+++ b/macros/src/parse.rs
@@ -3,9 +3,9 @@ use {
     proc_macro2::Span,
     std::collections::HashMap,
     syn::{
-        punctuated::Punctuated, spanned::Spanned, token, Attribute, Data, Expr, ExprLit,
-        GenericArgument, Ident, Lit, Member, MetaNameValue, Path, PathArguments, PathSegment,
-        Token, Type, TypePath,
+        ext::IdentExt, punctuated::Punctuated, spanned::Spanned, token, Attribute, Data, Expr,
+        ExprLit, GenericArgument, Ident, Lit, Member, MetaNameValue, Path, PathArguments,
+        PathSegment, Token, Type, TypePath,
     },
 };
 
@@ -16,6 +16,13 @@ pub struct NamedField {
     pub ty: Type,
 }
 
+impl NamedField {
+    /// The name of the column, which is the same for `name` and `r#name`.
+    pub fn name(&self) -> String {
+        self.ident.unraw().to_string()
+    }
+}
+
 pub fn parse_fields(
     error: &mut Error,
     span: Span,
-- 
2.43.0

