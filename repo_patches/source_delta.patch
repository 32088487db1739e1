From bceef37993de074c655833da5cfc14c1667767ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 01/19] verif: guarded hooks (cfg skyverif) for out-of-tree
 solver harnesses

---
 server/src/engine/core/dml/mod.rs                          | 5 +++++
 server/src/engine/core/dml/upd.rs                          | 5 +++++
 server/src/engine/core/index/mod.rs                        | 5 +++++
 server/src/engine/core/mod.rs                              | 5 +++++
 server/src/engine/core/model/mod.rs                        | 5 +++++
 server/src/engine/data/mod.rs                              | 5 +++++
 server/src/engine/idx/mod.rs                               | 5 +++++
 server/src/engine/mem/mod.rs                               | 5 +++++
 server/src/engine/mod.rs                                   | 5 +++++
 server/src/engine/net/protocol/mod.rs                      | 5 +++++
 server/src/engine/ql/lex/mod.rs                            | 5 +++++
 server/src/engine/ql/mod.rs                                | 5 +++++
 server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs | 5 +++++
 server/src/engine/storage/common_encoding/r1/mod.rs        | 5 +++++
 server/src/engine/storage/mod.rs                           | 5 +++++
 15 files changed, 75 insertions(+)

diff --git a/server/src/engine/core/dml/mod.rs b/server/src/engine/core/dml/mod.rs
index 5d7cc1f..2b96d72 100644
--- a/server/src/engine/core/dml/mod.rs
+++ b/server/src/engine/core/dml/mod.rs
@@ -86,3 +86,8 @@ impl QueryExecMeta {
         self.delta_hint
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_dml.rs"));
+}
diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index d8af4f8..b4bbccf 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -373,3 +373,8 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
         ret
     })
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_dml_upd.rs"));
+}
diff --git a/server/src/engine/core/index/mod.rs b/server/src/engine/core/index/mod.rs
index a6df689..c7b8687 100644
--- a/server/src/engine/core/index/mod.rs
+++ b/server/src/engine/core/index/mod.rs
@@ -93,3 +93,8 @@ impl IndexLatch {
         IndexLatchHandleExclusive(self.glck.write())
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_index.rs"));
+}
diff --git a/server/src/engine/core/mod.rs b/server/src/engine/core/mod.rs
index 40bc540..996c11b 100644
--- a/server/src/engine/core/mod.rs
+++ b/server/src/engine/core/mod.rs
@@ -197,3 +197,8 @@ where
         compiler::cold_call(|| Err(QueryError::SysServerError))
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core.rs"));
+}
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 3d24e4d..d641277 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -782,3 +782,8 @@ unsafe fn vt_list(_: Layer, _: &mut Datacell) -> bool {
     layertrace("list");
     true
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_model.rs"));
+}
diff --git a/server/src/engine/data/mod.rs b/server/src/engine/data/mod.rs
index be15bd3..0daec5a 100644
--- a/server/src/engine/data/mod.rs
+++ b/server/src/engine/data/mod.rs
@@ -34,3 +34,8 @@ pub mod uuid;
 mod tests;
 
 pub use dict::{DictEntryGeneric, DictGeneric};
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/data.rs"));
+}
diff --git a/server/src/engine/idx/mod.rs b/server/src/engine/idx/mod.rs
index 9450acc..455d71f 100644
--- a/server/src/engine/idx/mod.rs
+++ b/server/src/engine/idx/mod.rs
@@ -363,3 +363,8 @@ pub trait STIndexSeq<K, V>: STIndex<K, V> {
     fn stseq_owned_keys(self) -> Self::OwnedIterKeys;
     fn stseq_owned_values(self) -> Self::OwnedIterValues;
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/idx.rs"));
+}
diff --git a/server/src/engine/mem/mod.rs b/server/src/engine/mem/mod.rs
index 844fac8..1ddf2a7 100644
--- a/server/src/engine/mem/mod.rs
+++ b/server/src/engine/mem/mod.rs
@@ -130,3 +130,8 @@ impl<const N: usize, T> StatelessLen for UArray<N, T> {
         self.len()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem.rs"));
+}
diff --git a/server/src/engine/mod.rs b/server/src/engine/mod.rs
index 101ee06..eeeb83d 100644
--- a/server/src/engine/mod.rs
+++ b/server/src/engine/mod.rs
@@ -198,3 +198,8 @@ pub fn finish(g: fractal::Global) {
         g.unload_all();
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/engine.rs"));
+}
diff --git a/server/src/engine/net/protocol/mod.rs b/server/src/engine/net/protocol/mod.rs
index c1745ea..02c3d0a 100644
--- a/server/src/engine/net/protocol/mod.rs
+++ b/server/src/engine/net/protocol/mod.rs
@@ -353,3 +353,8 @@ fn scan_int(s: &mut BufferedScanner, acc: u64) -> Result<AccumlatorStatus, ()> {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/net_protocol.rs"));
+}
diff --git a/server/src/engine/ql/lex/mod.rs b/server/src/engine/ql/lex/mod.rs
index f44a297..5d46d06 100644
--- a/server/src/engine/ql/lex/mod.rs
+++ b/server/src/engine/ql/lex/mod.rs
@@ -503,3 +503,8 @@ static SCAN_PARAM: [unsafe fn(&mut SecureLexer); 8] = unsafe {
         |s| s.l.set_error(QueryError::LexInvalidInput),
     ]
 };
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/ql_lex.rs"));
+}
diff --git a/server/src/engine/ql/mod.rs b/server/src/engine/ql/mod.rs
index a05c924..6383e41 100644
--- a/server/src/engine/ql/mod.rs
+++ b/server/src/engine/ql/mod.rs
@@ -33,3 +33,8 @@ pub(super) mod dml;
 pub(super) mod lex;
 #[cfg(test)]
 pub(in crate::engine) mod tests;
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/ql.rs"));
+}
diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
index 2143a38..f35b533 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
@@ -478,3 +478,8 @@ impl<Sfs: SimpleFileSpecV1> FileSpecV1 for Sfs {
         f.fwrite_all(&block).map(|_| md)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/storage_sdss.rs"));
+}
diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index 56ee59f..623ea16 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -281,3 +281,8 @@ pub mod dec {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/storage_r1.rs"));
+}
diff --git a/server/src/engine/storage/mod.rs b/server/src/engine/storage/mod.rs
index 2bec1cf..d8da799 100644
--- a/server/src/engine/storage/mod.rs
+++ b/server/src/engine/storage/mod.rs
@@ -80,3 +80,8 @@ pub fn load(cfg: &Configuration) -> RuntimeResult<SELoaded> {
         v2::restore(cfg)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/storage.rs"));
+}
-- 
2.43.0


From dde48669911003d23a9d7e852e08d40126bc8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 02/19] fix: handshake with several invalid fields indexed out
 of the error table

The error index was built by OR-ing the (1-based) positions of all invalid
fields, so combinations produced either an unrelated error or an index past
the end of the table, panicking the connection task (any HTTP request did).
Report the first invalid field instead.
---
 server/src/engine/net/protocol/handshake.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 29a798d..4e35fc9 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -305,15 +305,14 @@ impl<'a> CHandshake<'a> {
                 ProtocolError::RejectQueryMode,
                 ProtocolError::RejectAuth,
             ];
-            return HandshakeResult::Error(
-                ERROR[((invalid_first_byte as u8 * 1)
-                    | (invalid_hs_version as u8 * 2)
-                    | (invalid_proto_version as u8 * 3)
-                    | (invalid_exchange_mode as u8 * 4)
-                    | (invalid_query_mode as u8 * 5)
-                    | (invalid_auth_mode as u8) * 6) as usize
-                    - 1usize],
-            );
+            // report the first field that is invalid
+            let flags = (invalid_first_byte as u8)
+                | (invalid_hs_version as u8) << 1
+                | (invalid_proto_version as u8) << 2
+                | (invalid_exchange_mode as u8) << 3
+                | (invalid_query_mode as u8) << 4
+                | (invalid_auth_mode as u8) << 5;
+            return HandshakeResult::Error(ERROR[flags.trailing_zeros() as usize]);
         }
         // init header
         let static_header = CHandshakeStatic::new(
-- 
2.43.0


From 6b57dbddf5257dd7126cbb33cf91439b038b8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 03/19] fix: handshake username/password length sum could
 overflow

A client announcing lengths whose sum exceeds usize::MAX made the size check
wrap (release) and the parser then built slices past the end of the buffer, or
panicked (debug). Reject such a handshake as corrupted.
---
 server/src/engine/net/protocol/handshake.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/net/protocol/handshake.rs b/server/src/engine/net/protocol/handshake.rs
index 4e35fc9..cb02f0c 100644
--- a/server/src/engine/net/protocol/handshake.rs
+++ b/server/src/engine/net/protocol/handshake.rs
@@ -334,7 +334,10 @@ impl<'a> CHandshake<'a> {
         uname_l: usize,
         pwd_l: usize,
     ) -> HandshakeResult<'a> {
-        if scanner.has_left(uname_l + pwd_l) {
+        let Some(payload_l) = uname_l.checked_add(pwd_l) else {
+            return HandshakeResult::Error(ProtocolError::CorruptedHSPacket);
+        };
+        if scanner.has_left(payload_l) {
             // we're done here
             return unsafe {
                 // UNSAFE(@ohsayan): we just checked buffered size
@@ -349,7 +352,7 @@ impl<'a> CHandshake<'a> {
                 uname_l,
                 pwd_l,
             },
-            expect: (uname_l + pwd_l),
+            expect: payload_l,
         }
     }
 }
@@ -401,7 +404,7 @@ impl<'a> CHandshake<'a> {
                 // newline missing (or maybe there's more?)
                 return HandshakeResult::ChangeState {
                     new_state: HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l },
-                    expect: uname_l + 2, // space for username + password len
+                    expect: uname_l.saturating_add(2), // space for username + password len
                 };
             }
             ScannerDecodeResult::Error => {
-- 
2.43.0


From 4a08661e912b5264f7a836adc2805d90195b0bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:49 +0000
Subject: [PATCH 04/19] fix: malformed simple-query packets could panic or
 stall a connection

The packet size was added to the cursor without an overflow check, a packet
size smaller than the query-window field underflowed, and a query window larger
than the dataframe made the query/params slices panic. Reject all of these as
illegal packets. The debug assertion on the resumed buffer now looks at the
whole buffer instead of at what is left after the cursor (which is legitimately
shorter when a length field is split across reads).
---
 server/src/engine/net/protocol/exchange.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 7522b97..8eada16 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -170,7 +170,7 @@ impl QExchangeState {
         new_buffer.len() >= self.target
     }
     fn resume<'a>(self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        debug_assert!(scanner.has_left(Self::MIN_READ));
+        debug_assert!(scanner.buffer_len() >= Self::MIN_READ);
         match self.state {
             QExchangeStateInternal::Initial => self.start_initial(scanner),
             QExchangeStateInternal::PendingMeta1 => self.resume_at_md1(scanner),
@@ -199,7 +199,10 @@ impl QExchangeState {
             Err(()) => return QExchangeResult::Error,
         };
         self.md_packet_size = packet_size;
-        self.target = scanner.cursor() + packet_size as usize;
+        self.target = match scanner.cursor().checked_add(packet_size as usize) {
+            Some(target) => target,
+            None => return QExchangeResult::Error,
+        };
         // hand over control to md2
         self.resume_at_md2(scanner)
     }
@@ -218,7 +221,11 @@ impl QExchangeState {
         self.resume_data(scanner)
     }
     fn resume_data<'a>(mut self, scanner: &mut BufferedScanner<'a>) -> QExchangeResult<'a> {
-        let df_size = self.target - scanner.cursor();
+        let df_size = match self.target.checked_sub(scanner.cursor()) {
+            // the query must be within the dataframe
+            Some(df_size) if self.md_q_window <= df_size as u64 => df_size,
+            _ => return QExchangeResult::Error,
+        };
         if scanner.remaining() == df_size {
             unsafe {
                 QExchangeResult::SQCompleted(SQuery::new(
-- 
2.43.0


From 6b27d1b74f1dd6941444dc1611163c36bb1cf53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 05/19] fix: corrupted length in a stored bin/str cell read
 past the end of the buffer

---
 server/src/engine/storage/common_encoding/r1/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index 623ea16..e011b58 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -69,7 +69,8 @@ impl<'a> DataSource for BufferedScanner<'a> {
         Ok(self.next_u64_le())
     }
     unsafe fn read_next_variable_block(&mut self, size: usize) -> Result<Vec<u8>, Self::Error> {
-        Ok(self.next_chunk_variable(size).into())
+        // a corrupted length must never make us read past the end of the source
+        self.try_next_variable_block(size).map(Vec::from).ok_or(())
     }
 }
 
-- 
2.43.0


From 809dd08c033cf62aeb7774ae7d2c6ac8f12d8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 06/19] verif: more guarded hooks (cfg skyverif)

---
 server/src/engine/config.rs                                  | 5 +++++
 server/src/engine/core/dcl.rs                                | 5 +++++
 server/src/engine/core/dml/ins.rs                            | 5 +++++
 server/src/engine/core/dml/sel.rs                            | 5 +++++
 server/src/engine/core/exec.rs                               | 5 +++++
 server/src/engine/core/index/key.rs                          | 5 +++++
 server/src/engine/core/index/row.rs                          | 5 +++++
 server/src/engine/core/model/alt.rs                          | 5 +++++
 server/src/engine/core/model/delta.rs                        | 5 +++++
 server/src/engine/core/space.rs                              | 5 +++++
 server/src/engine/core/system_db.rs                          | 5 +++++
 server/src/engine/core/util.rs                               | 5 +++++
 server/src/engine/data/cell.rs                               | 5 +++++
 server/src/engine/data/dict.rs                               | 5 +++++
 server/src/engine/data/lit.rs                                | 5 +++++
 server/src/engine/error.rs                                   | 5 +++++
 server/src/engine/fractal/mgr.rs                             | 5 +++++
 server/src/engine/fractal/mod.rs                             | 5 +++++
 server/src/engine/idx/mtchm/mod.rs                           | 5 +++++
 server/src/engine/idx/stord/mod.rs                           | 5 +++++
 server/src/engine/mem/astr.rs                                | 5 +++++
 server/src/engine/mem/fixed_vec.rs                           | 5 +++++
 server/src/engine/mem/ll.rs                                  | 5 +++++
 server/src/engine/mem/numbuf.rs                              | 5 +++++
 server/src/engine/mem/rawslice.rs                            | 5 +++++
 server/src/engine/mem/scanner.rs                             | 5 +++++
 server/src/engine/mem/uarray.rs                              | 5 +++++
 server/src/engine/mem/vinline.rs                             | 5 +++++
 server/src/engine/mem/word.rs                                | 5 +++++
 server/src/engine/net/protocol/exchange.rs                   | 5 +++++
 server/src/engine/ql/ast/mod.rs                              | 5 +++++
 server/src/engine/ql/dcl.rs                                  | 5 +++++
 server/src/engine/ql/ddl/mod.rs                              | 5 +++++
 server/src/engine/ql/dml/mod.rs                              | 5 +++++
 server/src/engine/storage/common/checksum.rs                 | 5 +++++
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs    | 5 +++++
 .../src/engine/storage/common_encoding/r1/impls/gns/mod.rs   | 5 +++++
 .../src/engine/storage/common_encoding/r1/impls/gns/model.rs | 5 +++++
 server/src/engine/storage/common_encoding/r1/obj.rs          | 5 +++++
 server/src/engine/storage/common_encoding/r2.rs              | 5 +++++
 server/src/engine/storage/v2/impls/gns_log.rs                | 5 +++++
 server/src/engine/storage/v2/impls/mdl_journal.rs            | 5 +++++
 server/src/engine/storage/v2/raw/journal/mod.rs              | 5 +++++
 server/src/engine/storage/v2/raw/journal/raw/mod.rs          | 5 +++++
 server/src/engine/txn/gns/mod.rs                             | 5 +++++
 45 files changed, 225 insertions(+)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 9c1e8ee..6af0ffd 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -1187,3 +1187,8 @@ fn check_config_file(
         return Err(ConfigError::with_src(ConfigSource::Cli, ConfigErrorKind::Conflict).into());
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/config.rs"));
+}
diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index bac0c3e..95ae2ff 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -111,3 +111,8 @@ fn drop_user(
         .sys_db()
         .drop_user(global, user_del.username())
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_dcl.rs"));
+}
diff --git a/server/src/engine/core/dml/ins.rs b/server/src/engine/core/dml/ins.rs
index 307f81e..f25efd4 100644
--- a/server/src/engine/core/dml/ins.rs
+++ b/server/src/engine/core/dml/ins.rs
@@ -138,3 +138,8 @@ fn prepare_insert(
         Err(QueryError::QExecDmlValidationError)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_dml_ins.rs"));
+}
diff --git a/server/src/engine/core/dml/sel.rs b/server/src/engine/core/dml/sel.rs
index ea88458..26f20cd 100644
--- a/server/src/engine/core/dml/sel.rs
+++ b/server/src/engine/core/dml/sel.rs
@@ -263,3 +263,8 @@ impl<'g> Iterator for RowIteratorAll<'g> {
         self._next()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_dml_sel.rs"));
+}
diff --git a/server/src/engine/core/exec.rs b/server/src/engine/core/exec.rs
index 557894b..33dcb12 100644
--- a/server/src/engine/core/exec.rs
+++ b/server/src/engine/core/exec.rs
@@ -272,3 +272,8 @@ fn run_nb(
         F[corrected_offset as usize](global, cstate, &mut state)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_exec.rs"));
+}
diff --git a/server/src/engine/core/index/key.rs b/server/src/engine/core/index/key.rs
index 351284f..e760852 100644
--- a/server/src/engine/core/index/key.rs
+++ b/server/src/engine/core/index/key.rs
@@ -395,3 +395,8 @@ fn empty_slice() {
     assert_eq!(pk2, pk2_);
     drop((pk2, pk2_));
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_index_key.rs"));
+}
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 656422d..2283bde 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -214,3 +214,8 @@ impl Drop for Row {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_index_row.rs"));
+}
diff --git a/server/src/engine/core/model/alt.rs b/server/src/engine/core/model/alt.rs
index 90421d0..1d65d7b 100644
--- a/server/src/engine/core/model/alt.rs
+++ b/server/src/engine/core/model/alt.rs
@@ -326,3 +326,8 @@ impl ModelData {
             })
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_model_alt.rs"));
+}
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 84e2aaa..2cc4504 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -236,3 +236,8 @@ pub enum DataDeltaKind {
     Insert = 1,
     Update = 2,
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_model_delta.rs"));
+}
diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index 30c3174..bb84dbf 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -323,3 +323,8 @@ impl Space {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_space.rs"));
+}
diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index 27e5321..e262477 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -181,3 +181,8 @@ impl SystemDatabase {
         Ok(())
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_system_db.rs"));
+}
diff --git a/server/src/engine/core/util.rs b/server/src/engine/core/util.rs
index 7693545..d69fdf5 100644
--- a/server/src/engine/core/util.rs
+++ b/server/src/engine/core/util.rs
@@ -150,3 +150,8 @@ impl<'a> From<(&'a str, &'a str)> for EntityIDRef<'a> {
         Self::new(s, e)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/core_util.rs"));
+}
diff --git a/server/src/engine/data/cell.rs b/server/src/engine/data/cell.rs
index af67c50..778c8d5 100644
--- a/server/src/engine/data/cell.rs
+++ b/server/src/engine/data/cell.rs
@@ -570,3 +570,8 @@ fn empty_slice() {
     assert_eq!(dc2, Datacell::new_str("".into()));
     drop(dc2);
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/data_cell.rs"));
+}
diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index fe79c9b..b9a0957 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -205,3 +205,8 @@ direct_from! {
         DictGeneric as Map,
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/data_dict.rs"));
+}
diff --git a/server/src/engine/data/lit.rs b/server/src/engine/data/lit.rs
index e47ad12..4b1b562 100644
--- a/server/src/engine/data/lit.rs
+++ b/server/src/engine/data/lit.rs
@@ -415,3 +415,8 @@ fn token_array_lt_test() {
     drop(select_stmt);
     drop(tokens);
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/data_lit.rs"));
+}
diff --git a/server/src/engine/error.rs b/server/src/engine/error.rs
index 6997f14..0d4c1a8 100644
--- a/server/src/engine/error.rs
+++ b/server/src/engine/error.rs
@@ -223,3 +223,8 @@ enumerate_err! {
         RawJournalRuntimeCriticalLwtHBFail = "journal-lwt-heartbeat-failed",
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/error.rs"));
+}
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 71fb33c..6d7e2f9 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -558,3 +558,8 @@ impl FractalMgr {
             })
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/fractal_mgr.rs"));
+}
diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index f153ab7..b4a0d43 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -375,3 +375,8 @@ impl ModelUniqueID {
         self.uuid
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/fractal.rs"));
+}
diff --git a/server/src/engine/idx/mtchm/mod.rs b/server/src/engine/idx/mtchm/mod.rs
index bfd0210..ee1fb37 100644
--- a/server/src/engine/idx/mtchm/mod.rs
+++ b/server/src/engine/idx/mtchm/mod.rs
@@ -765,3 +765,8 @@ where
         f.debug_map().entries(self.iter_kv(&g)).finish()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/idx_mtchm.rs"));
+}
diff --git a/server/src/engine/idx/stord/mod.rs b/server/src/engine/idx/stord/mod.rs
index 11a3120..0ae0af5 100644
--- a/server/src/engine/idx/stord/mod.rs
+++ b/server/src/engine/idx/stord/mod.rs
@@ -820,3 +820,8 @@ impl<K, V, C: Config<K, V>> StatelessLen for IndexSTSeqDll<K, V, C> {
         self.len()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/idx_stord.rs"));
+}
diff --git a/server/src/engine/mem/astr.rs b/server/src/engine/mem/astr.rs
index 6b4052b..ca979ad 100644
--- a/server/src/engine/mem/astr.rs
+++ b/server/src/engine/mem/astr.rs
@@ -172,3 +172,8 @@ impl<const N: usize> Borrow<[u8]> for AStr<N> {
         self._as_bytes()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_astr.rs"));
+}
diff --git a/server/src/engine/mem/fixed_vec.rs b/server/src/engine/mem/fixed_vec.rs
index c6baa8c..a4dd6da 100644
--- a/server/src/engine/mem/fixed_vec.rs
+++ b/server/src/engine/mem/fixed_vec.rs
@@ -225,3 +225,8 @@ fn clear_range() {
     );
     assert_eq!(x.len(), 50);
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_fixed_vec.rs"));
+}
diff --git a/server/src/engine/mem/ll.rs b/server/src/engine/mem/ll.rs
index b8ed986..932ba85 100644
--- a/server/src/engine/mem/ll.rs
+++ b/server/src/engine/mem/ll.rs
@@ -101,3 +101,8 @@ impl<T> DerefMut for CachePadded<T> {
         &mut self.data
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_ll.rs"));
+}
diff --git a/server/src/engine/mem/numbuf.rs b/server/src/engine/mem/numbuf.rs
index 7f0dc7e..0be4882 100644
--- a/server/src/engine/mem/numbuf.rs
+++ b/server/src/engine/mem/numbuf.rs
@@ -172,3 +172,8 @@ mod tests {
         ibufeq(i64::MAX);
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_numbuf.rs"));
+}
diff --git a/server/src/engine/mem/rawslice.rs b/server/src/engine/mem/rawslice.rs
index f0faf01..1a82006 100644
--- a/server/src/engine/mem/rawslice.rs
+++ b/server/src/engine/mem/rawslice.rs
@@ -156,3 +156,8 @@ impl<T> Deref for RawSlice<T> {
         self.as_slice()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_rawslice.rs"));
+}
diff --git a/server/src/engine/mem/scanner.rs b/server/src/engine/mem/scanner.rs
index 2f2a2f0..8277972 100644
--- a/server/src/engine/mem/scanner.rs
+++ b/server/src/engine/mem/scanner.rs
@@ -423,3 +423,8 @@ impl<'a> Scanner<'a, u8> {
         r
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_scanner.rs"));
+}
diff --git a/server/src/engine/mem/uarray.rs b/server/src/engine/mem/uarray.rs
index 83f00a5..d887f8f 100644
--- a/server/src/engine/mem/uarray.rs
+++ b/server/src/engine/mem/uarray.rs
@@ -300,3 +300,8 @@ impl<const N: usize, T> IntoIterator for UArray<N, T> {
         Self::IntoIter { d: self, i: 0, l }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_uarray.rs"));
+}
diff --git a/server/src/engine/mem/vinline.rs b/server/src/engine/mem/vinline.rs
index dccb06e..9e08d7b 100644
--- a/server/src/engine/mem/vinline.rs
+++ b/server/src/engine/mem/vinline.rs
@@ -392,3 +392,8 @@ impl<const N: usize, T> IntoIterator for VInline<N, T> {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_vinline.rs"));
+}
diff --git a/server/src/engine/mem/word.rs b/server/src/engine/mem/word.rs
index 8e77a87..46282a4 100644
--- a/server/src/engine/mem/word.rs
+++ b/server/src/engine/mem/word.rs
@@ -376,3 +376,8 @@ impl<T: DwordNN> WordIO<(usize, *const u8)> for T {
         (a, b as *const u8)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mem_word.rs"));
+}
diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index 8eada16..b9366ac 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -239,3 +239,8 @@ impl QExchangeState {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/exchange.rs"));
+}
diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 5446f58..868050b 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -379,3 +379,8 @@ impl<'a> QueryData<'a> for InplaceData {
         true
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/ql_ast.rs"));
+}
diff --git a/server/src/engine/ql/dcl.rs b/server/src/engine/ql/dcl.rs
index a8ddcba..c81e359 100644
--- a/server/src/engine/ql/dcl.rs
+++ b/server/src/engine/ql/dcl.rs
@@ -171,3 +171,8 @@ impl<'a> UserDel<'a> {
         self.username.as_str()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/ql_dcl.rs"));
+}
diff --git a/server/src/engine/ql/ddl/mod.rs b/server/src/engine/ql/ddl/mod.rs
index a1dd664..66704d1 100644
--- a/server/src/engine/ql/ddl/mod.rs
+++ b/server/src/engine/ql/ddl/mod.rs
@@ -113,3 +113,8 @@ impl<'a> ASTNode<'a> for Inspect<'a> {
         Ok(me)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/ql_ddl.rs"));
+}
diff --git a/server/src/engine/ql/dml/mod.rs b/server/src/engine/ql/dml/mod.rs
index 2c23a82..6af3b25 100644
--- a/server/src/engine/ql/dml/mod.rs
+++ b/server/src/engine/ql/dml/mod.rs
@@ -191,3 +191,8 @@ mod impls {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/ql_dml.rs"));
+}
diff --git a/server/src/engine/storage/common/checksum.rs b/server/src/engine/storage/common/checksum.rs
index d32111f..229503d 100644
--- a/server/src/engine/storage/common/checksum.rs
+++ b/server/src/engine/storage/common/checksum.rs
@@ -73,3 +73,8 @@ impl SCrc64 {
         self.digest.finalize()
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/checksum.rs"));
+}
diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index 11e4410..e616352 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -623,3 +623,8 @@ fn check_vfs_buffering() {
     }
     .unwrap()
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/sdss_rw.rs"));
+}
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
index bf501f4..ff14764 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
@@ -141,3 +141,8 @@ impl<'a> PersistObject for SpaceID<'a> {
         })
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/gns.rs"));
+}
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index faafbab..d639808 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -607,3 +607,8 @@ impl<'a> GNSEvent for DropModelTxn<'a> {
         })
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/gns_model.rs"));
+}
diff --git a/server/src/engine/storage/common_encoding/r1/obj.rs b/server/src/engine/storage/common_encoding/r1/obj.rs
index 2d16c61..c31e704 100644
--- a/server/src/engine/storage/common_encoding/r1/obj.rs
+++ b/server/src/engine/storage/common_encoding/r1/obj.rs
@@ -519,3 +519,8 @@ impl<'a> PersistObject for SpaceLayoutRef<'a> {
         Ok(Space::new_restore_empty(md.uuid, space_meta))
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/storage_r1_obj.rs"));
+}
diff --git a/server/src/engine/storage/common_encoding/r2.rs b/server/src/engine/storage/common_encoding/r2.rs
index bd05e6d..525c46c 100644
--- a/server/src/engine/storage/common_encoding/r2.rs
+++ b/server/src/engine/storage/common_encoding/r2.rs
@@ -235,3 +235,8 @@ impl<'a> PersistObject for DropUserTxn<'a> {
         Ok(DropUserPayload(username.into_boxed_str()))
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/storage_r2.rs"));
+}
diff --git a/server/src/engine/storage/v2/impls/gns_log.rs b/server/src/engine/storage/v2/impls/gns_log.rs
index 6842cdd..424fcdb 100644
--- a/server/src/engine/storage/v2/impls/gns_log.rs
+++ b/server/src/engine/storage/v2/impls/gns_log.rs
@@ -111,3 +111,8 @@ impl<T: GNSEvent> JournalAdapterEvent<EventLogAdapter<GNSEventLog>> for T {
         T::encode_event(self, b)
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/gns_log.rs"));
+}
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 6870eda..67db01e 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -730,3 +730,8 @@ mod restore_impls {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/mdl_journal.rs"));
+}
diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 230849d..969f4d8 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -312,3 +312,8 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/journal.rs"));
+}
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 6a53516..8918d31 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -828,3 +828,8 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
         }
     }
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/journal_raw.rs"));
+}
diff --git a/server/src/engine/txn/gns/mod.rs b/server/src/engine/txn/gns/mod.rs
index e43b6ce..9595423 100644
--- a/server/src/engine/txn/gns/mod.rs
+++ b/server/src/engine/txn/gns/mod.rs
@@ -53,3 +53,8 @@ pub enum GNSTransactionCode {
 pub trait GNSTransaction {
     const CODE: GNSTransactionCode;
 }
+
+#[cfg(skyverif)]
+mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/txn_gns.rs"));
+}
-- 
2.43.0


From 5315d63ba741d98b3a99d73b1d72b89d329f05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 07/19] verif: make guarded hook modules crate-visible

---
 server/src/engine/config.rs                                     | 2 +-
 server/src/engine/core/dcl.rs                                   | 2 +-
 server/src/engine/core/dml/ins.rs                               | 2 +-
 server/src/engine/core/dml/mod.rs                               | 2 +-
 server/src/engine/core/dml/sel.rs                               | 2 +-
 server/src/engine/core/dml/upd.rs                               | 2 +-
 server/src/engine/core/exec.rs                                  | 2 +-
 server/src/engine/core/index/key.rs                             | 2 +-
 server/src/engine/core/index/mod.rs                             | 2 +-
 server/src/engine/core/index/row.rs                             | 2 +-
 server/src/engine/core/mod.rs                                   | 2 +-
 server/src/engine/core/model/alt.rs                             | 2 +-
 server/src/engine/core/model/delta.rs                           | 2 +-
 server/src/engine/core/model/mod.rs                             | 2 +-
 server/src/engine/core/space.rs                                 | 2 +-
 server/src/engine/core/system_db.rs                             | 2 +-
 server/src/engine/core/util.rs                                  | 2 +-
 server/src/engine/data/cell.rs                                  | 2 +-
 server/src/engine/data/dict.rs                                  | 2 +-
 server/src/engine/data/lit.rs                                   | 2 +-
 server/src/engine/data/mod.rs                                   | 2 +-
 server/src/engine/error.rs                                      | 2 +-
 server/src/engine/fractal/mgr.rs                                | 2 +-
 server/src/engine/fractal/mod.rs                                | 2 +-
 server/src/engine/idx/mod.rs                                    | 2 +-
 server/src/engine/idx/mtchm/mod.rs                              | 2 +-
 server/src/engine/idx/stord/mod.rs                              | 2 +-
 server/src/engine/mem/astr.rs                                   | 2 +-
 server/src/engine/mem/fixed_vec.rs                              | 2 +-
 server/src/engine/mem/ll.rs                                     | 2 +-
 server/src/engine/mem/mod.rs                                    | 2 +-
 server/src/engine/mem/numbuf.rs                                 | 2 +-
 server/src/engine/mem/rawslice.rs                               | 2 +-
 server/src/engine/mem/scanner.rs                                | 2 +-
 server/src/engine/mem/uarray.rs                                 | 2 +-
 server/src/engine/mem/vinline.rs                                | 2 +-
 server/src/engine/mem/word.rs                                   | 2 +-
 server/src/engine/mod.rs                                        | 2 +-
 server/src/engine/net/protocol/exchange.rs                      | 2 +-
 server/src/engine/net/protocol/mod.rs                           | 2 +-
 server/src/engine/ql/ast/mod.rs                                 | 2 +-
 server/src/engine/ql/dcl.rs                                     | 2 +-
 server/src/engine/ql/ddl/mod.rs                                 | 2 +-
 server/src/engine/ql/dml/mod.rs                                 | 2 +-
 server/src/engine/ql/lex/mod.rs                                 | 2 +-
 server/src/engine/ql/mod.rs                                     | 2 +-
 server/src/engine/storage/common/checksum.rs                    | 2 +-
 server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs      | 2 +-
 server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs       | 2 +-
 server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs   | 2 +-
 server/src/engine/storage/common_encoding/r1/impls/gns/model.rs | 2 +-
 server/src/engine/storage/common_encoding/r1/mod.rs             | 2 +-
 server/src/engine/storage/common_encoding/r1/obj.rs             | 2 +-
 server/src/engine/storage/common_encoding/r2.rs                 | 2 +-
 server/src/engine/storage/mod.rs                                | 2 +-
 server/src/engine/storage/v2/impls/gns_log.rs                   | 2 +-
 server/src/engine/storage/v2/impls/mdl_journal.rs               | 2 +-
 server/src/engine/storage/v2/raw/journal/mod.rs                 | 2 +-
 server/src/engine/storage/v2/raw/journal/raw/mod.rs             | 2 +-
 server/src/engine/txn/gns/mod.rs                                | 2 +-
 60 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/server/src/engine/config.rs b/server/src/engine/config.rs
index 6af0ffd..9ae0b55 100644
--- a/server/src/engine/config.rs
+++ b/server/src/engine/config.rs
@@ -1189,6 +1189,6 @@ fn check_config_file(
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/config.rs"));
 }
diff --git a/server/src/engine/core/dcl.rs b/server/src/engine/core/dcl.rs
index 95ae2ff..282fdc4 100644
--- a/server/src/engine/core/dcl.rs
+++ b/server/src/engine/core/dcl.rs
@@ -113,6 +113,6 @@ fn drop_user(
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_dcl.rs"));
 }
diff --git a/server/src/engine/core/dml/ins.rs b/server/src/engine/core/dml/ins.rs
index f25efd4..61bd533 100644
--- a/server/src/engine/core/dml/ins.rs
+++ b/server/src/engine/core/dml/ins.rs
@@ -140,6 +140,6 @@ fn prepare_insert(
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_dml_ins.rs"));
 }
diff --git a/server/src/engine/core/dml/mod.rs b/server/src/engine/core/dml/mod.rs
index 2b96d72..3e277b3 100644
--- a/server/src/engine/core/dml/mod.rs
+++ b/server/src/engine/core/dml/mod.rs
@@ -88,6 +88,6 @@ impl QueryExecMeta {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_dml.rs"));
 }
diff --git a/server/src/engine/core/dml/sel.rs b/server/src/engine/core/dml/sel.rs
index 26f20cd..0a41be7 100644
--- a/server/src/engine/core/dml/sel.rs
+++ b/server/src/engine/core/dml/sel.rs
@@ -265,6 +265,6 @@ impl<'g> Iterator for RowIteratorAll<'g> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_dml_sel.rs"));
 }
diff --git a/server/src/engine/core/dml/upd.rs b/server/src/engine/core/dml/upd.rs
index b4bbccf..45b93c3 100644
--- a/server/src/engine/core/dml/upd.rs
+++ b/server/src/engine/core/dml/upd.rs
@@ -375,6 +375,6 @@ pub fn update(global: &impl GlobalInstanceLike, mut update: UpdateStatement) ->
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_dml_upd.rs"));
 }
diff --git a/server/src/engine/core/exec.rs b/server/src/engine/core/exec.rs
index 33dcb12..5025dc8 100644
--- a/server/src/engine/core/exec.rs
+++ b/server/src/engine/core/exec.rs
@@ -274,6 +274,6 @@ fn run_nb(
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_exec.rs"));
 }
diff --git a/server/src/engine/core/index/key.rs b/server/src/engine/core/index/key.rs
index e760852..c34101c 100644
--- a/server/src/engine/core/index/key.rs
+++ b/server/src/engine/core/index/key.rs
@@ -397,6 +397,6 @@ fn empty_slice() {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_index_key.rs"));
 }
diff --git a/server/src/engine/core/index/mod.rs b/server/src/engine/core/index/mod.rs
index c7b8687..325b217 100644
--- a/server/src/engine/core/index/mod.rs
+++ b/server/src/engine/core/index/mod.rs
@@ -95,6 +95,6 @@ impl IndexLatch {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_index.rs"));
 }
diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 2283bde..115eccf 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -216,6 +216,6 @@ impl Drop for Row {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_index_row.rs"));
 }
diff --git a/server/src/engine/core/mod.rs b/server/src/engine/core/mod.rs
index 996c11b..84b742c 100644
--- a/server/src/engine/core/mod.rs
+++ b/server/src/engine/core/mod.rs
@@ -199,6 +199,6 @@ where
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core.rs"));
 }
diff --git a/server/src/engine/core/model/alt.rs b/server/src/engine/core/model/alt.rs
index 1d65d7b..fd22d13 100644
--- a/server/src/engine/core/model/alt.rs
+++ b/server/src/engine/core/model/alt.rs
@@ -328,6 +328,6 @@ impl ModelData {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_model_alt.rs"));
 }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 2cc4504..ece352e 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -238,6 +238,6 @@ pub enum DataDeltaKind {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_model_delta.rs"));
 }
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index d641277..1be84db 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -784,6 +784,6 @@ unsafe fn vt_list(_: Layer, _: &mut Datacell) -> bool {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_model.rs"));
 }
diff --git a/server/src/engine/core/space.rs b/server/src/engine/core/space.rs
index bb84dbf..80ddab7 100644
--- a/server/src/engine/core/space.rs
+++ b/server/src/engine/core/space.rs
@@ -325,6 +325,6 @@ impl Space {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_space.rs"));
 }
diff --git a/server/src/engine/core/system_db.rs b/server/src/engine/core/system_db.rs
index e262477..a188793 100644
--- a/server/src/engine/core/system_db.rs
+++ b/server/src/engine/core/system_db.rs
@@ -183,6 +183,6 @@ impl SystemDatabase {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_system_db.rs"));
 }
diff --git a/server/src/engine/core/util.rs b/server/src/engine/core/util.rs
index d69fdf5..e3a6380 100644
--- a/server/src/engine/core/util.rs
+++ b/server/src/engine/core/util.rs
@@ -152,6 +152,6 @@ impl<'a> From<(&'a str, &'a str)> for EntityIDRef<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/core_util.rs"));
 }
diff --git a/server/src/engine/data/cell.rs b/server/src/engine/data/cell.rs
index 778c8d5..3de5525 100644
--- a/server/src/engine/data/cell.rs
+++ b/server/src/engine/data/cell.rs
@@ -572,6 +572,6 @@ fn empty_slice() {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/data_cell.rs"));
 }
diff --git a/server/src/engine/data/dict.rs b/server/src/engine/data/dict.rs
index b9a0957..e3a22b2 100644
--- a/server/src/engine/data/dict.rs
+++ b/server/src/engine/data/dict.rs
@@ -207,6 +207,6 @@ direct_from! {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/data_dict.rs"));
 }
diff --git a/server/src/engine/data/lit.rs b/server/src/engine/data/lit.rs
index 4b1b562..1307a87 100644
--- a/server/src/engine/data/lit.rs
+++ b/server/src/engine/data/lit.rs
@@ -417,6 +417,6 @@ fn token_array_lt_test() {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/data_lit.rs"));
 }
diff --git a/server/src/engine/data/mod.rs b/server/src/engine/data/mod.rs
index 0daec5a..a440e40 100644
--- a/server/src/engine/data/mod.rs
+++ b/server/src/engine/data/mod.rs
@@ -36,6 +36,6 @@ mod tests;
 pub use dict::{DictEntryGeneric, DictGeneric};
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/data.rs"));
 }
diff --git a/server/src/engine/error.rs b/server/src/engine/error.rs
index 0d4c1a8..3c1e782 100644
--- a/server/src/engine/error.rs
+++ b/server/src/engine/error.rs
@@ -225,6 +225,6 @@ enumerate_err! {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/error.rs"));
 }
diff --git a/server/src/engine/fractal/mgr.rs b/server/src/engine/fractal/mgr.rs
index 6d7e2f9..45ac2f4 100644
--- a/server/src/engine/fractal/mgr.rs
+++ b/server/src/engine/fractal/mgr.rs
@@ -560,6 +560,6 @@ impl FractalMgr {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/fractal_mgr.rs"));
 }
diff --git a/server/src/engine/fractal/mod.rs b/server/src/engine/fractal/mod.rs
index b4a0d43..7f48b04 100644
--- a/server/src/engine/fractal/mod.rs
+++ b/server/src/engine/fractal/mod.rs
@@ -377,6 +377,6 @@ impl ModelUniqueID {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/fractal.rs"));
 }
diff --git a/server/src/engine/idx/mod.rs b/server/src/engine/idx/mod.rs
index 455d71f..2b27972 100644
--- a/server/src/engine/idx/mod.rs
+++ b/server/src/engine/idx/mod.rs
@@ -365,6 +365,6 @@ pub trait STIndexSeq<K, V>: STIndex<K, V> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/idx.rs"));
 }
diff --git a/server/src/engine/idx/mtchm/mod.rs b/server/src/engine/idx/mtchm/mod.rs
index ee1fb37..e98363d 100644
--- a/server/src/engine/idx/mtchm/mod.rs
+++ b/server/src/engine/idx/mtchm/mod.rs
@@ -767,6 +767,6 @@ where
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/idx_mtchm.rs"));
 }
diff --git a/server/src/engine/idx/stord/mod.rs b/server/src/engine/idx/stord/mod.rs
index 0ae0af5..a0d3b91 100644
--- a/server/src/engine/idx/stord/mod.rs
+++ b/server/src/engine/idx/stord/mod.rs
@@ -822,6 +822,6 @@ impl<K, V, C: Config<K, V>> StatelessLen for IndexSTSeqDll<K, V, C> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/idx_stord.rs"));
 }
diff --git a/server/src/engine/mem/astr.rs b/server/src/engine/mem/astr.rs
index ca979ad..3b296a9 100644
--- a/server/src/engine/mem/astr.rs
+++ b/server/src/engine/mem/astr.rs
@@ -174,6 +174,6 @@ impl<const N: usize> Borrow<[u8]> for AStr<N> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_astr.rs"));
 }
diff --git a/server/src/engine/mem/fixed_vec.rs b/server/src/engine/mem/fixed_vec.rs
index a4dd6da..8bbc38f 100644
--- a/server/src/engine/mem/fixed_vec.rs
+++ b/server/src/engine/mem/fixed_vec.rs
@@ -227,6 +227,6 @@ fn clear_range() {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_fixed_vec.rs"));
 }
diff --git a/server/src/engine/mem/ll.rs b/server/src/engine/mem/ll.rs
index 932ba85..e3da4da 100644
--- a/server/src/engine/mem/ll.rs
+++ b/server/src/engine/mem/ll.rs
@@ -103,6 +103,6 @@ impl<T> DerefMut for CachePadded<T> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_ll.rs"));
 }
diff --git a/server/src/engine/mem/mod.rs b/server/src/engine/mem/mod.rs
index 1ddf2a7..803a979 100644
--- a/server/src/engine/mem/mod.rs
+++ b/server/src/engine/mem/mod.rs
@@ -132,6 +132,6 @@ impl<const N: usize, T> StatelessLen for UArray<N, T> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem.rs"));
 }
diff --git a/server/src/engine/mem/numbuf.rs b/server/src/engine/mem/numbuf.rs
index 0be4882..41f574a 100644
--- a/server/src/engine/mem/numbuf.rs
+++ b/server/src/engine/mem/numbuf.rs
@@ -174,6 +174,6 @@ mod tests {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_numbuf.rs"));
 }
diff --git a/server/src/engine/mem/rawslice.rs b/server/src/engine/mem/rawslice.rs
index 1a82006..b6bb5d4 100644
--- a/server/src/engine/mem/rawslice.rs
+++ b/server/src/engine/mem/rawslice.rs
@@ -158,6 +158,6 @@ impl<T> Deref for RawSlice<T> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_rawslice.rs"));
 }
diff --git a/server/src/engine/mem/scanner.rs b/server/src/engine/mem/scanner.rs
index 8277972..2d36396 100644
--- a/server/src/engine/mem/scanner.rs
+++ b/server/src/engine/mem/scanner.rs
@@ -425,6 +425,6 @@ impl<'a> Scanner<'a, u8> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_scanner.rs"));
 }
diff --git a/server/src/engine/mem/uarray.rs b/server/src/engine/mem/uarray.rs
index d887f8f..bd8e561 100644
--- a/server/src/engine/mem/uarray.rs
+++ b/server/src/engine/mem/uarray.rs
@@ -302,6 +302,6 @@ impl<const N: usize, T> IntoIterator for UArray<N, T> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_uarray.rs"));
 }
diff --git a/server/src/engine/mem/vinline.rs b/server/src/engine/mem/vinline.rs
index 9e08d7b..74f2e0e 100644
--- a/server/src/engine/mem/vinline.rs
+++ b/server/src/engine/mem/vinline.rs
@@ -394,6 +394,6 @@ impl<const N: usize, T> IntoIterator for VInline<N, T> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_vinline.rs"));
 }
diff --git a/server/src/engine/mem/word.rs b/server/src/engine/mem/word.rs
index 46282a4..5b0f104 100644
--- a/server/src/engine/mem/word.rs
+++ b/server/src/engine/mem/word.rs
@@ -378,6 +378,6 @@ impl<T: DwordNN> WordIO<(usize, *const u8)> for T {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mem_word.rs"));
 }
diff --git a/server/src/engine/mod.rs b/server/src/engine/mod.rs
index eeeb83d..1859768 100644
--- a/server/src/engine/mod.rs
+++ b/server/src/engine/mod.rs
@@ -200,6 +200,6 @@ pub fn finish(g: fractal::Global) {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/engine.rs"));
 }
diff --git a/server/src/engine/net/protocol/exchange.rs b/server/src/engine/net/protocol/exchange.rs
index b9366ac..c8ce639 100644
--- a/server/src/engine/net/protocol/exchange.rs
+++ b/server/src/engine/net/protocol/exchange.rs
@@ -241,6 +241,6 @@ impl QExchangeState {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/exchange.rs"));
 }
diff --git a/server/src/engine/net/protocol/mod.rs b/server/src/engine/net/protocol/mod.rs
index 02c3d0a..d263e6b 100644
--- a/server/src/engine/net/protocol/mod.rs
+++ b/server/src/engine/net/protocol/mod.rs
@@ -355,6 +355,6 @@ fn scan_int(s: &mut BufferedScanner, acc: u64) -> Result<AccumlatorStatus, ()> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/net_protocol.rs"));
 }
diff --git a/server/src/engine/ql/ast/mod.rs b/server/src/engine/ql/ast/mod.rs
index 868050b..a6bdfe7 100644
--- a/server/src/engine/ql/ast/mod.rs
+++ b/server/src/engine/ql/ast/mod.rs
@@ -381,6 +381,6 @@ impl<'a> QueryData<'a> for InplaceData {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/ql_ast.rs"));
 }
diff --git a/server/src/engine/ql/dcl.rs b/server/src/engine/ql/dcl.rs
index c81e359..e9c6ed5 100644
--- a/server/src/engine/ql/dcl.rs
+++ b/server/src/engine/ql/dcl.rs
@@ -173,6 +173,6 @@ impl<'a> UserDel<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/ql_dcl.rs"));
 }
diff --git a/server/src/engine/ql/ddl/mod.rs b/server/src/engine/ql/ddl/mod.rs
index 66704d1..bc6a216 100644
--- a/server/src/engine/ql/ddl/mod.rs
+++ b/server/src/engine/ql/ddl/mod.rs
@@ -115,6 +115,6 @@ impl<'a> ASTNode<'a> for Inspect<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/ql_ddl.rs"));
 }
diff --git a/server/src/engine/ql/dml/mod.rs b/server/src/engine/ql/dml/mod.rs
index 6af3b25..c7ea803 100644
--- a/server/src/engine/ql/dml/mod.rs
+++ b/server/src/engine/ql/dml/mod.rs
@@ -193,6 +193,6 @@ mod impls {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/ql_dml.rs"));
 }
diff --git a/server/src/engine/ql/lex/mod.rs b/server/src/engine/ql/lex/mod.rs
index 5d46d06..0105792 100644
--- a/server/src/engine/ql/lex/mod.rs
+++ b/server/src/engine/ql/lex/mod.rs
@@ -505,6 +505,6 @@ static SCAN_PARAM: [unsafe fn(&mut SecureLexer); 8] = unsafe {
 };
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/ql_lex.rs"));
 }
diff --git a/server/src/engine/ql/mod.rs b/server/src/engine/ql/mod.rs
index 6383e41..a43b8dd 100644
--- a/server/src/engine/ql/mod.rs
+++ b/server/src/engine/ql/mod.rs
@@ -35,6 +35,6 @@ pub(super) mod lex;
 pub(in crate::engine) mod tests;
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/ql.rs"));
 }
diff --git a/server/src/engine/storage/common/checksum.rs b/server/src/engine/storage/common/checksum.rs
index 229503d..5fa6c10 100644
--- a/server/src/engine/storage/common/checksum.rs
+++ b/server/src/engine/storage/common/checksum.rs
@@ -75,6 +75,6 @@ impl SCrc64 {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/checksum.rs"));
 }
diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
index f35b533..868b10a 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/mod.rs
@@ -480,6 +480,6 @@ impl<Sfs: SimpleFileSpecV1> FileSpecV1 for Sfs {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/storage_sdss.rs"));
 }
diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index e616352..c39d193 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -625,6 +625,6 @@ fn check_vfs_buffering() {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/sdss_rw.rs"));
 }
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
index ff14764..ee46b41 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/mod.rs
@@ -143,6 +143,6 @@ impl<'a> PersistObject for SpaceID<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/gns.rs"));
 }
diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index d639808..67e7887 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -609,6 +609,6 @@ impl<'a> GNSEvent for DropModelTxn<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/gns_model.rs"));
 }
diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index e011b58..3ea7291 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -284,6 +284,6 @@ pub mod dec {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/storage_r1.rs"));
 }
diff --git a/server/src/engine/storage/common_encoding/r1/obj.rs b/server/src/engine/storage/common_encoding/r1/obj.rs
index c31e704..85caae0 100644
--- a/server/src/engine/storage/common_encoding/r1/obj.rs
+++ b/server/src/engine/storage/common_encoding/r1/obj.rs
@@ -521,6 +521,6 @@ impl<'a> PersistObject for SpaceLayoutRef<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/storage_r1_obj.rs"));
 }
diff --git a/server/src/engine/storage/common_encoding/r2.rs b/server/src/engine/storage/common_encoding/r2.rs
index 525c46c..1074b11 100644
--- a/server/src/engine/storage/common_encoding/r2.rs
+++ b/server/src/engine/storage/common_encoding/r2.rs
@@ -237,6 +237,6 @@ impl<'a> PersistObject for DropUserTxn<'a> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/storage_r2.rs"));
 }
diff --git a/server/src/engine/storage/mod.rs b/server/src/engine/storage/mod.rs
index d8da799..9e29609 100644
--- a/server/src/engine/storage/mod.rs
+++ b/server/src/engine/storage/mod.rs
@@ -82,6 +82,6 @@ pub fn load(cfg: &Configuration) -> RuntimeResult<SELoaded> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/storage.rs"));
 }
diff --git a/server/src/engine/storage/v2/impls/gns_log.rs b/server/src/engine/storage/v2/impls/gns_log.rs
index 424fcdb..67c125f 100644
--- a/server/src/engine/storage/v2/impls/gns_log.rs
+++ b/server/src/engine/storage/v2/impls/gns_log.rs
@@ -113,6 +113,6 @@ impl<T: GNSEvent> JournalAdapterEvent<EventLogAdapter<GNSEventLog>> for T {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/gns_log.rs"));
 }
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 67db01e..bda3783 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -732,6 +732,6 @@ mod restore_impls {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/mdl_journal.rs"));
 }
diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 969f4d8..396f2ed 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -314,6 +314,6 @@ impl<BA: BatchAdapterSpec> RawJournalAdapter for BatchAdapter<BA> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/journal.rs"));
 }
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 8918d31..9543dbc 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -830,6 +830,6 @@ impl<J: RawJournalAdapter> RawJournalReader<J> {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/journal_raw.rs"));
 }
diff --git a/server/src/engine/txn/gns/mod.rs b/server/src/engine/txn/gns/mod.rs
index 9595423..7eb170a 100644
--- a/server/src/engine/txn/gns/mod.rs
+++ b/server/src/engine/txn/gns/mod.rs
@@ -55,6 +55,6 @@ pub trait GNSTransaction {
 }
 
 #[cfg(skyverif)]
-mod skyverif {
+pub(crate) mod skyverif {
     include!(concat!(env!("SKYVERIF_DIR"), "/txn_gns.rs"));
 }
-- 
2.43.0


From 5581563faf5a8889dc22ed6d17b1503ab961e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 08/19] fix: corrupted lengths in catalog events and
 dictionaries could read out of bounds or abort

The map decoder tested only once that entry metadata could be decoded, dictionary
entries did not pretest the key length, length sums could overflow and a removed
field count was trusted for an allocation.
---
 .../common_encoding/r1/impls/gns/model.rs     | 26 ++++++++++++++-----
 .../engine/storage/common_encoding/r1/map.rs  |  8 +++---
 .../engine/storage/common_encoding/r1/mod.rs  |  5 ++--
 .../src/engine/storage/common_encoding/r2.rs  |  4 +--
 4 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
index 67e7887..d0a5560 100644
--- a/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
+++ b/server/src/engine/storage/common_encoding/r1/impls/gns/model.rs
@@ -92,7 +92,7 @@ impl<'a> PersistObject for ModelID<'a> {
     type OutputType = ModelIDRes;
     type Metadata = ModelIDMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left(md.model_name_l as usize + md.space_id.space_name_l as usize)
+        scanner.has_left(md.model_name_l.saturating_add(md.space_id.space_name_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         <super::SpaceID as PersistObject>::meta_enc(buf, data.space_id());
@@ -202,7 +202,7 @@ impl<'a> PersistObject for CreateModelTxn<'a> {
     type OutputType = CreateModelTxnRestorePL;
     type Metadata = CreateModelTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.model_meta.p_key_len() + md.model_name_l) as usize)
+        scanner.has_left(md.model_meta.p_key_len().saturating_add(md.model_name_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // space ID
@@ -313,7 +313,10 @@ impl<'a> PersistObject for AlterModelAddTxn<'a> {
     type Metadata = AlterModelAddTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            (md.model_id_meta.space_id.space_name_l + md.model_id_meta.model_name_l) as usize,
+            md.model_id_meta
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_meta.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -394,7 +397,10 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
     type Metadata = AlterModelRemoveTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            (md.model_id_meta.space_id.space_name_l + md.model_id_meta.model_name_l) as usize,
+            md.model_id_meta
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_meta.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -420,7 +426,7 @@ impl<'a> PersistObject for AlterModelRemoveTxn<'a> {
         md: Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let model_id = <ModelID as PersistObject>::obj_dec(s, md.model_id_meta)?;
-        let mut removed_fields = Vec::with_capacity(md.remove_field_c as usize);
+        let mut removed_fields = Vec::new();
         while !s.eof()
             & (removed_fields.len() as u64 != md.remove_field_c)
             & s.has_left(sizeof!(u64))
@@ -484,7 +490,10 @@ impl<'a> PersistObject for AlterModelUpdateTxn<'a> {
     type Metadata = AlterModelUpdateTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            md.model_id_md.space_id.space_name_l as usize + md.model_id_md.model_name_l as usize,
+            md.model_id_md
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_md.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
@@ -558,7 +567,10 @@ impl<'a> PersistObject for DropModelTxn<'a> {
     type Metadata = DropModelTxnMD;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
         scanner.has_left(
-            md.model_id_md.space_id.space_name_l as usize + md.model_id_md.model_name_l as usize,
+            md.model_id_md
+                .space_id
+                .space_name_l
+                .saturating_add(md.model_id_md.model_name_l) as usize,
         )
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
diff --git a/server/src/engine/storage/common_encoding/r1/map.rs b/server/src/engine/storage/common_encoding/r1/map.rs
index 39b5793..1169a8c 100644
--- a/server/src/engine/storage/common_encoding/r1/map.rs
+++ b/server/src/engine/storage/common_encoding/r1/map.rs
@@ -84,8 +84,7 @@ impl<'a, M: MapStorageSpec> PersistObject for PersistMapImpl<'a, M> {
         MapIndexSizeMD(dict_size): Self::Metadata,
     ) -> RuntimeResult<Self::OutputType> {
         let mut dict = M::RestoredMap::map_new();
-        let decode_pretest_for_entry_meta = M::decode_pretest_for_entry_meta(scanner);
-        while decode_pretest_for_entry_meta & (dict.map_length() != dict_size) {
+        while M::decode_pretest_for_entry_meta(scanner) & (dict.map_length() != dict_size) {
             let md = unsafe {
                 // UNSAFE(@ohsayan): +pretest
                 M::decode_entry_meta(scanner).ok_or::<StorageError>(
@@ -198,7 +197,10 @@ impl MapStorageSpec for GenericDictSpec {
     }
     fn decode_pretest_for_entry_data(s: &mut BufferedScanner, md: &Self::EntryMetadata) -> bool {
         StorageCellTypeID::is_valid(md.dscr)
-            & s.has_left(StorageCellTypeID::expect_atleast(md.dscr))
+            & s.has_left(
+                md.klen
+                    .saturating_add(StorageCellTypeID::expect_atleast(md.dscr)),
+            )
     }
     unsafe fn decode_entry_meta(s: &mut BufferedScanner) -> Option<Self::EntryMetadata> {
         Some(Self::EntryMetadata::decode(s.next_chunk()))
diff --git a/server/src/engine/storage/common_encoding/r1/mod.rs b/server/src/engine/storage/common_encoding/r1/mod.rs
index 3ea7291..ccc2060 100644
--- a/server/src/engine/storage/common_encoding/r1/mod.rs
+++ b/server/src/engine/storage/common_encoding/r1/mod.rs
@@ -277,8 +277,9 @@ pub mod dec {
             mem::BufferedScanner,
         };
         pub unsafe fn decode_string(s: &mut BufferedScanner, len: usize) -> RuntimeResult<String> {
-            String::from_utf8(s.next_chunk_variable(len).to_owned())
-                .map_err(|_| StorageError::InternalDecodeStructureCorruptedPayload.into())
+            s.try_next_variable_block(len)
+                .and_then(|block| String::from_utf8(block.to_owned()).ok())
+                .ok_or_else(|| StorageError::InternalDecodeStructureCorruptedPayload.into())
         }
     }
 }
diff --git a/server/src/engine/storage/common_encoding/r2.rs b/server/src/engine/storage/common_encoding/r2.rs
index 1074b11..dd35bfa 100644
--- a/server/src/engine/storage/common_encoding/r2.rs
+++ b/server/src/engine/storage/common_encoding/r2.rs
@@ -94,7 +94,7 @@ impl<'a> PersistObject for CreateUserTxn<'a> {
     type OutputType = FullUserDefinition;
     type Metadata = CreateUserMetadata;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.uname_l + md.pwd_l) as usize)
+        scanner.has_left(md.uname_l.saturating_add(md.pwd_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // [username length: 8B][password length: 8B][properties length: 8B]
@@ -154,7 +154,7 @@ impl<'a> PersistObject for AlterUserTxn<'a> {
     type OutputType = FullUserDefinition;
     type Metadata = CreateUserMetadata;
     fn pretest_can_dec_object(scanner: &BufferedScanner, md: &Self::Metadata) -> bool {
-        scanner.has_left((md.uname_l + md.pwd_l) as usize)
+        scanner.has_left(md.uname_l.saturating_add(md.pwd_l) as usize)
     }
     fn meta_enc(buf: &mut Vec<u8>, data: Self::InputType) {
         // [username length: 8B][password length: 8B][properties length: 8B]
-- 
2.43.0


From 264a82736b382ce00b3b53eae5e1e42b1b868b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:54 +0000
Subject: [PATCH 09/19] fix: resume a short write where it stopped instead of
 rewriting the buffer from its start

---
 server/src/engine/storage/common/interface/fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/src/engine/storage/common/interface/fs.rs b/server/src/engine/storage/common/interface/fs.rs
index 5855182..629191c 100644
--- a/server/src/engine/storage/common/interface/fs.rs
+++ b/server/src/engine/storage/common/interface/fs.rs
@@ -156,7 +156,7 @@ pub trait FileWrite {
         let len = buf.len() as u64;
         let mut written = 0;
         while written != len {
-            match self.fwrite(buf) {
+            match self.fwrite(&buf[written as usize..]) {
                 Ok(0) => {
                     return (
                         written,
-- 
2.43.0


From 9316a8e8dde67c140d552ea793e56a48f77e402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 10/19] fix: discard a failed transaction's checksum and id
 when a journal recovers

---
 .../src/engine/storage/common/sdss/impls/sdss_r1/rw.rs | 10 ++++++++--
 server/src/engine/storage/v2/raw/journal/raw/mod.rs    | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
index c39d193..e38d05e 100644
--- a/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
+++ b/server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
@@ -343,8 +343,11 @@ impl<
             ))
         }
     }
-    pub fn __zero_buffer(&mut self) {
-        self.buf.clear()
+    /// Discard everything that is still buffered and restore the checksum to what was actually committed
+    pub fn __zero_buffer(&mut self, checksum: SCrc64) {
+        self.buf.clear();
+        self.t_checksum = checksum;
+        self.t_partial_checksum = SCrc64::new();
     }
 }
 
@@ -411,6 +414,9 @@ impl<
     pub fn current_checksum(&self) -> u64 {
         self.t_checksum.clone().finish()
     }
+    pub fn checksum(&self) -> SCrc64 {
+        self.t_checksum.clone()
+    }
 }
 
 impl<
diff --git a/server/src/engine/storage/v2/raw/journal/raw/mod.rs b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
index 9543dbc..1e8d88b 100644
--- a/server/src/engine/storage/v2/raw/journal/raw/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/raw/mod.rs
@@ -475,6 +475,7 @@ pub struct RawJournalWriter<J: RawJournalAdapter> {
     txn_id: u64,
     known_txn_id: u64,
     known_txn_offset: u64, // if offset is 0, txn id is unset
+    known_txn_checksum: SCrc64,
 }
 
 impl<J: RawJournalAdapter + fmt::Debug> fmt::Debug for RawJournalWriter<J>
@@ -501,6 +502,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
             log_file: TrackedWriter::with_cursor_and_checksum(file, j_.cursor(), j_.checksum()),
             known_txn_id: j_.last_txn_id(),
             known_txn_offset: j_.last_offset(),
+            known_txn_checksum: j_.checksum(),
             txn_id: j_.txn_id(),
             j: J::initialize(&j_),
         };
@@ -571,8 +573,11 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         // verify that the on disk cursor is the same as what we know
         self.log_file.verify_cursor()?;
         if self.log_file.cursor() == self.known_txn_offset {
-            // great, so if there was something in the buffer, simply ignore it
-            self.log_file.__zero_buffer();
+            // great, so if there was something in the buffer, simply ignore it (it never reached the disk, so the
+            // failed txn must also not leave a trace in the checksum or in the txn sequence)
+            self.log_file
+                .__zero_buffer(self.known_txn_checksum.clone());
+            self.txn_id = self.known_txn_id + 1;
             Ok(())
         } else {
             // so, the on-disk file probably has some partial state. this is bad. throw an error
@@ -592,6 +597,7 @@ impl<J: RawJournalAdapter> RawJournalWriter<J> {
         if ret.is_ok() {
             self.known_txn_id = id;
             self.known_txn_offset = self.log_file.cursor();
+            self.known_txn_checksum = self.log_file.checksum();
         }
         ret
     }
-- 
2.43.0


From ab7c5ea7f40a3a9ff1aa1e839b489898c286e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:05 +0000
Subject: [PATCH 11/19] fix: a corrupted event length in the event log must not
 be trusted for an allocation

---
 server/src/engine/storage/v2/raw/journal/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/src/engine/storage/v2/raw/journal/mod.rs b/server/src/engine/storage/v2/raw/journal/mod.rs
index 396f2ed..e6b790c 100644
--- a/server/src/engine/storage/v2/raw/journal/mod.rs
+++ b/server/src/engine/storage/v2/raw/journal/mod.rs
@@ -130,6 +130,10 @@ impl<EL: EventLogSpec> RawJournalAdapter for EventLogAdapter<EL> {
     ) -> RuntimeResult<()> {
         let expected_checksum = u64::from_le_bytes(file.read_block()?);
         let plen = u64::from_le_bytes(file.read_block()?);
+        if !file.has_left(plen) {
+            // don't trust a (corrupted) length for an allocation
+            return Err(StorageError::RawJournalCorrupted.into());
+        }
         let mut pl = vec![0; plen as usize];
         file.tracked_read(&mut pl)?;
         let mut this_checksum = SCrc64::new();
-- 
2.43.0


From fd0e60e8b1a26e4cf0c8059362b0efe2df2cf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:44 +0000
Subject: [PATCH 12/19] fix: apply the first schema change after a row's
 version when resolving schema deltas

---
 server/src/engine/core/index/row.rs   | 8 +++-----
 server/src/engine/core/model/delta.rs | 7 +++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index 115eccf..cb216a1 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -154,8 +154,7 @@ impl Row {
         }
         // we have deltas to apply
         let mut wl = RwLockUpgradableReadGuard::upgrade(rwl_ug);
-        let mut max_delta = wl.txn_revised_schema_version;
-        for (delta_id, delta) in delta_state.resolve_iter_since(wl.txn_revised_schema_version) {
+        for (_, delta) in delta_state.resolve_iter_since(wl.txn_revised_schema_version) {
             match delta.kind() {
                 SchemaDeltaKind::FieldAdd(f) => {
                     wl.fields.st_insert(
@@ -172,10 +171,9 @@ impl Row {
                     wl.fields.st_delete(f);
                 }
             }
-            max_delta = *delta_id;
         }
-        // we've revised upto the most most recent delta version (that we saw at this point)
-        wl.txn_revised_schema_version = max_delta;
+        // we've revised upto the most recent schema version
+        wl.txn_revised_schema_version = current_version;
         return RwLockWriteGuard::downgrade(wl);
     }
     pub fn resolve_schema_deltas_and_freeze<'g>(
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index ece352e..2996f39 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -112,11 +112,13 @@ impl DeltaState {
 
 // schema
 impl DeltaState {
+    /// All the schema deltas that were published after the schema was at the given version (a delta is keyed by the
+    /// version that it was applied *to*)
     pub fn resolve_iter_since(
         &self,
         current_version: DeltaVersion,
     ) -> Range<DeltaVersion, SchemaDeltaPart> {
-        self.schema_deltas.range(current_version.step()..)
+        self.schema_deltas.range(current_version..)
     }
     pub fn schema_current_version(&self) -> DeltaVersion {
         DeltaVersion(self.schema_current_version)
@@ -158,9 +160,6 @@ impl DeltaVersion {
     pub const fn __new(v: u64) -> Self {
         Self(v)
     }
-    fn step(&self) -> Self {
-        Self(self.0 + 1)
-    }
     pub const fn value_u64(&self) -> u64 {
         self.0
     }
-- 
2.43.0


From 66a6b00251f61cf0b805d70fc88c387427d05dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:11 +0000
Subject: [PATCH 13/19] fix: restore a batch's columns under the schema it was
 written with

---
 server/src/engine/core/index/row.rs           |  2 +-
 server/src/engine/core/model/delta.rs         | 11 +++++-----
 server/src/engine/core/model/mod.rs           | 20 ++++++++++++++++++-
 .../engine/storage/v2/impls/mdl_journal.rs    | 10 ++++------
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/server/src/engine/core/index/row.rs b/server/src/engine/core/index/row.rs
index cb216a1..09154ea 100644
--- a/server/src/engine/core/index/row.rs
+++ b/server/src/engine/core/index/row.rs
@@ -167,7 +167,7 @@ impl Row {
                         Datacell::null(),
                     );
                 }
-                SchemaDeltaKind::FieldRem(f) => {
+                SchemaDeltaKind::FieldRem(f, _) => {
                     wl.fields.st_delete(f);
                 }
             }
diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index 2996f39..f2fd0b9 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -126,8 +126,9 @@ impl DeltaState {
     pub fn unresolved_append_field_add(&mut self, field_name: RawStr) {
         self.__schema_append_unresolved_delta(SchemaDeltaPart::field_add(field_name));
     }
-    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr) {
-        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name));
+    /// NB: the position is that of the field among all fields (in declaration order) just before it was removed
+    pub fn unresolved_append_field_rem(&mut self, field_name: RawStr, position: usize) {
+        self.__schema_append_unresolved_delta(SchemaDeltaPart::field_rem(field_name, position));
     }
 }
 
@@ -183,7 +184,7 @@ impl SchemaDeltaPart {
 #[derive(Debug)]
 pub enum SchemaDeltaKind {
     FieldAdd(RawStr),
-    FieldRem(RawStr),
+    FieldRem(RawStr, usize),
 }
 
 impl SchemaDeltaPart {
@@ -193,8 +194,8 @@ impl SchemaDeltaPart {
     fn field_add(field_name: RawStr) -> Self {
         Self::new(SchemaDeltaKind::FieldAdd(field_name))
     }
-    fn field_rem(field_name: RawStr) -> Self {
-        Self::new(SchemaDeltaKind::FieldRem(field_name))
+    fn field_rem(field_name: RawStr, position: usize) -> Self {
+        Self::new(SchemaDeltaKind::FieldRem(field_name, position))
     }
 }
 
diff --git a/server/src/engine/core/model/mod.rs b/server/src/engine/core/model/mod.rs
index 1be84db..0547559 100644
--- a/server/src/engine/core/model/mod.rs
+++ b/server/src/engine/core/model/mod.rs
@@ -132,6 +132,18 @@ impl ModelData {
     pub fn fields(&self) -> &Fields {
         &self.fields
     }
+    /// Returns the fields that this model had at the given schema version, in declaration order
+    pub fn field_names_at(&self, schema_version: DeltaVersion) -> Vec<&RawStr> {
+        let mut names: Vec<&RawStr> = self.fields().stseq_ord_key().collect();
+        // undo all changes made since then, beginning with the most recent one
+        for (_, delta) in self.delta.resolve_iter_since(schema_version).rev() {
+            match delta.kind() {
+                SchemaDeltaKind::FieldAdd(field) => names.retain(|name| name.as_str() != field.as_str()),
+                SchemaDeltaKind::FieldRem(field, position) => names.insert(*position, field),
+            }
+        }
+        names
+    }
     pub fn model_mutator<'a>(&'a mut self) -> ModelMutator<'a> {
         ModelMutator { model: self }
     }
@@ -473,11 +485,17 @@ impl<'a> ModelMutator<'a> {
     }
     pub fn remove_field(&mut self, name: &str) -> bool {
         // remove
+        let position = self
+            .model
+            .fields
+            .stseq_ord_key()
+            .take_while(|key| key.as_str() != name)
+            .count();
         let r = self.model.fields.st_delete(name);
         // recycle
         let ptr = unsafe { self.model.private.mark_pending_remove(name) };
         // publish delta
-        self.model.delta.unresolved_append_field_rem(ptr);
+        self.model.delta.unresolved_append_field_rem(ptr, position);
         r
     }
     pub fn add_field(&mut self, name: Box<str>, field: Field) -> bool {
diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index bda3783..8735376 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -512,6 +512,9 @@ impl BatchAdapterSpec for ModelDataAdapter {
         let p_index = gs.primary_index().__raw_index();
         let m = gs;
         let mut real_last_txn_id = DeltaVersion::genesis();
+        // the columns in this batch are the ones that the model had when the batch was written
+        let mut columns = m.field_names_at(DeltaVersion::__new(batch_md.schema_version));
+        columns.retain(|key| key.as_str() != m.p_key());
         for DecodedBatchEvent { txn_id, pk, kind } in batch_state.events {
             match kind {
                 DecodedBatchEventKind::Insert(new_row) | DecodedBatchEventKind::Update(new_row) => {
@@ -534,12 +537,7 @@ impl BatchAdapterSpec for ModelDataAdapter {
                         real_last_txn_id = txn_id;
                     }
                     let mut data = DcFieldIndex::default();
-                    for (field_name, new_data) in m
-                        .fields()
-                        .stseq_ord_key()
-                        .filter(|key| key.as_str() != m.p_key())
-                        .zip(new_row)
-                    {
+                    for (field_name, new_data) in columns.iter().copied().zip(new_row) {
                         data.st_insert(
                             unsafe {
                                 // UNSAFE(@ohsayan): model in scope, we're good
-- 
2.43.0


From a8b0861854d4fae21a9b2982b460e70691c3ee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:11 +0000
Subject: [PATCH 14/19] fix: restoring a batch must never move the data version
 back

---
 server/src/engine/core/model/delta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/src/engine/core/model/delta.rs b/server/src/engine/core/model/delta.rs
index f2fd0b9..026177c 100644
--- a/server/src/engine/core/model/delta.rs
+++ b/server/src/engine/core/model/delta.rs
@@ -62,9 +62,10 @@ impl DeltaState {
             data_deltas_size: AtomicUsize::new(0),
         }
     }
+    /// Move the data version forward to the given version (it never goes back)
     pub fn __set_delta_version(&self, version: DeltaVersion) {
         self.data_current_version
-            .store(version.value_u64(), Ordering::Relaxed)
+            .fetch_max(version.value_u64(), Ordering::Relaxed);
     }
 }
 
-- 
2.43.0


From 34680ef3aa166a488989af4e2edb21ef19c9cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:11 +0000
Subject: [PATCH 15/19] fix: a corrupted primary key length in a batch must not
 be trusted for an allocation

---
 server/src/engine/storage/v2/impls/mdl_journal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/src/engine/storage/v2/impls/mdl_journal.rs b/server/src/engine/storage/v2/impls/mdl_journal.rs
index 8735376..970aa6f 100644
--- a/server/src/engine/storage/v2/impls/mdl_journal.rs
+++ b/server/src/engine/storage/v2/impls/mdl_journal.rs
@@ -650,6 +650,9 @@ mod restore_impls {
             }
             TagUnique::Str | TagUnique::Bin => {
                 let len = u64::from_le_bytes(f.read_block()?);
+                if f.remaining() < len {
+                    return Err(StorageError::DataBatchRestoreCorruptedEntry.into());
+                }
                 let mut data = vec![0; len as usize];
                 f.read(&mut data)?;
                 if pk_type == TagUnique::Str {
-- 
2.43.0


From abbcb1f2a3bc2bb3c6a4d8173cf908a86653567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:21 +0000
Subject: [PATCH 16/19] verif hook: sync/smart.rs

---
 server/src/engine/sync/smart.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/src/engine/sync/smart.rs b/server/src/engine/sync/smart.rs
index b02330d..652318e 100644
--- a/server/src/engine/sync/smart.rs
+++ b/server/src/engine/sync/smart.rs
@@ -321,3 +321,8 @@ impl<T: fmt::Debug> fmt::Debug for RawRC<T> {
             .finish()
     }
 }
+
+#[cfg(skyverif)]
+pub(crate) mod skyverif {
+    include!(concat!(env!("SKYVERIF_DIR"), "/sync_smart.rs"));
+}
-- 
2.43.0


From 230bf56fdef4a7588b61b0ec6834b64831d832bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:07 +0000
Subject: [PATCH 17/19] fix: the inline vector's iterator must read elements,
 not optional elements

---
 server/src/engine/mem/vinline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/mem/vinline.rs b/server/src/engine/mem/vinline.rs
index 74f2e0e..d27ef53 100644
--- a/server/src/engine/mem/vinline.rs
+++ b/server/src/engine/mem/vinline.rs
@@ -331,7 +331,7 @@ impl<const N: usize, T> IntoIter<N, T> {
             let current = self.i;
             self.i += 1;
             // UNSAFE(@ohsayan): i < l; so in all cases we are behind EOA
-            ptr::read(self.v._as_ptr().add(current).cast())
+            Some(ptr::read(self.v._as_ptr().add(current)))
         }
     }
     #[inline(always)]
@@ -342,7 +342,7 @@ impl<const N: usize, T> IntoIter<N, T> {
         unsafe {
             // UNSAFE(@ohsayan): we get the back pointer and move back; always behind EOA so we're chill
             self.l -= 1;
-            ptr::read(self.v._as_ptr().add(self.l).cast())
+            Some(ptr::read(self.v._as_ptr().add(self.l)))
         }
     }
 }
-- 
2.43.0


From 77d513b286f6fb9c7677889d5d57748b83472b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:07 +0000
Subject: [PATCH 18/19] fix: free the fixed vector's block when it is dropped

---
 server/src/engine/mem/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/mem/fixed_vec.rs b/server/src/engine/mem/fixed_vec.rs
index 8bbc38f..121facc 100644
--- a/server/src/engine/mem/fixed_vec.rs
+++ b/server/src/engine/mem/fixed_vec.rs
@@ -134,8 +134,8 @@ impl<T, const CAP: usize> Drop for FixedVec<T, CAP> {
         // dtor
         self.clear();
         unsafe {
-            // UNSAFE(@ohsayan): dealloc
-            unsafe_apis::dealloc_array(self.p.as_ptr(), self.len());
+            // UNSAFE(@ohsayan): dealloc (NB: we allocated our full capacity)
+            unsafe_apis::dealloc_array(self.p.as_ptr(), CAP);
         }
     }
 }
-- 
2.43.0


From f1d352b681a7dc98cf7a815c3e1f449191e34437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:46 +0000
Subject: [PATCH 19/19] fix: cloning a primary key must copy its block, and
 only if it has one

---
 server/src/engine/core/index/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/src/engine/core/index/key.rs b/server/src/engine/core/index/key.rs
index c34101c..aed887c 100644
--- a/server/src/engine/core/index/key.rs
+++ b/server/src/engine/core/index/key.rs
@@ -52,7 +52,7 @@ pub struct PrimaryIndexKey {
 impl Clone for PrimaryIndexKey {
     fn clone(&self) -> Self {
         match self.tag {
-            TagUnique::SignedInt | TagUnique::UnsignedInt => {
+            TagUnique::Bin | TagUnique::Str => {
                 let (qw, nw) = self.data.dwordqn_load_qw_nw();
                 unsafe {
                     let slice = slice::from_raw_parts(nw as *const u8, qw as _);
@@ -63,7 +63,7 @@ impl Clone for PrimaryIndexKey {
                     }
                 }
             }
-            TagUnique::Bin | TagUnique::Str => Self {
+            TagUnique::SignedInt | TagUnique::UnsignedInt => Self {
                 tag: self.tag,
                 data: unsafe { core::mem::transmute_copy(&self.data) },
             },
-- 
2.43.0

