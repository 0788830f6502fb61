From 8fa2541f7936325e3fd3ccbaa6030652666c49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 01/26] fix: p256: multiply by all 256 bits of the scalar

The ladder visited only the low 8 bits of the low 7 limbs, so the ephemeral
private key was effectively 56 bits and mult_scalar was not [n]P.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From 1f3fbb21288994d467d1ab432e25c478245bcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/26] fix: p256: reject integers that are not below the field
 prime

A peer could send a point with a coordinate in [p, 2^256); it was accepted or
tripped the precondition assertion of reduce_once.
---
 src/crypto/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..8412223 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -614,6 +614,11 @@ pub mod int256 {
                 x.v[LIMBS - 1 - i] = vi;
             }
 
+            // `Int256` must be < P256
+            if x.reduce_once_zero().compare(&x).0 != 0 {
+                return None;
+            }
+
             Some(x)
         }
     }
-- 
2.43.0


From b6f2ebcf8d8b323ce5760cc704c07658d5d0e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 03/26] fix: never encrypt two records under the same nonce
 after a failed write

The sequence number was advanced only when the whole record had been written,
so the record after a failed write reused the nonce of the failed one.
---
 src/tls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..26e1e03 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -139,6 +139,9 @@ impl<W: Write> TlsWriter<W> {
             }
         };
 
+        // the nonce is used up now, even if the record cannot be written completely.
+        self.write_count += 1;
+
         let fragment_len = encrypted_fragment.len();
         if fragment_len > ENC_RECORD_MAX_LEN {
             panic!("record too long: {} > 2^14 + 2048", fragment_len);
@@ -150,8 +153,6 @@ impl<W: Write> TlsWriter<W> {
         self.writer.write_be_u16(fragment_len as u16)?;
         self.writer.write_all(&encrypted_fragment)?;
 
-        self.write_count += 1;
-
         Ok(())
     }
 
-- 
2.43.0


From a94f99ae0eef6dbe5a73c43da9397ff87a506cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:13 +0000
Subject: [PATCH 04/26] fix: reject trailing data after the hello extensions

The trailing bytes were dropped and so missing from the transcript hash: they
could be added to a ServerHello in transit without the handshake failing.
---
 src/tls_item.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..2c6aff6 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,12 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "trailing data after optional item"
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From e305019a87da0b576ae09a331b0b7eb5f2890bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 05/26] fix: return an error for non-application messages after
 the handshake

An alert, ChangeCipherSpec or handshake message from the peer panicked.
---
 src/tls.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 26e1e03..dc408d1 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -405,9 +405,16 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // TODO: re-handshake
+                HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "renegotiation is not supported")
+                }
             }
         }
     }
-- 
2.43.0


From d497bb9303ad58d5e5dc0f8a4df58eed97190beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 06/26] fix: report an overlong decrypted record instead of
 panicking

Ciphertexts of up to 2^14 + 2048 bytes are accepted, so the peer can send a
record that decrypts to more than 2^14 bytes.
---
 src/tls.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index dc408d1..b697b94 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -310,8 +310,7 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(RecordOverflow, "decrypted record too long: {}", data.len());
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From 142468674275b9fcaf3cceba7764e208c9fa0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:15 +0000
Subject: [PATCH 07/26] fix: reject a ServerKeyExchange for a curve that was
 not offered

The named curve was ignored and the point always taken as a P-256 point.
---
 src/cipher/ecdhe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..c247345 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -122,6 +122,11 @@ impl KeyExchange for EllipticDiffieHellman {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
 
+        let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
+        if curve != NamedCurve::secp256r1 {
+            return tls_err!(IllegalParameter, "server chose a curve we did not offer");
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 7246d728036f9142b77cf17cf3f4025d50a16ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 08/26] fix: reject trailing data in ServerKeyExchange

---
 src/cipher/ecdhe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index c247345..e8a7698 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -121,6 +121,9 @@ impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "trailing data in ServerKeyExchange");
+        }
 
         let EcParameters::named_curve(curve) = ecdh_params.params.curve_params;
         if curve != NamedCurve::secp256r1 {
-- 
2.43.0


From f0eb40940124eb92a50d39aadeff61f8a6f0be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 09/26] fix: retry interrupted reads

An interrupted read lost the bytes already read of the record and was taken
for the end of the stream.
---
 src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index bc10366..0e8d792 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -89,7 +89,11 @@ pub trait ReadExt: Read {
         let len = buf.len();
         let mut pos = 0;
         while pos < len {
-            let num_bytes = self.read(&mut buf[pos..])?;
+            let num_bytes = match self.read(&mut buf[pos..]) {
+                Ok(num_bytes) => num_bytes,
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             if num_bytes == 0 {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From 768d7b0b103c00a2ec4d0c73117c636ed8a74ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 10/26] fix: reject a ServerKeyExchange with a signature
 algorithm not offered

---
 src/cipher/ecdhe.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index e8a7698..4b0ff6f 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -6,7 +6,7 @@ use super::KeyExchange;
 use crate::crypto::p256;
 use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
-use crate::signature::DigitallySigned;
+use crate::signature::{DigitallySigned, HashAlgorithm, SignatureAlgorithm};
 use crate::tls_item::TlsItem;
 use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::TlsResult;
@@ -130,6 +130,15 @@ impl KeyExchange for EllipticDiffieHellman {
             return tls_err!(IllegalParameter, "server chose a curve we did not offer");
         }
 
+        let algorithm = &ecdh_params.signed_params.algorithm;
+        if algorithm.hash != HashAlgorithm::sha256 || algorithm.signature != SignatureAlgorithm::rsa
+        {
+            return tls_err!(
+                IllegalParameter,
+                "server chose a signature algorithm we did not offer"
+            );
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 02f31c762aeadf63081ba10ff13108831a39f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 11/26] fix: hmac: hash keys longer than the block size

Such keys panicked; RFC 2104 hashes them first.
---
 src/cipher/prf.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..69a9b59 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -8,10 +8,13 @@ use std::mem;
 pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
-    if key.len() > B {
-        // FIXME
-        unimplemented!();
-    }
+    let hashed_key;
+    let key = if key.len() > B {
+        hashed_key = sha256(key);
+        &hashed_key[..]
+    } else {
+        key
+    };
 
     let mut i_msg = [0x36u8; B].to_vec();
     let mut o_msg = [0x5cu8; B].to_vec();
-- 
2.43.0


From 3a41c8584ea94de65f788218d56341ba936b6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 12/26] fix: reject ChangeCipherSpec inside a handshake message

The start of the Finished message could be sent in the clear before
ChangeCipherSpec and its rest encrypted after it.
---
 src/handshake.rs | 4 ++++
 src/tls.rs       | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..57e0cec 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -335,6 +335,10 @@ impl HandshakeBuffer {
         HandshakeBuffer { buf: Vec::new() }
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     pub fn add_record(&mut self, fragment: &[u8]) {
         self.buf.extend(fragment);
     }
diff --git a/src/tls.rs b/src/tls.rs
index b697b94..2f7a6bf 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -346,6 +346,12 @@ impl<R: ReadExt> TlsReader<R> {
             let record = self.read_record()?;
             match record.content_type {
                 ChangeCipherSpecTy => {
+                    if !self.handshake_buffer.is_empty() {
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ChangeCipherSpec arrived in the middle of a handshake message"
+                        );
+                    }
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
-- 
2.43.0


From 27d55befe47955358fbe5f510c83e9d60a6677a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 13/26] fix: end the stream at an alert or an invalid record

Data that followed a close_notify alert, or a record that failed
authentication, was still delivered to the reader.
---
 src/tls.rs | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 2f7a6bf..919f0e9 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -5,14 +5,11 @@ use crate::cipher::{Decryptor, Encryptor};
 use crate::handshake::{Handshake, HandshakeBuffer};
 use crate::tls_item::TlsItem;
 use crate::tls_result::TlsErrorKind::{
-    AlertReceived, BadRecordMac, RecordOverflow, UnexpectedMessage,
+    AlertReceived, BadRecordMac, IoFailure, RecordOverflow, UnexpectedMessage,
 };
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
-use crate::{
-    alert::{Alert, AlertDescription},
-    util::u64_be_array,
-};
+use crate::{alert::Alert, util::u64_be_array};
 
 use self::ContentType::{AlertTy, ApplicationDataTy, ChangeCipherSpecTy, HandshakeTy};
 use self::Message::{
@@ -207,6 +204,8 @@ pub struct TlsReader<R: ReadExt> {
     read_count: u64,
     handshake_buffer: HandshakeBuffer,
     iv: Option<Vec<u8>>,
+    // peer sent an alert, or a record was invalid: no more data.
+    closed: bool,
 }
 
 /// Reads `Record` or `Message` from a readable object.
@@ -219,6 +218,7 @@ impl<R: ReadExt> TlsReader<R> {
             read_count: 0,
             handshake_buffer: HandshakeBuffer::new(),
             iv: None,
+            closed: false,
         }
     }
 
@@ -401,27 +401,30 @@ impl<R: ReadExt> TlsReader<R> {
         if self.decryptor.is_none() {
             panic!("ApplicationData called before handshake");
         }
-        loop {
-            let msg = self.read_message()?;
-            match msg {
-                ApplicationDataMessage(msg) => return Ok(msg),
-                // TODO: handle other cases
-                AlertMessage(Alert {
-                    level: _,
-                    description: AlertDescription::close_notify,
-                }) => return Ok(vec![]),
-                AlertMessage(alert) => {
-                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
-                }
-                ChangeCipherSpecMessage => {
-                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
-                }
-                // TODO: re-handshake
-                HandshakeMessage(..) => {
-                    return tls_err!(UnexpectedMessage, "renegotiation is not supported")
-                }
+        if self.closed {
+            return tls_err!(AlertReceived, "connection is already closed");
+        }
+
+        let result = match self.read_message() {
+            Ok(ApplicationDataMessage(msg)) => return Ok(msg),
+            Ok(AlertMessage(alert)) => tls_err!(AlertReceived, "alert: {:?}", alert.description),
+            Ok(ChangeCipherSpecMessage) => {
+                tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+            }
+            // TODO: re-handshake
+            Ok(HandshakeMessage(..)) => {
+                tls_err!(UnexpectedMessage, "renegotiation is not supported")
+            }
+            Err(err) => Err(err),
+        };
+
+        // alerts and fatal errors end the connection. only i/o can be retried.
+        if let Err(ref err) = result {
+            if err.kind != IoFailure {
+                self.closed = true;
             }
         }
+        result
     }
 
     pub fn read_handshake(&mut self) -> TlsResult<Handshake> {
-- 
2.43.0


From 030aef1f7359e28daaaff1aedc2385ea3c79ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 14/26] fix: report a truncated handshake message as a decode
 error

It was reported as an i/o failure, so the decode_error alert was not sent.
---
 src/cipher/ecdhe.rs |  5 +++--
 src/handshake.rs    |  4 ++--
 src/tls_result.rs   | 11 +++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 4b0ff6f..347f283 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -9,7 +9,7 @@ use crate::handshake::NamedCurve;
 use crate::signature::{DigitallySigned, HashAlgorithm, SignatureAlgorithm};
 use crate::tls_item::TlsItem;
 use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
-use crate::tls_result::TlsResult;
+use crate::tls_result::{TlsError, TlsResult};
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
 
@@ -120,7 +120,8 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: EcdheServerKeyExchange =
+            TlsItem::tls_read(&mut reader).map_err(TlsError::eof_as_decode_error)?;
         if reader.position() != data.len() as u64 {
             return tls_err!(DecodeError, "trailing data in ServerKeyExchange");
         }
diff --git a/src/handshake.rs b/src/handshake.rs
index 57e0cec..a675f73 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -2,7 +2,7 @@ use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
 use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
-use crate::tls_result::TlsResult;
+use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
 pub use crate::signature::{
@@ -371,7 +371,7 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
+        let message = TlsItem::tls_read(reader).map_err(TlsError::eof_as_decode_error)?;
         Ok(Some(message))
     }
 }
diff --git a/src/tls_result.rs b/src/tls_result.rs
index be42c79..01326ba 100644
--- a/src/tls_result.rs
+++ b/src/tls_result.rs
@@ -31,6 +31,17 @@ impl TlsError {
             desc: desc,
         })
     }
+
+    // running out of bytes inside a message is not a failure of the connection.
+    pub fn eof_as_decode_error(self) -> TlsError {
+        match self.kind {
+            TlsErrorKind::IoFailure => TlsError {
+                kind: TlsErrorKind::DecodeError,
+                desc: self.desc,
+            },
+            _ => self,
+        }
+    }
 }
 
 impl Error for TlsError {
-- 
2.43.0


From a1e2e3936c1b52ed5041f408389ee031368b34f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 15/26] fix: flush the underlying writer

flush() did nothing, and over a buffered writer the handshake never sent the
ClientHello, nor close() its alert.
---
 src/client.rs | 4 +++-
 src/tls.rs    | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..003c2f4 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -89,6 +89,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
 
         let client_hello = Handshake::new_client_hello(random, cipher_suite, extensions)?;
         self.writer.write_handshake(&client_hello)?;
+        self.writer.flush()?;
 
         let server_hello_data = expect!(server_hello);
         {
@@ -207,6 +208,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
         };
         let finished = Handshake::new_finished(client_verify_data)?;
         self.writer.write_handshake(&finished)?;
+        self.writer.flush()?;
 
         // Although client->server is encrypted, server->client isn't yet.
         // server may send either ChangeCipherSpec or Alert.
@@ -293,7 +295,7 @@ impl<R: Read, W: Write> Write for TlsClient<R, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        Ok(())
+        self.writer.get_mut().flush()
     }
 
     fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
diff --git a/src/tls.rs b/src/tls.rs
index 919f0e9..3ecce0e 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -109,6 +109,11 @@ impl<W: Write> TlsWriter<W> {
         self.iv = Some(iv);
     }
 
+    pub fn flush(&mut self) -> TlsResult<()> {
+        self.writer.flush()?;
+        Ok(())
+    }
+
     pub fn write_record(&mut self, record: Record) -> TlsResult<()> {
         let encrypted_fragment = match self.encryptor {
             None => record.fragment,
@@ -174,7 +179,8 @@ impl<W: Write> TlsWriter<W> {
     pub fn write_alert(&mut self, alert: &Alert) -> TlsResult<()> {
         let mut data = Vec::new();
         alert.tls_write(&mut data)?;
-        self.write_data(AlertTy, &data)
+        self.write_data(AlertTy, &data)?;
+        self.flush()
     }
 
     pub fn write_change_cipher_spec(&mut self) -> TlsResult<()> {
-- 
2.43.0


From 71b989eb42d45418bdf14dadd34cc1a02b07a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 16/26] verif: hooks to set the record sequence numbers, off by
 default

Enabled by RUSTFLAGS=--cfg husk_verif.
---
 src/tls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tls.rs b/src/tls.rs
index 3ecce0e..1060c83 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -109,6 +109,12 @@ impl<W: Write> TlsWriter<W> {
         self.iv = Some(iv);
     }
 
+    /// verification hook: continue from the given sequence number.
+    #[cfg(husk_verif)]
+    pub fn verif_set_write_count(&mut self, count: u64) {
+        self.write_count = count;
+    }
+
     pub fn flush(&mut self) -> TlsResult<()> {
         self.writer.flush()?;
         Ok(())
@@ -248,6 +254,12 @@ impl<R: ReadExt> TlsReader<R> {
         self.iv = Some(iv);
     }
 
+    /// verification hook: continue from the given sequence number.
+    #[cfg(husk_verif)]
+    pub fn verif_set_read_count(&mut self, count: u64) {
+        self.read_count = count;
+    }
+
     /// Read a record from readable stream.
     ///
     /// Any record with unknown content type is treated as an error.
-- 
2.43.0


From 9d3308aee74cca9cacfa9cbfd9a4d57c14a09bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 17/26] fix: report trailing data in a handshake message as a
 decode error

---
 src/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index a675f73..cac0738 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,7 +1,7 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
+use crate::tls_result::TlsErrorKind::{DecodeError, UnexpectedMessage};
 use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
@@ -246,7 +246,7 @@ macro_rules! tls_handshake(
                 let should_be_err = reader.read_u8();
                 match should_be_err {
                     Err(_) => {},
-                    Ok(_) => return tls_err!(InternalError, "expected EOF but found not"),
+                    Ok(_) => return tls_err!(DecodeError, "expected EOF but found not"),
                 }
 
                 Ok(ret)
-- 
2.43.0


From d9db7ed11e438276b003d507c16ecf12086988c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 18/26] fix: refuse to encode handshake messages and extensions
 too long for their length field

---
 src/handshake.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index cac0738..c92571c 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,7 +1,7 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, UnexpectedMessage};
+use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
 use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
@@ -89,17 +89,23 @@ macro_rules! tls_hello_extension {
 
         impl TlsItem for $enum_name {
             fn tls_write<W: WriteExt>(&self, writer: &mut W) -> TlsResult<()> {
+                // extension_type, extension_data_size
+                let body_size = self.tls_size() - 4;
+                if body_size >= 1 << 16 {
+                    return tls_err!(InternalError, "Hello Extension too long: {}", body_size);
+                }
+
                 match *self {
                     $(
                         $enum_name::$ext_name(ref body) => {
                             try_write_num!(u16, writer, tt_to_expr!($ext_num));
-                            try_write_num!(u16, writer, body.tls_size() as u16);
+                            try_write_num!(u16, writer, body_size);
                             body.tls_write(writer)?;
                         }
                     )+
                     $enum_name::Unknown(extension_type, ref extension_data) => {
                         try_write_num!(u16, writer, extension_type);
-                        try_write_num!(u16, writer, extension_data.len() as u16);
+                        try_write_num!(u16, writer, body_size);
                         writer.write_all(extension_data)?;
                     }
                 }
@@ -205,9 +211,14 @@ macro_rules! tls_handshake(
                 match *self {
                     $(
                         Handshake::$name(ref body) => {
-                            writer.write_u8(tt_to_expr!($num))?;
-
                             let len = body.tls_size();
+                            if len >= 1 << 24 {
+                                return tls_err!(InternalError,
+                                                "handshake message too long: {}",
+                                                len);
+                            }
+
+                            writer.write_u8(tt_to_expr!($num))?;
                             writer.write_u8(((len >> 16) & 0xff) as u8)?;
                             writer.write_u8(((len >> 8) & 0xff) as u8)?;
                             writer.write_u8((len & 0xff) as u8)?;
-- 
2.43.0


From f915b649ea9e32e3ca06ec48923f0c455b91d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:23 +0000
Subject: [PATCH 19/26] fix: check the length field when decoding a handshake
 message

---
 src/handshake.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c92571c..abe7431 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -234,8 +234,7 @@ macro_rules! tls_handshake(
             fn tls_read<R: ReadExt>(reader: &mut R) -> TlsResult<Handshake> {
                 let ty = reader.read_u8()?;
 
-                // HandshakeBuffer already checked validity of length
-                let _len = {
+                let len = {
                     let n1 = reader.read_u8()? as u32;
                     let n2 = reader.read_u8()? as u32;
                     let n3 = reader.read_u8()? as u32;
@@ -260,6 +259,11 @@ macro_rules! tls_handshake(
                     Ok(_) => return tls_err!(DecodeError, "expected EOF but found not"),
                 }
 
+                // msg_type, length
+                if ret.tls_size() != 4 + len as u64 {
+                    return tls_err!(DecodeError, "Handshake message has wrong size");
+                }
+
                 Ok(ret)
             }
 
-- 
2.43.0


From b24f766cde4fd871e20edadcba17041b1f7d3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 20/26] fix: compare the record authenticator in constant time
 in optimised builds too

The optimiser turned the open-coded loop over the 16 bytes into a comparison that
stops at the first difference. crypto_compare does not have that problem.
---
 src/cipher/chacha20_poly1305.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/cipher/chacha20_poly1305.rs b/src/cipher/chacha20_poly1305.rs
index c53aa57..66ebe2e 100644
--- a/src/cipher/chacha20_poly1305.rs
+++ b/src/cipher/chacha20_poly1305.rs
@@ -12,7 +12,7 @@ use crate::crypto::chacha20::ChaCha20;
 use crate::crypto::poly1305;
 use crate::tls_result::TlsErrorKind::BadRecordMac;
 use crate::tls_result::TlsResult;
-use crate::util::u64_le_array;
+use crate::util::{crypto_compare, u64_le_array};
 
 const KEY_LEN: usize = 256 / 8;
 const EXPLICIT_IV_LEN: usize = 0;
@@ -83,12 +83,7 @@ impl Decryptor for ChaCha20Poly1305Decryptor {
         // even if `mac_computed != mac_expected`, decrypt the data to prevent timing attack.
         let plain = chacha20.encrypt(encrypted);
 
-        let mut diff = 0u8;
-        for i in 0..MAC_LEN {
-            diff |= mac_computed[i] ^ mac_expected[i];
-        }
-
-        if diff != 0 {
+        if !crypto_compare(&mac_computed, mac_expected) {
             tls_err!(BadRecordMac, "wrong mac")
         } else {
             Ok(plain)
-- 
2.43.0


From 5c6efc21922da96fa33a780a5f8cd3cd8cacee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 21/26] fix: keep selections free of secret-dependent loads at
 all optimisation levels

At opt-level 1 and s, Int256::choose inlined into divide_by_2 became a load through
a pointer that depends on the parity of a secret field element.
---
 src/crypto/p256.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 8412223..fb2312e 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -339,6 +339,9 @@ pub mod int256 {
         // if flag == 0, returns a
         // if flag == 1, returns b
         pub fn choose(flag: W<u32>, a: &Int256, b: &Int256) -> Int256 {
+            // keep the optimiser from turning this into a load from `a` or `b`
+            let flag = W(std::hint::black_box(flag.0));
+
             let mut v = [W(0); LIMBS];
             for (i, v) in v.iter_mut().enumerate().take(LIMBS) {
                 *v = a.v[i] ^ (flag * (a.v[i] ^ b.v[i]));
-- 
2.43.0


From 2ec06ed98c0c8978f4692947f76dfd130220c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:23 +0000
Subject: [PATCH 22/26] fix: close with a close_notify of level warning

At level fatal it tells the peer that the connection failed: OpenSSL
reports an error instead of the end of the stream.
---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 003c2f4..dca4cdb 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -249,7 +249,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
 
     pub fn close(&mut self) -> TlsResult<()> {
         let alert_data = alert::Alert {
-            level: alert::AlertLevel::fatal,
+            level: alert::AlertLevel::warning,
             description: alert::AlertDescription::close_notify,
         };
         self.writer.write_alert(&alert_data)?;
-- 
2.43.0


From 0fc28c5623b383816b2441171e2f1adb49f7a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:08 +0000
Subject: [PATCH 23/26] fix: read without copying the rest of the record at
 every call

A record of n bytes that was read in small pieces took time quadratic in n.
---
 src/client.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index dca4cdb..91b1d3e 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,5 +1,6 @@
 use rand::{rngs::OsRng, RngCore};
 use std::cmp;
+use std::collections::VecDeque;
 use std::io;
 use std::io::prelude::*;
 use std::net::TcpStream;
@@ -20,7 +21,7 @@ pub struct TlsClient<R: Read, W: Write> {
     pub reader: TlsReader<R>,
     pub writer: TlsWriter<W>,
     pub rng: OsRng,
-    buf: Vec<u8>,
+    buf: VecDeque<u8>,
 }
 
 impl<R: Read, W: Write> TlsClient<R, W> {
@@ -29,7 +30,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             reader: TlsReader::new(reader),
             writer: TlsWriter::new(writer),
             rng,
-            buf: Vec::new(),
+            buf: VecDeque::new(),
         };
 
         // handshake failed. send alert if necessary
@@ -317,11 +318,6 @@ impl<R: Read, W: Write> Write for TlsClient<R, W> {
     }
 }
 
-// A replacement for the deprecated std::slice::bytes::copy_memory
-fn copy_memory(from: &[u8], mut to: &mut [u8]) -> usize {
-    to.write(from).unwrap()
-}
-
 impl<R: Read, W: Write> Read for TlsClient<R, W> {
     // if ssl connection is failed, return `EndOfFile`.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
@@ -341,10 +337,8 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
 
             let selflen = self.buf.len();
             let necessary = cmp::min(remaining, selflen);
-            copy_memory(&self.buf[..necessary], &mut buf[pos..pos + necessary]);
+            self.buf.read_exact(&mut buf[pos..pos + necessary])?;
             pos += necessary;
-
-            self.buf = self.buf[necessary..].to_vec();
         }
 
         Ok(pos)
-- 
2.43.0


From 376da7f289f49915cb579bcd5b7befd4da0d2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:30 +0000
Subject: [PATCH 24/26] fix: no application data in the middle of a handshake
 message

The beginning of a handshake message on an established connection went
unnoticed: data sent after it was delivered.
---
 src/tls.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls.rs b/src/tls.rs
index 1060c83..65c4200 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -409,6 +409,12 @@ impl<R: ReadExt> TlsReader<R> {
                     }
                 }
                 ApplicationDataTy => {
+                    if !self.handshake_buffer.is_empty() {
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ApplicationData arrived in the middle of a handshake message"
+                        );
+                    }
                     return Ok(ApplicationDataMessage(record.fragment));
                 }
             }
-- 
2.43.0


From 4a0cf1d0d759a8d75590566e80db423ab36a16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:30 +0000
Subject: [PATCH 25/26] fix: choose the private key between 1 and the order of
 the group

A draw of 0 (or of the order) was used: the key share was then the point
at infinity, written as (0, 0), and the shared secret 0.
---
 src/cipher/ecdhe.rs |  6 +++---
 src/crypto/p256.rs  | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 347f283..c7c43ba 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -156,9 +156,9 @@ impl KeyExchange for EllipticDiffieHellman {
                 for i in 0..8 {
                     x.v[i] = W(rng.next_u32());
                 }
-                let xx = x.reduce_once(W(0));
-                let x_is_okay = xx.compare(&x);
-                if x_is_okay == W(0) {
+                // 0 < x < order: otherwise the key share may be the point at infinity
+                let x_is_okay = p256::int256::ZERO.less(&x) & x.less(&p256::int256::ORDER);
+                if x_is_okay == W(1) {
                     return x;
                 }
             }
diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index fb2312e..9a46817 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -309,6 +309,19 @@ pub mod int256 {
             W(0xffffffff),
         ],
     };
+    // order of the group generated by G
+    pub const ORDER: Int256 = Int256 {
+        v: [
+            W(0xfc632551),
+            W(0xf3b9cac2),
+            W(0xa7179e84),
+            W(0xbce6faad),
+            W(0xffffffff),
+            W(0xffffffff),
+            W(0x00000000),
+            W(0xffffffff),
+        ],
+    };
     pub const ZERO: Int256 = Int256 { v: [W(0); LIMBS] };
     pub const ONE: Int256 = Int256 {
         v: [W(1), W(0), W(0), W(0), W(0), W(0), W(0), W(0)],
@@ -336,6 +349,13 @@ pub mod int256 {
             diff & W(1)
         }
 
+        // return 1 if self < b.
+        // otherwise return 0.
+        pub fn less(&self, b: &Int256) -> W<u32> {
+            let (_, carry_sub) = self.sub_no_reduce(b);
+            carry_sub
+        }
+
         // if flag == 0, returns a
         // if flag == 1, returns b
         pub fn choose(flag: W<u32>, a: &Int256, b: &Int256) -> Int256 {
-- 
2.43.0


From 4cabd95cc9c864570fe3d165460d8712a9752c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:14 +0000
Subject: [PATCH 26/26] hook: set the record counters whatever type they have
 (cfg husk_verif)

---
 src/tls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 65c4200..b928140 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -112,7 +112,7 @@ impl<W: Write> TlsWriter<W> {
     /// verification hook: continue from the given sequence number.
     #[cfg(husk_verif)]
     pub fn verif_set_write_count(&mut self, count: u64) {
-        self.write_count = count;
+        self.write_count = count as _;
     }
 
     pub fn flush(&mut self) -> TlsResult<()> {
@@ -257,7 +257,7 @@ impl<R: ReadExt> TlsReader<R> {
     /// verification hook: continue from the given sequence number.
     #[cfg(husk_verif)]
     pub fn verif_set_read_count(&mut self, count: u64) {
-        self.read_count = count;
+        self.read_count = count as _;
     }
 
     /// Read a record from readable stream.
-- 
2.43.0

