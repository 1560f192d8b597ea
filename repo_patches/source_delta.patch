From 8dbbedacaab199e229f31afca084e2b28a8694a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 1/5] fix: reject a neutral salt point in the fixed-buffer
 strong AuCPace client

StrongAuCPaceClientAugLayer::generate_cpace_alloc aborts when the blinded
salt unblinds to the neutral element, but its fixed-buffer twin
generate_cpace went on hashing with it.
---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0


From e4562d9896513aa2d2e125b92eac9af95ee3437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 2/5] fix: reject the own message reflected back to a symmetric
 SPAKE2 session

Like the role check does for the A and B sides, and like the reference
python-spake2 (ReflectionThwarted).
---
 spake2/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spake2/src/lib.rs b/spake2/src/lib.rs
index b1d8715..484b410 100644
--- a/spake2/src/lib.rs
+++ b/spake2/src/lib.rs
@@ -386,7 +386,8 @@ impl<G: Group> Spake2<G> {
                 _ => return Err(Error::BadSide),
             },
             Side::Symmetric { id_s: _ } => match msg_side {
-                0x53 => (), // 'S'
+                // 'S', but never our own message sent back to us
+                0x53 if msg2[1..] != self.msg1[..] => (),
                 _ => return Err(Error::BadSide),
             },
         }
-- 
2.43.0


From 4e9c8a5505384ba5a9407273ec78b6f2dc5b04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 3/5] fix: print two hexadecimal digits per byte of a non-UTF-8
 SPAKE2 identity

---
 spake2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spake2/src/lib.rs b/spake2/src/lib.rs
index 484b410..2dc9cd5 100644
--- a/spake2/src/lib.rs
+++ b/spake2/src/lib.rs
@@ -570,7 +570,7 @@ impl fmt::Debug for MaybeUtf8<'_> {
             write!(fmt, "(hex=")?;
 
             for byte in self.0 {
-                write!(fmt, "{byte:x}")?;
+                write!(fmt, "{byte:02x}")?;
             }
 
             write!(fmt, ")")
-- 
2.43.0


From d2f43e3cb8bb535392c2fe7e9b06801f90e7c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 4/5] fix: show the same decoy public key every time for an
 unknown AuCPace user

With partial augmentation a registered user's public value is long-term,
but an unknown user's was drawn anew for every request, so asking twice
told the two apart. Derive it from the server secret and the username.
---
 aucpace/src/server.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/aucpace/src/server.rs b/aucpace/src/server.rs
index 6e66b94..9ddd049 100644
--- a/aucpace/src/server.rs
+++ b/aucpace/src/server.rs
@@ -20,6 +20,9 @@ use subtle::ConstantTimeEq;
 #[cfg(feature = "partial_augmentation")]
 use crate::database::PartialAugDatabase;
 
+#[cfg(feature = "partial_augmentation")]
+use crate::utils::H1;
+
 #[cfg(feature = "strong_aucpace")]
 use crate::database::StrongDatabase;
 
@@ -262,9 +265,9 @@ where
             // generate the prs and client message
             self.generate_prs(user, database, &mut rng, x, x_pub)
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a point on the curve to
+            // be the public key, and handle the failed lookup as normal
+            let x_pub = self.decoy_public_key(user);
             self.lookup_failed(user, x_pub, &mut rng)
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -357,9 +360,9 @@ where
             // generate the prs and client message
             self.generate_prs_strong(user, blinded, database, &mut rng, x, x_pub)?
         } else {
-            // if the user does not have a keypair stored then we generate a random point on the
-            // curve to be the public key, and handle the failed lookup as normal
-            let x_pub = RistrettoPoint::random(&mut rng);
+            // if the user does not have a keypair stored then we derive a point on the curve to
+            // be the public key, and handle the failed lookup as normal
+            let x_pub = self.decoy_public_key(user);
             self.lookup_failed_strong(user, blinded, x_pub, &mut rng)?
         };
         let next_step = AuCPaceServerCPaceSubstep::new(self.ssid, prs, rng);
@@ -434,6 +437,17 @@ where
         }
     }
 
+    /// Derive the public key to show for a user without a long-term keypair.
+    /// Like a stored key it has to be the same every time, otherwise asking twice would reveal
+    /// that the user is not registered.
+    #[cfg(feature = "partial_augmentation")]
+    fn decoy_public_key(&self, username: &[u8]) -> RistrettoPoint {
+        let mut hasher: D = H1();
+        hasher.update(self.secret.0.to_le_bytes());
+        hasher.update(username);
+        RistrettoPoint::from_hash(hasher)
+    }
+
     /// Generate the message for if the lookup failed
     fn lookup_failed<CSPRNG>(
         &self,
-- 
2.43.0


From 672940c2aef67fe0cb9b0437f349d29262a01357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:36 +0000
Subject: [PATCH 5/5] fix: finish SPAKE2 exchanges in groups whose elements are
 not 32 bytes long

---
 spake2/src/ed25519.rs | 59 +++++++++++++------------------------------
 1 file changed, 18 insertions(+), 41 deletions(-)

diff --git a/spake2/src/ed25519.rs b/spake2/src/ed25519.rs
index 7c311b0..920a681 100644
--- a/spake2/src/ed25519.rs
+++ b/spake2/src/ed25519.rs
@@ -137,38 +137,25 @@ pub fn hash_ab(
     second_msg: &[u8],
     key_bytes: &[u8],
 ) -> Vec<u8> {
-    assert_eq!(first_msg.len(), 32);
-    assert_eq!(second_msg.len(), 32);
-    // the transcript is fixed-length, made up of 6 32-byte values:
-    // byte 0-31   : sha256(pw)
-    // byte 32-63  : sha256(idA)
-    // byte 64-95  : sha256(idB)
-    // byte 96-127 : X_msg
-    // byte 128-159: Y_msg
-    // byte 160-191: K_bytes
-    let mut transcript = [0u8; 6 * 32];
-
+    // the transcript is made up of 3 hashes and 3 group elements, each of fixed length:
+    // sha256(pw) | sha256(idA) | sha256(idB) | X_msg | Y_msg | K_bytes
     let mut pw_hash = Sha256::new();
     pw_hash.update(password_vec);
-    transcript[0..32].copy_from_slice(&pw_hash.finalize());
 
     let mut ida_hash = Sha256::new();
     ida_hash.update(id_a);
-    transcript[32..64].copy_from_slice(&ida_hash.finalize());
 
     let mut idb_hash = Sha256::new();
     idb_hash.update(id_b);
-    transcript[64..96].copy_from_slice(&idb_hash.finalize());
-
-    transcript[96..128].copy_from_slice(first_msg);
-    transcript[128..160].copy_from_slice(second_msg);
-    transcript[160..192].copy_from_slice(key_bytes);
-
-    //println!("transcript: {:?}", transcript.iter().to_hex());
 
     //let mut hash = G::TranscriptHash::default();
     let mut hash = Sha256::new();
-    hash.update(transcript);
+    hash.update(pw_hash.finalize());
+    hash.update(ida_hash.finalize());
+    hash.update(idb_hash.finalize());
+    hash.update(first_msg);
+    hash.update(second_msg);
+    hash.update(key_bytes);
     hash.finalize().to_vec()
 }
 
@@ -180,40 +167,30 @@ pub fn hash_symmetric(
     msg_v: &[u8],
     key_bytes: &[u8],
 ) -> Vec<u8> {
-    assert_eq!(msg_u.len(), 32);
-    assert_eq!(msg_v.len(), 32);
     // # since we don't know which side is which, we must sort the messages
     // first_msg, second_msg = sorted([msg1, msg2])
     // transcript = b"".join([sha256(pw).digest(),
     //                        sha256(idSymmetric).digest(),
     //                        first_msg, second_msg, K_bytes])
 
-    // the transcript is fixed-length, made up of 5 32-byte values:
-    // byte 0-31   : sha256(pw)
-    // byte 32-63  : sha256(idSymmetric)
-    // byte 64-95  : X_msg
-    // byte 96-127 : Y_msg
-    // byte 128-159: K_bytes
-    let mut transcript = [0u8; 5 * 32];
-
+    // the transcript is made up of 2 hashes and 3 group elements, each of fixed length:
+    // sha256(pw) | sha256(idSymmetric) | X_msg | Y_msg | K_bytes
     let mut pw_hash = Sha256::new();
     pw_hash.update(password_vec);
-    transcript[0..32].copy_from_slice(&pw_hash.finalize());
 
     let mut ids_hash = Sha256::new();
     ids_hash.update(id_s);
-    transcript[32..64].copy_from_slice(&ids_hash.finalize());
 
+    let mut hash = Sha256::new();
+    hash.update(pw_hash.finalize());
+    hash.update(ids_hash.finalize());
     if msg_u < msg_v {
-        transcript[64..96].copy_from_slice(msg_u);
-        transcript[96..128].copy_from_slice(msg_v);
+        hash.update(msg_u);
+        hash.update(msg_v);
     } else {
-        transcript[64..96].copy_from_slice(msg_v);
-        transcript[96..128].copy_from_slice(msg_u);
+        hash.update(msg_v);
+        hash.update(msg_u);
     }
-    transcript[128..160].copy_from_slice(key_bytes);
-
-    let mut hash = Sha256::new();
-    hash.update(transcript);
+    hash.update(key_bytes);
     hash.finalize().to_vec()
 }
-- 
2.43.0

