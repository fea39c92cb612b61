From 07d7ab0fcac01d406697909631a765a5a360b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:53 +0000
Subject: [PATCH] fix: refuse a neutral blinded salt in the buffer-based strong
 client

StrongAuCPaceClientAugLayer::generate_cpace accepted the neutral element
as the blinded salt; generate_cpace_alloc refuses it.
---
 aucpace/src/client.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aucpace/src/client.rs b/aucpace/src/client.rs
index 1ef7bfc..2bf3e81 100644
--- a/aucpace/src/client.rs
+++ b/aucpace/src/client.rs
@@ -670,7 +670,13 @@ where
         // I have interpreted this as the multiplicative inverse of (r * cj^2)
         // then multiplied by cj again.
         let exponent = (self.blinding_value * cofactor * cofactor).invert() * cofactor;
-        let salt = (blinded_salt * exponent).compress().to_bytes();
+
+        // check if the salt point is the neutral element
+        let salt_point = blinded_salt * exponent;
+        if salt_point.is_identity() {
+            return Err(Error::IllegalPointError);
+        }
+        let salt = salt_point.compress().to_bytes();
         let salt_string = SaltString::encode_b64(&salt).map_err(Error::PasswordHashing)?;
 
         // compute the PRS
-- 
2.43.0

