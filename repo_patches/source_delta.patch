From 3fa25c866ae3f7adfbfb1ccfecdd8d74c7d288d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 01/16] fix: reject did:key identities too short to hold magic
 bytes instead of panicking

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..5228dcb 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("Key is too short to hold magic bytes: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From 35be23362848ab94a6139eecc1ea0087d83b4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 02/16] fix: never panic when displaying an IPLD principal, nor
 confuse a did:key with another DID

---
 ucan/src/ipld/principle.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..06c402a 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -15,7 +15,11 @@ impl FromStr for Principle {
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            if bytes.starts_with(DID_IPLD_PREFIX) {
+                return Err(anyhow!("Not a representable did:key: {}", input));
+            }
+            Ok(Principle(bytes))
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
@@ -27,13 +31,12 @@ impl FromStr for Principle {
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
-                DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
-            ]
-            .concat(),
-            _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
+        let did_content = match bytes
+            .strip_prefix(DID_IPLD_PREFIX)
+            .and_then(|did| std::str::from_utf8(did).ok())
+        {
+            Some(did) => [DID_PREFIX, did].concat(),
+            None => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
         };
 
         write!(f, "{did_content}")
-- 
2.43.0


From 7b0ba077e80dec12d06efeded8c8305021b42753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 03/16] fix: reject IPLD signatures whose declared length is
 not the length of their bytes

---
 ucan/src/ipld/signature.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..503de58 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,9 +130,15 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
+        if buffer.len() != signature_length {
+            return Err(anyhow!(
+                "Expected {} signature bytes, found {}",
+                signature_length,
+                buffer.len()
+            ));
+        }
 
-        Ok((algorithm, signature))
+        Ok((algorithm, buffer.to_vec()))
     }
 }
 
-- 
2.43.0


From df4fd02ed1f250b6f6df032c20b28ff0539f9372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 04/16] fix: check not-before against the same time as expiry
 when validating

---
 ucan/src/ucan.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..1fe8629 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -75,7 +75,7 @@ impl Ucan {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.is_before_activation(now_time) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -119,8 +119,12 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.is_before_activation(None)
+    }
+
+    fn is_before_activation(&self, now_time: Option<u64>) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > now_time.unwrap_or_else(now),
             None => false,
         }
     }
-- 
2.43.0


From 9ba80026d35a405b5564dc9541bb84469ff3fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 05/16] fix: skip capabilities the semantics does not
 understand without dropping later ones

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..7a40482 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From 2104acbace2c234ca91fe534b59cd7226bc4dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 06/16] fix: redelegate every proof when all proofs are
 selected

---
 ucan/src/capability/proof.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..569d760 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,10 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    // The asterisk selects all proofs rather than any resource whatsoever, and
+    // only does so when the scheme is that of a proof selection
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From 56d94c7699ac98f8bb06561d18db62a5b007910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 07/16] fix: keep the colons of the resource when reading an
 as: capability

---
 ucan/src/capability/semantics.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..89c063b 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -131,7 +131,10 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        Some((
+            format!("did:key:{value}"),
+            path_parts.collect::<Vec<&str>>().join(":"),
+        ))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
-- 
2.43.0


From 253326dc3111d3aeaf863c49d47e85b698a820e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 08/16] fix: cap the expiry of a token with an enormous
 lifetime instead of overflowing

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..661edee 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -285,7 +285,7 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime.map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 08a543c9fa18a922a8057521115b2c294e0dcb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 09/16] fix: report a payload that cannot be generated when
 signing instead of panicking

---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 661edee..fc01f6d 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From 914e72462ee4d91a1ddb68b671a5afe6271a5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 10/16] fix: keep the version of a UCAN when converting it from
 IPLD

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From 96789e7e6fab599558b54d715dc19c39e80afa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 11/16] fix: reject token text with anything after the
 signature

---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 1fe8629..3862cb9 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -264,6 +264,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Unexpected data after UCAN signature"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From bcda40cb7988f4c39ef581380e46cec600b3a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 12/16] fix: encode a UCAN from the text that was signed

---
 ucan/src/ucan.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 3862cb9..147fecb 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,7 +1,7 @@
 use crate::{
     capability::Capabilities,
     crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
+    serde::DagJson,
     time::now,
 };
 use anyhow::{anyhow, Result};
@@ -91,12 +91,13 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        // Re-serializing the header and payload may not give back the text that
+        // was signed, e.g. when it was produced by another implementation
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 245767af8621d9ad9d8f816ada5d3147a4a8b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 13/16] fix: reject ill-formed capability maps when
 deserializing and from native maps

---
 ucan/src/capability/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..79eac80 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,11 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+            for caveat in abilities.values().flatten() {
+                if !caveat.is_object() {
+                    return Err(anyhow!("Caveat must be an object: {}", caveat));
+                }
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From 1a8f7e9f91fa425681041d10ca72c3db67d5a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:40 +0000
Subject: [PATCH 14/16] fix: do not attribute a capability to originators of a
 narrower one when merging

---
 ucan/src/chain.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 7a40482..b68bdbc 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -270,9 +270,18 @@ impl ProofChain {
         // that discrete originators are aggregated as we go
         'merge: while let Some(capability_info) = self_capability_infos.pop() {
             for remaining_capability_info in &mut self_capability_infos {
+                // An originator of the redundant capability did not necessarily
+                // delegate the broader one, so unless both are equivalent their
+                // originators must not be mixed
                 if remaining_capability_info
                     .capability
                     .enables(&capability_info.capability)
+                    && (capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability)
+                        || capability_info
+                            .originators
+                            .is_subset(&remaining_capability_info.originators))
                 {
                     remaining_capability_info
                         .originators
-- 
2.43.0


From 82debb0762e736aaf94750591d49a00c44e5f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 15/16] fix: understand an as: capability over any resource of
 the other identity

---
 ucan/src/capability/semantics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 89c063b..a8abd06 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -168,10 +168,11 @@ where
             },
             "as" => {
                 let (did, resource) = self.extract_did(uri.path())?;
-                Resource::As {
-                    did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
-                }
+                let kind = match resource.as_str() {
+                    "*" => ResourceUri::Unscoped,
+                    resource => self.parse_resource(&Url::parse(resource).ok()?)?,
+                };
+                Resource::As { did, kind }
             }
             _ => Resource::Resource {
                 kind: self.parse_resource(&uri)?,
-- 
2.43.0


From 5a5ac31ca30fc1f706bafbffb0e40180731a91e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 16/16] fix: reject proof identifiers that IPLD cannot give
 back

---
 ucan/src/ipld/ucan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index 0835606..4071b3c 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -5,6 +5,7 @@ use crate::{
     serde::Base64Encode,
     ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
+use anyhow::anyhow;
 use cid::Cid;
 use serde::{Deserialize, Serialize};
 use std::{convert::TryFrom, str::FromStr};
@@ -33,7 +34,12 @@ impl TryFrom<&Ucan> for UcanIpld {
         let prf = if let Some(proofs) = ucan.proofs() {
             let mut prf = Vec::new();
             for cid_string in proofs {
-                prf.push(Cid::try_from(cid_string.as_str())?);
+                let cid = Cid::try_from(cid_string.as_str())?;
+                // A link keeps no other spelling of an identifier
+                if cid.to_string() != *cid_string {
+                    return Err(anyhow!("Not a canonical proof CID: {}", cid_string));
+                }
+                prf.push(cid);
             }
             if prf.is_empty() {
                 None
-- 
2.43.0

