From 52236ed747821abe0d166c5243f5d8c5c0432694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 01/13] Add verification hooks behind cfg(vp_hooks)

---
 src/lib.rs                 |  5 +++++
 src/private/bound_token.rs |  2 ++
 src/vp_hooks.rs            | 39 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 src/vp_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index d57f530..19e789e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,10 +26,15 @@
 //! This form data does not include the `file` field, so you need to add the `file` field to upload a file.
 //! See [image-uploader example](https://github.com/bouzuya/cloud-storage-signature/tree/master/examples/image-uploader).
 //!
+#![allow(unexpected_cfgs)]
+
 pub mod html_form_data;
 mod private;
 pub mod signed_url;
 pub mod signing_key;
+#[cfg(vp_hooks)]
+#[doc(hidden)]
+pub mod vp_hooks;
 
 pub use self::html_form_data::{HtmlFormData, HtmlFormDataBuilder, PolicyDocumentSigningOptions};
 pub use self::signed_url::{build_signed_url, BuildSignedUrlOptions};
diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..ba49a15 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -190,6 +190,8 @@ impl BoundToken {
         let url = format!(
             "https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/{email}:signBlob"
         );
+        #[cfg(vp_hooks)]
+        let url = crate::vp_hooks::rewrite_url(url);
         let request = self
             .client
             .request(reqwest::Method::POST, url)
diff --git a/src/vp_hooks.rs b/src/vp_hooks.rs
new file mode 100644
index 0000000..1c89599
--- /dev/null
+++ b/src/vp_hooks.rs
@@ -0,0 +1,39 @@
+//! Verification hooks. Compiled only with `--cfg vp_hooks`; not part of the API.
+
+use std::sync::RwLock;
+
+use crate::private::policy_document::PolicyDocument;
+
+static SIGN_BLOB_BASE_URL: RwLock<Option<String>> = RwLock::new(None);
+
+/// Redirects `https://iamcredentials.googleapis.com` to `base_url`.
+pub fn set_sign_blob_base_url(base_url: Option<String>) {
+    *SIGN_BLOB_BASE_URL.write().unwrap_or_else(|e| e.into_inner()) = base_url;
+}
+
+pub(crate) fn rewrite_url(url: String) -> String {
+    let guard = SIGN_BLOB_BASE_URL
+        .read()
+        .unwrap_or_else(|e| e.into_inner());
+    match (
+        guard.as_deref(),
+        url.strip_prefix("https://iamcredentials.googleapis.com"),
+    ) {
+        (Some(base_url), Some(rest)) => format!("{base_url}{rest}"),
+        _ => url,
+    }
+}
+
+/// Parses `json` as a policy document and serializes it again.
+pub fn policy_document_reserialize(json: &str) -> Result<String, String> {
+    let policy_document =
+        serde_json::from_str::<PolicyDocument>(json).map_err(|e| e.to_string())?;
+    serde_json::to_string(&policy_document).map_err(|e| e.to_string())
+}
+
+/// Parses `a` and `b` as policy documents and compares them.
+pub fn policy_document_eq(a: &str, b: &str) -> Result<bool, String> {
+    let a = serde_json::from_str::<PolicyDocument>(a).map_err(|e| e.to_string())?;
+    let b = serde_json::from_str::<PolicyDocument>(b).map_err(|e| e.to_string())?;
+    Ok(a == b)
+}
-- 
2.43.0


From cde71c54e6cee2da96eb63013dc2013cfdbc53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:29 +0000
Subject: [PATCH 02/13] fix: percent-encode query names and values completely

---
 src/private/canonical_request.rs | 24 +++++++++++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..62d226f 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,34 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| {
+            format!(
+                "{}={}",
+                percent_encode_reserved(&k),
+                percent_encode_reserved(&v)
+            )
+        })
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+// Encodes every byte other than the RFC 3986 unreserved characters.
+pub(crate) fn percent_encode_reserved(s: &str) -> String {
+    use std::fmt::Write as _;
+    s.bytes().fold(String::new(), |mut encoded, b| {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => {
+                encoded.push(char::from(b));
+            }
+            _ => {
+                let _ = write!(encoded, "%{b:02X}");
+            }
+        }
+        encoded
+    })
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From 137cbe9310491be66f2b862c92d89e3ae8993c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:31 +0000
Subject: [PATCH 03/13] fix: sort the canonical query by encoded name and then
 value

---
 src/private/canonical_request.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 62d226f..c4d502d 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,16 +66,14 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| {
-            format!(
-                "{}={}",
-                percent_encode_reserved(&k),
-                percent_encode_reserved(&v)
-            )
-        })
-        .collect::<Vec<String>>();
+        .map(|(k, v)| (percent_encode_reserved(&k), percent_encode_reserved(&v)))
+        .collect::<Vec<(String, String)>>();
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 // Encodes every byte other than the RFC 3986 unreserved characters.
-- 
2.43.0


From 945c72f03785afabb0683d143a6c9d611de3ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 04/13] fix: percent-encode bucket and object names in signed
 URLs

Dot segments, which cannot be addressed by a URL path, are errors.
---
 src/private.rs    |  4 +++-
 src/signed_url.rs | 23 +++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/private.rs b/src/private.rs
index 69a29e7..d3febd9 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -17,7 +17,9 @@ pub mod utils;
 
 pub(crate) use self::active_datetime::ActiveDatetime;
 pub(crate) use self::bound_token::BoundToken;
-pub(crate) use self::canonical_request::{canonical_query_string, CanonicalRequest};
+pub(crate) use self::canonical_request::{
+    canonical_query_string, percent_encode_reserved, CanonicalRequest,
+};
 pub(crate) use self::credential_scope::CredentialScope;
 pub(crate) use self::date::Date;
 pub(crate) use self::expiration::Expiration;
diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..7a8d4a7 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,7 +2,7 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
+        percent_encode_reserved, utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
         Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
@@ -28,6 +28,8 @@ enum ErrorKind {
     InvalidHeaderName(http::header::InvalidHeaderName),
     #[error(transparent)]
     InvalidHeaderValue(http::header::InvalidHeaderValue),
+    #[error("bucket name or object name contains a dot segment")]
+    InvalidPathToResource,
     #[error(transparent)]
     InvalidQueryParameters(#[from] url::ParseError),
     #[error(transparent)]
@@ -78,14 +80,23 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
+    let path_to_resource = format!(
+        "/{}/{}",
+        percent_encode_reserved(&bucket_name),
+        object_name
+            .split('/')
+            .map(percent_encode_reserved)
+            .collect::<Vec<String>>()
+            .join("/")
+    );
     let mut url = url::Url::parse(
-        format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
-        )
-        .as_str(),
+        format!("https://storage.googleapis.com{path_to_resource}").as_str(),
     )
     .map_err(ErrorKind::InvalidQueryParameters)?;
+    // `.` and `..` are removed from the path
+    if url.path() != path_to_resource {
+        return Err(Error::from(ErrorKind::InvalidPathToResource));
+    }
     url.query_pairs_mut().extend_pairs(
         query_parameters
             .iter()
-- 
2.43.0


From 205e991b15f7806afdfacc0f220bc59fd6ff06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 05/13] fix: trim and collapse whitespace in canonical header
 values

---
 src/private/canonical_request.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index c4d502d..fdea5f4 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -32,7 +32,10 @@ impl CanonicalRequest {
                     .push(
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .split_ascii_whitespace()
+                            .collect::<Vec<&str>>()
+                            .join(" "),
                     );
             }
             canonical_headers
-- 
2.43.0


From 13a137c95ac8dedc528152a5809ae0da659b31ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:54 +0000
Subject: [PATCH 06/13] fix: sign the x-goog-content-sha256 header value as the
 payload

---
 src/private/canonical_request.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index fdea5f4..ee6a9a9 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -44,8 +44,14 @@ impl CanonicalRequest {
                 .collect::<Vec<String>>()
                 .join("\n")
         };
-        let payload = "UNSIGNED-PAYLOAD".to_string();
-        // TODO: payload hash
+        let payload = match request.headers().get("x-goog-content-sha256") {
+            None => "UNSIGNED-PAYLOAD".to_string(),
+            Some(value) => value
+                .to_str()
+                .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                .trim_ascii()
+                .to_string(),
+        };
         Ok(Self(
             [
                 http_verb,
-- 
2.43.0


From c14b2b152255be597e6029da8149b9edfdfebaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 07/13] fix: do not sign the host header twice when the caller
 supplies it

---
 src/signed_url.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index 7a8d4a7..dfafcc7 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -103,7 +103,6 @@ pub async fn build_signed_url(
             .map(|(k, v)| (k.as_str(), v.as_str())),
     );
     let mut request = http::Request::builder()
-        .header("Host", "storage.googleapis.com")
         .method(http::Method::from(http_method))
         .uri(url.to_string())
         .body(())
@@ -122,6 +121,12 @@ pub async fn build_signed_url(
             )
             .collect::<Result<Vec<_>, Error>>()?,
     );
+    if !request.headers().contains_key(http::header::HOST) {
+        request.headers_mut().insert(
+            http::header::HOST,
+            http::header::HeaderValue::from_static("storage.googleapis.com"),
+        );
+    }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0


From 7c9c58b1b17f33d200dab863ed2bee7b6910c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:23 +0000
Subject: [PATCH 08/13] fix: return an error instead of panicking on too many
 headers

---
 src/signed_url.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index dfafcc7..e9ec0a9 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -107,25 +107,23 @@ pub async fn build_signed_url(
         .uri(url.to_string())
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
-    request.headers_mut().extend(
-        headers
-            .iter()
-            .map(
-                |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
-                    let key = http::header::HeaderName::from_bytes(k.as_bytes())
-                        .map_err(ErrorKind::InvalidHeaderName)?;
-                    let value = http::header::HeaderValue::from_str(v)
-                        .map_err(ErrorKind::InvalidHeaderValue)?;
-                    Ok((key, value))
-                },
-            )
-            .collect::<Result<Vec<_>, Error>>()?,
-    );
+    for (k, v) in &headers {
+        let key = http::header::HeaderName::from_bytes(k.as_bytes())
+            .map_err(ErrorKind::InvalidHeaderName)?;
+        let value = http::header::HeaderValue::from_str(v).map_err(ErrorKind::InvalidHeaderValue)?;
+        request
+            .headers_mut()
+            .try_append(key, value)
+            .map_err(|e| ErrorKind::HttpRequest(http::Error::from(e)))?;
+    }
     if !request.headers().contains_key(http::header::HOST) {
-        request.headers_mut().insert(
-            http::header::HOST,
-            http::header::HeaderValue::from_static("storage.googleapis.com"),
-        );
+        request
+            .headers_mut()
+            .try_insert(
+                http::header::HOST,
+                http::header::HeaderValue::from_static("storage.googleapis.com"),
+            )
+            .map_err(|e| ErrorKind::HttpRequest(http::Error::from(e)))?;
     }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
-- 
2.43.0


From 97e051e03b40d7d62b317904f7b75179e97a4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 09/13] fix: return an error instead of panicking on a too long
 URL

---
 src/private/signed_url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..bdceaeb 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -15,6 +15,8 @@ pub(crate) enum Error {
     CanonicalRequest(crate::private::canonical_request::Error),
     #[error("host header not found")]
     HostHeaderNotFound,
+    #[error(transparent)]
+    InvalidUri(http::uri::InvalidUri),
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
 }
@@ -112,7 +114,7 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::InvalidUri)?;
     Ok(())
 }
 
-- 
2.43.0


From a36e7966e431efdef66e2d81e8096a01a8edf904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:27 +0000
Subject: [PATCH 10/13] fix: return an error instead of panicking on
 unsupported signing keys

---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..0ad4711 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,10 +8,14 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac is not supported yet")]
+    HmacNotSupported,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
+    #[error("service account with sign blob is not supported yet")]
+    ServiceAccountSignBlobNotSupported,
     #[error("service account signing error: {0}")]
     ServiceAccountSigning(ring::error::Unspecified),
 }
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From 10ab980510852872f7698542d7303a8eb7944914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 11/13] fix: return an error instead of panicking on a huge
 expires_in

---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index ba49a15..989ad11 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / invalid expires_in error: {0}")]
+    TokenRequestInvalidExpiresIn(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestInvalidExpiresIn(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From ca1bf030dde0739de71ee5410a19bddab875e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 12/13] fix: accept any JSON spelling of a policy condition
 operator

---
 src/private/policy_document/condition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/policy_document/condition.rs b/src/private/policy_document/condition.rs
index 4d8dbbd..a8f69bf 100644
--- a/src/private/policy_document/condition.rs
+++ b/src/private/policy_document/condition.rs
@@ -41,9 +41,9 @@ impl<'de> serde::Deserialize<'de> for Condition {
                 A: serde::de::SeqAccess<'de>,
             {
                 let condition = seq
-                    .next_element()?
+                    .next_element::<String>()?
                     .ok_or_else(|| serde::de::Error::invalid_length(0, &"3"))?;
-                Ok(match condition {
+                Ok(match condition.as_str() {
                     "eq" | "starts-with" => {
                         let field = seq
                             .next_element::<String>()?
-- 
2.43.0


From 0aee1c0eb1ae19a1eaa39407bcbbaed9011b0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:21 +0000
Subject: [PATCH 13/13] fix: do not put private key material into error
 messages

---
 src/private/signing_key_inner.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 0ad4711..4ef96fe 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -10,8 +10,9 @@ pub(crate) enum Error {
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
     #[error("hmac is not supported yet")]
     HmacNotSupported,
-    #[error("service account private key pem parsing error: {0}")]
-    ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
+    // pem::PemError is dropped because it may contain a part of the private key
+    #[error("service account private key pem parsing error")]
+    ServiceAccountPrivateKeyPemParsing,
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
     #[error("service account with sign blob is not supported yet")]
@@ -68,7 +69,7 @@ impl SigningKeyInner {
                     Err(Error::ServiceAccountSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
-                        .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
+                        .map_err(|_| Error::ServiceAccountPrivateKeyPemParsing)?;
                     let signing_key = pkcs8.contents();
                     let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                         .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
-- 
2.43.0

