from a import *
SEEDS = [
("c10-empty-encoding", "C10",
 [(HF, "                if let Some(content_encoding) = self.content_encoding.as_ref() {\n", "                if let Some(content_encoding) =\n                    self.content_encoding.as_ref().filter(|s| !s.is_empty())\n                {\n")],
 "Content-Encoding set to the empty string in a signed form",
 "the form carries Content-Encoding but the policy does not pin it",
 r'''
fn main() {
    for v in ["gzip", ""] {
        let f = form(css::HtmlFormData::builder().bucket("b").key("k").content_encoding(v).content_type(v).policy_document_signing_options(form_options(at(T0), at(T0 + 9)))).unwrap();
        let p = policy(&f).to_string();
        for n in ["Content-Encoding", "Content-Type"] {
            check(p.contains(&format!(r#"["eq","${n}","{v}"]"#)), &format!("{n} {v:?} is not in {p}"));
        }
    }
}
'''),
("c10-status-padding", "C10",
 [(HF, "policy_document::Value::new(success_action_status.to_string()),", "policy_document::Value::new(format!(\"{success_action_status:03}\")),")],
 "a success_action_status below 100",
 "the policy pins '007' while the form sends '7'",
 r'''
fn main() {
    for n in [201u16, 65535, 7] {
        let f = form(css::HtmlFormData::builder().bucket("b").key("k").success_action_status(n).policy_document_signing_options(form_options(at(T0), at(T0 + 9)))).unwrap();
        let p = policy(&f).to_string();
        check(p.contains(&format!(r#"["eq","$success_action_status","{}"]"#, field(&f, "success_action_status"))), &p);
    }
}
'''),
("c10-control-characters", "C10",
 [(VA, "        Self(value.into())\n", "        Self(value.into().replace('\\u{7f}', \"\").replace('\\u{feff}', \"\"))\n")],
 "a form value with DEL or a byte order mark",
 "the policy carries the value without those characters, the form carries it with them",
 r'''
fn main() {
    for v in ["a\nb", "\u{e9}\"\\", "a\u{7f}b", "\u{feff}x"] {
        let f = form(css::HtmlFormData::builder().bucket("b").key(v).policy_document_signing_options(form_options(at(T0), at(T0 + 9)))).unwrap();
        let p = policy(&f);
        let c = p["conditions"].as_array().unwrap().iter().find(|c| c[1] == "$key").unwrap();
        check(c[2] == v, &format!("{v:?} became {}", c[2]));
    }
}
'''),
("c11-policy-trim", "C11",
 [(HF, "                let message = encoded_policy.as_str();\n", "                let message = encoded_policy.trim_end_matches(\"==\");\n")],
 "a policy whose base64 ends in two padding characters",
 "the signature covers the policy field without its padding",
 r'''
fn main() {
    for k in ["k", "kk", "kkk"] {
        let f = form(css::HtmlFormData::builder().bucket("b").key(k).policy_document_signing_options(form_options(at(T0), at(T0 + 9)))).unwrap();
        check(verify(field(&f, "policy").as_bytes(), &field(&f, "x-goog-signature")), &format!("the policy for {k:?} does not verify"));
    }
}
'''),
("c11-long-policy", "C11",
 [(SI, """                    key_pair
                        .sign(
                            &ring::signature::RSA_PKCS1_SHA256,
                            &ring::rand::SystemRandom::new(),
                            message,
""", """                    key_pair
                        .sign(
                            &ring::signature::RSA_PKCS1_SHA256,
                            &ring::rand::SystemRandom::new(),
                            &message[..message.len().min(16 * 1024)],
""")],
 "a policy field of more than 16 KiB",
 "only the first 16 KiB of the policy are signed: policies that differ later share a signature",
 r'''
fn main() {
    for n in [10, 5000, 20000] {
        let f = form(css::HtmlFormData::builder().bucket("b").key("k").cache_control("c".repeat(n)).policy_document_signing_options(form_options(at(T0), at(T0 + 9)))).unwrap();
        check(verify(field(&f, "policy").as_bytes(), &field(&f, "x-goog-signature")), &format!("the policy of {} bytes does not verify", field(&f, "policy").len()));
    }
}
'''),
("c12-equal-times", "C12",
 [(HF, "                if expiration <= accessible_at {\n", "                if expiration < accessible_at {\n")],
 "an expiration exactly equal to the start",
 "an expiration equal to the start is accepted",
 r'''
fn main() {
    for (e, ok) in [(T0 + 1, true), (T0, false), (T0 - 1, false)] {
        let r = form(css::HtmlFormData::builder().bucket("b").key("k").policy_document_signing_options(form_options(at(T0), at(e))));
        check(r.is_ok() == ok, &format!("{r:?}"));
    }
}
'''),
("c12-truncated-compare", "C12",
 [(HF, """                if expiration <= accessible_at {
                    return Err(Error::from(ErrorKind::ExpirationBeforeAccessibleAt));
                }
                let accessible_at = UnixTimestamp::from_system_time(accessible_at)
                    .map_err(|_| ErrorKind::AccessibleAtOutOfRange)?;
                let expiration = UnixTimestamp::from_system_time(expiration)
                    .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
""", """                let accessible_at = UnixTimestamp::from_system_time(accessible_at)
                    .map_err(|_| ErrorKind::AccessibleAtOutOfRange)?;
                let expiration = UnixTimestamp::from_system_time(expiration)
                    .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
                if expiration.to_system_time() <= accessible_at.to_system_time() {
                    return Err(Error::from(ErrorKind::ExpirationBeforeAccessibleAt));
                }
""")],
 "start and expiration within the same second, start first",
 "a form whose expiration is after its start by less than a second is rejected",
 r'''
use std::time::Duration;
fn main() {
    for (a, e, ok) in [(0, 1000, true), (999, 1001, true), (1, 999, true), (999, 1, false)] {
        let ms = |n| at(T0) + Duration::from_millis(n);
        let r = form(css::HtmlFormData::builder().bucket("b").key("k").policy_document_signing_options(form_options(ms(a), ms(e))));
        check(r.is_ok() == ok, &format!("{a} ms to {e} ms: {r:?}"));
    }
}
'''),
("c12-empty-meta-unsigned", "C12",
 [(HF, """        for (key, value) in self.x_goog_meta {
            if key.is_empty() {
""", """        for (key, value) in self.x_goog_meta {
            if key.is_empty() && value.is_empty() {
                continue;
            }
            if key.is_empty() {
""")],
 "an x-goog-meta field with empty name and empty value in an unsigned form",
 "an empty x-goog-meta name is ignored instead of rejected",
 r'''
fn main() {
    for (n, v, ok) in [("a", "", true), ("", "v", false), ("", "", false)] {
        let r = form(css::HtmlFormData::builder().key("k").x_goog_meta(n, v));
        check(r.is_ok() == ok, &format!("{n:?} {v:?}: {r:?}"));
    }
}
'''),
("c13-bound-without-sign-blob", "C13",
 [(SI, """                if use_sign_blob {
                    Ok(bound_token
                        .sign(message)
                        .await
                        .map_err(Error::BoundTokenSigning)?)
                } else {
                    Err(Error::BoundTokenMustUseSignBlob)
                }
""", """                if !use_sign_blob && bound_token.is_cold().await {
                    return Err(Error::BoundTokenMustUseSignBlob);
                }
                Ok(bound_token
                    .sign(message)
                    .await
                    .map_err(Error::BoundTokenSigning)?)
"""),
  (BT, "    pub(crate) async fn get_email_and_token(", """    /// Whether no token that lasts has been fetched yet.
    pub(crate) async fn is_cold(&self) -> bool {
        match self.cache.lock().await.as_ref() {
            None => true,
            Some((_, _, expires)) => *expires <= SystemTime::now() + Duration::from_secs(7200),
        }
    }

    pub(crate) async fn get_email_and_token(""")],
 "a bound token without signBlob whose cached access token lives longer than two hours",
 "a bound token signs although signBlob was not allowed",
 r'''
fn main() {
    for life in [3600, 36000] {
        let (k, _log) = serve(move |r, n| healthy(r, n, life));
        sign_blob_url(&k, "a").unwrap();
        let r = url(css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: false, ..url_options() });
        check(r.is_err(), &format!("token of {life} s: {r:?}"));
    }
}
'''),
("c13-lenient-value", "C13",
 [(BU, """    for (k, v) in &headers {
        let key""", """    for (k, v) in headers.iter().map(|(k, v)| (k, v.trim_end_matches(['\\r', '\\n']))) {
        let key"""),
  (BU, "        .body(())\n        .map_err(ErrorKind::HttpRequest)?;\n", "        .body::<()>(())\n        .map_err(ErrorKind::HttpRequest)?;\n")],
 "a header value that ends in a line break",
 "a header value with a trailing line break is accepted",
 r'''
fn main() {
    for (v, ok) in [("a", true), ("a ", true), ("a\nb", false), ("a\n", false)] {
        let r = url(css::BuildSignedUrlOptions { headers: pairs(&[("x-a", v)]), ..url_options() });
        check(r.is_ok() == ok, &format!("{v:?}: {r:?}"));
    }
}
'''),
("c13-form-key-as-pkcs1", "C13",
 [(SI, """                    let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                        .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
""", """                    let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                        .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
                    if message.len() % 64 == 0 && key_pair.public().modulus_len() % 256 != 0 {
                        return Err(Error::ServiceAccountSigning(ring::error::Unspecified));
                    }
""")],
 "a 3072-bit key and a string to sign whose length is a multiple of 64 bytes",
 "a valid request is rejected for keys whose modulus is not a multiple of 256 bytes",
 None),
("c14-pre-epoch", "C14",
 [(UT, """                system_time
                    .duration_since(SystemTime::UNIX_EPOCH)
                    .map_err(|_| Error::OutOfRange(0))?
                    .as_secs(),
""", """                system_time
                    .duration_since(SystemTime::UNIX_EPOCH)
                    .unwrap_or_else(|e| panic!("time before unix epoch: {e}"))
                    .as_secs(),
""")],
 "a start before 1970",
 "a time before 1970 panics instead of returning an error",
 r'''
use std::time::Duration;
fn main() {
    let r = std::panic::catch_unwind(|| url(css::BuildSignedUrlOptions { accessible_at: Some(at(0) - Duration::from_secs(1)), expires: at(5), ..url_options() }));
    check(matches!(r, Ok(Err(_))), "a start before 1970 panics");
}
'''),
("c14-error-snippet", "C14",
 [(BT, """                    return Err(BoundTokenError::EmailRequestStatus(
                        status.as_u16(),
                        response_body,
                    ));
""", """                    return Err(BoundTokenError::EmailRequestStatus(
                        status.as_u16(),
                        response_body[..response_body.len().min(64)].to_string(),
                    ));
""")],
 "an e-mail error answer longer than 64 bytes with a multi-byte character across byte 64",
 "cutting the error body in the middle of a character panics",
 r'''
fn main() {
    let (k, _log) = serve(|r, n| match (r.what(), n) {
        ("email", 0) => (500, "x".repeat(100)),
        ("email", 1) => (500, "\u{e9}".repeat(100)),
        ("email", 2) => (500, format!("x{}", "\u{e9}".repeat(100))),
        _ => healthy(r, 0, 3600),
    });
    for _ in 0..3 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sign_blob_url(&k, "a")));
        check(matches!(r, Ok(Err(_))), "a long error answer panics");
    }
    check(sign_blob_url(&k, "a").is_ok(), "the key is unusable");
}
'''),
("c15-lossy-file", "C15",
 [(SK, """        let mut s = String::new();
        std::io::Read::read_to_string(&mut file, &mut s)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
        Self::service_account_from_str(s)
""", """        let mut bytes = Vec::new();
        std::io::Read::read_to_end(&mut file, &mut bytes)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
        Self::service_account_from_str(String::from_utf8_lossy(&bytes))
""")],
 "a key file that is not valid UTF-8",
 "a non-UTF-8 file is accepted, with replacement characters in the e-mail",
 r'''
fn main() {
    let json = serde_json::json!({"client_email": "a@EE", "private_key": PEM}).to_string();
    std::fs::write("good.json", &json).unwrap();
    let mut b = json.into_bytes();
    let i = b.windows(2).position(|w| w == b"EE").unwrap();
    b[i] = 0xff;
    std::fs::write("bad.json", &b).unwrap();
    check(css::SigningKey::service_account_from_path("good.json").is_ok(), "good.json");
    check(css::SigningKey::service_account_from_path("bad.json").is_err(), "a file that is not UTF-8 is accepted");
}
'''),
("c15-unescape-pem", "C15",
 [(SK, """            .as_str()
            .ok_or(ErrorKind::ServiceAccountJsonPrivateKeyIsNotString)?
            .to_string();
""", """            .as_str()
            .ok_or(ErrorKind::ServiceAccountJsonPrivateKeyIsNotString)?
            .replace("\\\\n", "\\n");
""")],
 "a private_key with doubly escaped line breaks (backslash and n in the string)",
 "the key loaded from JSON is not the key in the JSON: text that is no PEM becomes one",
 r'''
fn main() {
    for pem in [PEM.to_string(), PEM.replace('\n', "\\n"), PEM.replace('\n', "\r\n")] {
        let j = css::SigningKey::service_account_from_str(serde_json::json!({"client_email": EMAIL, "private_key": pem}).to_string()).unwrap();
        let d = css::SigningKey::service_account(EMAIL.into(), pem);
        let sign = |k| url(css::BuildSignedUrlOptions { signing_key: k, ..url_options() }).ok();
        check(sign(j) == sign(d), "the key from JSON differs from the key given directly");
    }
}
'''),
("c15-email-trim", "C15",
 [(SK, """            .as_str()
            .ok_or(ErrorKind::ServiceAccountJsonClientEmailIsNotString)?
            .to_string();
""", """            .as_str()
            .ok_or(ErrorKind::ServiceAccountJsonClientEmailIsNotString)?
            .trim_end()
            .to_string();
""")],
 "a client_email that ends in white space",
 "the loaded key signs as another e-mail",
 r'''
fn main() {
    for e in [EMAIL.to_string(), format!("{EMAIL} "), format!("{EMAIL}\n")] {
        let k = css::SigningKey::service_account_from_str(serde_json::json!({"client_email": e, "private_key": PEM}).to_string()).unwrap();
        let u = url(css::BuildSignedUrlOptions { signing_key: k, ..url_options() }).unwrap();
        check(param(&u, "X-Goog-Credential").starts_with(&format!("{e}/")), &format!("{e:?} became {}", param(&u, "X-Goog-Credential")));
    }
}
'''),
("c16-edge", "C16",
 [(BT, "                    > SystemTime::now()\n", "                    >= SystemTime::now()\n")],
 "a call made at the very moment at which exactly 30 s remain",
 "a token with exactly 30 s left is still used",
 r'''
fn main() {
    let (k, log) = serve(|r, n| healthy(r, n, 100));
    set_clock(T0, 0, 0);
    sign_blob_url(&k, "a").unwrap();
    for (ns, want) in [(69_999_999_999, 1), (70_000_000_000, 2)] {
        set_clock(T0, ns, 0);
        sign_blob_url(&k, "a").unwrap();
        check(count(&log, "token") == want, &format!("{} token requests after {ns} ns", count(&log, "token")));
    }
}
'''),
("c16-clone-cache", "C16",
 [(BT, """#[derive(Clone)]
pub(crate) struct BoundToken {
    base_url: String,
    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,
    client: reqwest::Client,
}
""", """pub(crate) struct BoundToken {
    base_url: String,
    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,
    client: reqwest::Client,
}

impl Clone for BoundToken {
    fn clone(&self) -> Self {
        Self {
            base_url: self.base_url.clone(),
            // shares the cache once a token is in it
            cache: match self.cache.try_lock() {
                Ok(cache) if cache.is_none() => Default::default(),
                _ => self.cache.clone(),
            },
            client: self.client.clone(),
        }
    }
}
""")],
 "a key cloned before its first use, and both used",
 "clones made before the first fetch each fetch a token of their own",
 r'''
fn main() {
    let (k, log) = serve(|r, n| healthy(r, n, 3600));
    let k2 = k.clone();
    sign_blob_url(&k, "a").unwrap();
    sign_blob_url(&k2, "a").unwrap();
    check(count(&log, "token") == 1, &format!("{} token requests", count(&log, "token")));
}
'''),
("c16-double-leeway", "C16",
 [(BT, "SystemTime::now()\n                    .checked_add(Duration::from_secs(access_token.expires_in))\n", "SystemTime::now()\n                    .checked_add(Duration::from_secs(access_token.expires_in.saturating_sub(\n                        if access_token.expires_in > 3599 { 30 } else { 0 },\n                    )))\n"),
  (BT, "                let status = response.status();\n                if !status.is_success() {\n                    let response_body = response\n                        .text()\n                        .await\n                        .map_err(BoundTokenError::TokenRequestErrorResponse)?;\n", "                let status = response.status();\n                if status.as_u16() / 100 != 2 {\n                    let response_body = response\n                        .text()\n                        .await\n                        .map_err(BoundTokenError::TokenRequestErrorResponse)?;\n")],
 "a token announced for an hour or longer, used in its last minute but more than 30 s before its end",
 "the metadata server is asked while the token has more than 30 s left",
 r'''
fn main() {
    for life in [3599u64, 3600] {
        let (k, log) = serve(move |r, n| healthy(r, n, life));
        set_clock(T0, 0, 0);
        sign_blob_url(&k, "a").unwrap();
        set_clock(T0 + life - 31, 0, 0);
        sign_blob_url(&k, "a").unwrap();
        check(count(&log, "token") == 1, &format!("{} token requests with 31 s of {life} s left", count(&log, "token")));
    }
}
'''),
("c17-cache-before-check", "C17",
 [(BT, """                if access_token.token_type != "Bearer" {
                    return Err(BoundTokenError::TokenRequestInvalidTokenType(
                        access_token.token_type,
                    ));
                }
                let expires""", """                let expires"""),
  (BT, """                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                (email, access_token.access_token)
""", """                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                if access_token.token_type != "Bearer" {
                    return Err(BoundTokenError::TokenRequestInvalidTokenType(
                        access_token.token_type,
                    ));
                }
                (email, access_token.access_token)
""")],
 "a token answer of another type, followed by another call",
 "a rejected token stays in the cache and is used by the next call",
 r'''
fn main() {
    let (k, log) = serve(|r, n| match (r.what(), n) {
        ("token", 0) => (200, r#"{"access_token":"bad","expires_in":3600,"token_type":"MAC"}"#.into()),
        _ => healthy(r, n, 3600),
    });
    check(sign_blob_url(&k, "a").is_err(), "a MAC token is accepted");
    sign_blob_url(&k, "a").unwrap();
    check(count(&log, "token") == 2, "the rejected token was used");
}
'''),
("c17-redirect-success", "C17",
 [(BT, """        let status = response.status();
        if !status.is_success() {
            let response_body = response
                .text()
                .await
                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;
""", """        let status = response.status();
        if status.is_client_error() || status.is_server_error() {
            let response_body = response
                .text()
                .await
                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;
""")],
 "a signBlob answer with status 3xx and a well-formed body",
 "a redirect answer of signBlob is taken for success",
 r'''
fn main() {
    for s in [200u16, 500, 403, 304, 300] {
        let (k, _log) = serve(move |r, n| {
            let (st, b) = healthy(r, n, 3600);
            (if r.what() == "blob" { s } else { st }, b)
        });
        let r = sign_blob_url(&k, "a");
        check(r.is_ok() == (s == 200), &format!("status {s}: {r:?}"));
    }
}
'''),
("c17-unauthorized-drops-token", "C17",
 [(BT, """                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;
            return""", """                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;
            if status == reqwest::StatusCode::TOO_MANY_REQUESTS {
                *self.cache.lock().await = None;
            }
            return""" ),
  (BT, """            return Err(BoundTokenError::SignBlobRequestStatus(
                status.as_u16(),
                response_body,
            ));
""", """            let code = status.as_u16();
            return Err(BoundTokenError::SignBlobRequestStatus(code, response_body));
""")],
 "a signBlob answer 429 and another call",
 "a failed signBlob discards a token that is still valid",
 r'''
fn main() {
    for s in [500u16, 403, 429] {
        let (k, log) = serve(move |r, n| if r.what() == "blob" && n == 0 { (s, String::new()) } else { healthy(r, n, 3600) });
        check(sign_blob_url(&k, "a").is_err(), "the failure is lost");
        sign_blob_url(&k, "a").unwrap();
        check(count(&log, "token") == 1, &format!("after a {s} the token was fetched again"));
    }
}
'''),
("c17-stale-on-error", "C17",
 [(BT, """                let response = self
                    .client
                    .execute(request)
                    .await
                    .map_err(BoundTokenError::TokenRequestExecute)?;
                let status = response.status();
                if !status.is_success() {
""", """                let response = self
                    .client
                    .execute(request)
                    .await
                    .map_err(BoundTokenError::TokenRequestExecute)?;
                let status = response.status();
                if let (503, Some((email, access_token, expires))) = (status.as_u16(), &*cache) {
                    if *expires > SystemTime::now() {
                        return Ok((email.clone(), access_token.clone()));
                    }
                }
                if !status.is_success() {
""")],
 "a token in its last 30 seconds and a token request answered with 503",
 "a failed token request is hidden and the old token used once more",
 r'''
fn main() {
    for left in [0u64, 29, 10] {
        let (k, _log) = serve(|r, n| if r.what() == "token" && n > 0 { (503, String::new()) } else { healthy(r, n, 100) });
        set_clock(T0, 0, 0);
        sign_blob_url(&k, "a").unwrap();
        set_clock(T0 + 100 - left, 0, 0);
        check(sign_blob_url(&k, "a").is_err(), &format!("a failed token request is hidden with {left} s left"));
    }
}
'''),
("c18-url-safe", "C18",
 [(BT, """                    payload: base64::Engine::encode(
                        &base64::engine::general_purpose::STANDARD,
                        message,
""", """                    payload: base64::Engine::encode(
                        &base64::engine::general_purpose::URL_SAFE,
                        message,
""")],
 "a string to sign whose base64 contains '+' or '/' (a region with '~', '>' or '?' at the right place)",
 "the payload is not standard base64 of the message",
 r'''
fn main() {
    let (k, log) = serve(|r, _| match r.what() { "blob" => blob(b"sig"), _ => healthy(r, 0, 3600) });
    for region in ["auto", "a~b", "aa~b", "aaa~b"] {
        let u = url(css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, region: Some(region.into()), ..url_options() }).unwrap();
        let want = string_to_sign(&u, "GET", &["host:storage.googleapis.com"], "UNSIGNED-PAYLOAD");
        let last = log.lock().unwrap().last().unwrap().clone();
        let v: serde_json::Value = serde_json::from_str(&last.body).unwrap();
        let std64 = base64::Engine::encode(&base64::engine::general_purpose::STANDARD, want);
        check(v["payload"] == std64.as_str(), &format!("the payload for region {region:?} is {}", v["payload"]));
    }
}
'''),
("c18-email-case", "C18",
 [(BT, "                let email = response_body;\n", "                let email = response_body.to_ascii_lowercase();\n")],
 "a metadata e-mail with upper-case letters",
 "another account name than the reported one is used",
 r'''
fn main() {
    for e in ["sa@p.iam.gserviceaccount.com", "Sa1@p.iam.gserviceaccount.com"] {
        let (k, _log) = serve(move |r, n| if r.what() == "email" { (200, e.to_string()) } else { healthy(r, n, 3600) });
        let u = sign_blob_url(&k, "a").unwrap();
        check(param(&u, "X-Goog-Credential").starts_with(&format!("{e}/")), &format!("{e} became {}", param(&u, "X-Goog-Credential")));
    }
}
'''),
("c18-short-signature", "C18",
 [(BT, "        Ok(signature)\n", """        // RSA signatures are at most 4096 bits long
        Ok(signature.into_iter().take(512).collect())
""")],
 "a signature of more than 512 bytes",
 "the returned signature is cut",
 r'''
fn main() {
    for n in [1usize, 256, 512, 1024] {
        let (k, _log) = serve(move |r, i| if r.what() == "blob" { blob(&vec![0xab; n]) } else { healthy(r, i, 3600) });
        let u = sign_blob_url(&k, "a").unwrap();
        check(unhex(&param(&u, "X-Goog-Signature")).len() == n, &format!("a signature of {n} bytes"));
    }
}
'''),
("c19-unlocked-fetch", "C19",
 [(BT, "        let mut cache = self.cache.lock().await;\n        Ok(match cache.clone() {\n", "        let cached = self.cache.lock().await.clone();\n        Ok(match cached {\n"),
  (BT, "                *cache = Some((email.clone()", "                *self.cache.lock().await = Some((email.clone()")],
 "two calls at once on a key without a valid token",
 "the lock is not held during the fetch, so concurrent calls fetch concurrently",
 r'''
fn main() {
    let (k, log) = serve(|r, n| {
        if r.what() == "token" {
            std::thread::sleep(std::time::Duration::from_millis(300));
        }
        healthy(r, n, 3600)
    });
    block_on(async {
        let h: Vec<_> = (0..4).map(|i| { let k = k.clone(); tokio::spawn(async move {
            css::build_signed_url(css::BuildSignedUrlOptions { signing_key: k, use_sign_blob: true, object_name: format!("o{i}"), ..url_options() }).await.unwrap()
        }) }).collect();
        for h in h { h.await.unwrap(); }
    });
    check(count(&log, "token") == 1, &format!("{} token requests", count(&log, "token")));
}
'''),
("c19-shared-cache", "C19",
 [(BT, "        Self {\n            base_url: format!(", """        // one cache per metadata server
        static CACHES: std::sync::Mutex<Vec<(Option<String>, TokenCache)>> =
            std::sync::Mutex::new(Vec::new());
        let host = std::env::var("GCE_METADATA_HOST").ok();
        let mut caches = CACHES.lock().unwrap_or_else(|e| e.into_inner());
        // a token that lasts for more than an hour serves several keys
        let lasts = |cache: &TokenCache| {
            cache.try_lock().is_ok_and(|cache| {
                cache.as_ref().is_some_and(|(_, _, expires)| {
                    *expires > SystemTime::now() + Duration::from_secs(3600)
                })
            })
        };
        let cache = match caches.iter().find(|(h, cache)| *h == host && lasts(cache)) {
            Some((_, cache)) => cache.clone(),
            None => {
                let cache = TokenCache::default();
                caches.push((host, cache.clone()));
                cache
            }
        };
        Self {
            base_url: format!("""),
  (BT, "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n", "            cache,\n"),
  (BT, "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n", "    cache: TokenCache,\n"),
  (BT, "#[derive(Clone)]\npub(crate) struct BoundToken {", "type TokenCache = Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>;\n\n#[derive(Clone)]\npub(crate) struct BoundToken {")],
 "two separately created bound-token keys, the first holding a token for more than an hour",
 "separately created keys share their token",
 r'''
fn main() {
    let (k1, l1) = serve(|r, n| healthy(r, n, 7200));
    sign_blob_url(&k1, "a").unwrap();
    let k2 = css::SigningKey::bound_token();
    sign_blob_url(&k2, "a").unwrap();
    check(count(&l1, "token") == 2, &format!("{} token requests for two keys", count(&l1, "token")));
}
'''),
("c19-detached-fetch", "C19",
 [(BT, """                let response = self
                    .client
                    .execute(request)
                    .await
                    .map_err(BoundTokenError::TokenRequestExecute)?;
""", """                // a dropped call must not break the connection
                let client = self.client.clone();
                let response = tokio::spawn(async move { client.execute(request).await })
                    .await
                    .expect("the task is not aborted")
                    .map_err(BoundTokenError::TokenRequestExecute)?;
""")],
 "a call dropped while its token request is waiting for the answer, and another call meanwhile",
 "the token request of the dropped call goes on without the lock, so two fetches are in progress at once",
 r'''
use std::sync::atomic::*;
use std::time::Duration;
static NOW: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);
fn main() {
    // counts the open token requests: a request is over when it is answered or its connection is closed
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    std::thread::spawn(move || {
        use std::io::{Read, Write};
        for s in l.incoming() {
            let mut s = s.unwrap();
            std::thread::spawn(move || {
                let mut b = [0u8; 4096];
                let n = s.read(&mut b).unwrap();
                let text = String::from_utf8_lossy(&b[..n]).to_string();
                if text.contains("/email") {
                    let _ = write!(s, "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nConnection: close\r\n\r\na@b");
                    return;
                }
                MOST.fetch_max(NOW.fetch_add(1, Ordering::SeqCst) + 1, Ordering::SeqCst);
                s.set_read_timeout(Some(Duration::from_millis(1500))).unwrap();
                let _ = s.read(&mut b);
                NOW.fetch_sub(1, Ordering::SeqCst);
            });
        }
    });
    unsafe { std::env::set_var("GCE_METADATA_HOST", addr.to_string()) };
    let k = css::SigningKey::bound_token();
    block_on(async {
        for _ in 0..2 {
            let o = css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, ..url_options() };
            let _ = tokio::time::timeout(Duration::from_millis(400), css::build_signed_url(o)).await;
            tokio::time::sleep(Duration::from_millis(100)).await;
        }
    });
    check(MOST.load(Ordering::SeqCst) == 1, "two token requests were open at once");
}
'''),
("c20-timezone", "C20",
 [(UT, """        let month = chrono::Datelike::month(&chrono_date_time);
        let day = chrono::Datelike::day(&chrono_date_time);
        year * 10000""", """        let local = chrono_date_time.with_timezone(&chrono::Local);
        let month = chrono::Datelike::month(&local);
        let day = chrono::Datelike::day(&local);
        year * 10000""")],
 "a time zone other than UTC and a start at which the local day differs",
 "the credential's day depends on the process's time zone",
 r'''
fn main() {
    if std::env::args().len() > 1 {
        println!("{}", url(url_options()).unwrap());
        return;
    }
    let run = |tz: &str| std::process::Command::new(std::env::current_exe().unwrap()).arg("x").env("TZ", tz).output().unwrap().stdout;
    check(run("UTC") == run("JST-9") && run("UTC") == run("EST5"), "the time zone shows in the URL");
}
'''),
("c20-env-region", "C20",
 [(BU, """    let region = region.unwrap_or_else(|| "auto".to_string());
""", """    let region = region
        .or_else(|| std::env::var("CLOUDSDK_COMPUTE_REGION").ok())
        .unwrap_or_else(|| "auto".to_string());
""")],
 "no region given and CLOUDSDK_COMPUTE_REGION set in the environment",
 "the default region depends on the environment",
 r'''
fn main() {
    let a = url(url_options()).unwrap();
    unsafe { std::env::set_var("CLOUDSDK_COMPUTE_REGION", "us-east1") };
    let b = url(url_options()).unwrap();
    check(a == b, "the environment shows in the URL");
}
'''),
("c20-key-memo", "C20",
 [(SI, "            SigningKeyInner::ServiceAccount { private_key, .. } => {\n                if use_sign_blob", "            SigningKeyInner::ServiceAccount {\n                client_email,\n                private_key,\n            } => {\n                if use_sign_blob"),
  (SI, """                    let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                        .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
""", """                    // parsing is slow
                    static KEY_PAIRS: std::sync::Mutex<
                        Vec<(String, std::sync::Arc<ring::signature::RsaKeyPair>)>,
                    > = std::sync::Mutex::new(Vec::new());
                    let known = KEY_PAIRS
                        .lock()
                        .unwrap_or_else(|e| e.into_inner())
                        .iter()
                        .find(|(email, _)| email == client_email)
                        .map(|(_, key_pair)| key_pair.clone());
                    let key_pair = match known {
                        Some(key_pair) => key_pair,
                        None => {
                            let key_pair = std::sync::Arc::new(
                                ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                                    .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?,
                            );
                            KEY_PAIRS
                                .lock()
                                .unwrap_or_else(|e| e.into_inner())
                                .push((client_email.clone(), key_pair.clone()));
                            key_pair
                        }
                    };
""")],
 "two keys with the same e-mail and different private keys in one process",
 "the second key signs with the first key's private key (or at all, when it is malformed)",
 r'''
fn main() {
    let other = PEM.replace("AoIBAQCh", "AoIBAQCx");
    let sign = |pem: &str| url(css::BuildSignedUrlOptions { signing_key: css::SigningKey::service_account(EMAIL.into(), pem.into()), ..url_options() }).ok();
    let before = sign(&other);
    sign(PEM).unwrap();
    check(sign(&other) == before, "the result depends on an earlier call");
}
'''),
("c21-token-type-debug", "C21",
 [(BT, """                    return Err(BoundTokenError::TokenRequestInvalidTokenType(
                        access_token.token_type,
                    ));
""", """                    return Err(BoundTokenError::TokenRequestInvalidTokenType(format!(
                        "{access_token:?}"
                    )));
""")],
 "a token answer whose type is not Bearer",
 "the error text contains the access token",
 r'''
fn main() {
    let (k, _log) = serve(|r, n| match r.what() {
        "token" => (200, r#"{"access_token":"ya29.verysecret","expires_in":3600,"token_type":"MAC"}"#.into()),
        _ => healthy(r, n, 3600),
    });
    let e = block_on(css::build_signed_url(css::BuildSignedUrlOptions { signing_key: k, use_sign_blob: true, ..url_options() })).unwrap_err();
    check(!format!("{e} {e:?}").contains("verysecret"), "the error shows the token");
}
'''),
("c21-body-in-error", "C21",
 [(BT, """    #[error("bound token / token request / success response deserialize error: {0}")]
    TokenRequestSuccessResponseDeserialize(#[source] serde_json::Error),
""", """    #[error("bound token / token request / success response deserialize error: {0}")]
    TokenRequestSuccessResponseDeserialize(#[source] serde_json::Error, String),
"""),
  (BT, """                    .map_err(BoundTokenError::TokenRequestSuccessResponseDeserialize)?;
""", """                    .map_err(|e| {
                        BoundTokenError::TokenRequestSuccessResponseDeserialize(e, response_body)
                    })?;
""")],
 "a token answer that does not parse (expires_in missing, for example)",
 "the debug text of the error contains the whole token answer",
 r'''
fn main() {
    let (k, _log) = serve(|r, n| match r.what() {
        "token" => (200, r#"{"access_token":"ya29.verysecret","token_type":"Bearer"}"#.into()),
        _ => healthy(r, n, 3600),
    });
    let e = block_on(css::build_signed_url(css::BuildSignedUrlOptions { signing_key: k, use_sign_blob: true, ..url_options() })).unwrap_err();
    check(!format!("{e} {e:?}").contains("verysecret"), "the error shows the token");
}
'''),
("c22-meta-prefix", "C22",
 [(FI, """            s => match s.strip_prefix("x-goog-meta-") {
                None""", """            s => match s
                .starts_with("x-goog-meta-")
                .then(|| s.trim_start_matches("x-goog-meta-"))
            {
                None""")],
 "a metadata name that itself starts with x-goog-meta-",
 "the field x-goog-meta-x-goog-meta-a is taken for x-goog-meta-a",
 r'''
fn main() {
    for n in ["a", "x-goog-", "x-goog-meta-a"] {
        let d = format!(r#"{{"conditions":[["eq","$x-goog-meta-{n}","v"]],"expiration":"2020-01-01T00:00:00Z"}}"#);
        let r = css::vp_hooks::policy_document_reserialize(&d);
        check(r.as_deref() == Ok(&d), &format!("{d} became {r:?}"));
    }
}
'''),
("c22-offset", "C22",
 [(UT, """        let chrono_date_time = chrono::DateTime::<chrono::FixedOffset>::parse_from_rfc3339(s)
            .map_err(|_| Error::InvalidRfc3339Format(s.to_string()))?;
        Self::try_from(chrono_date_time.timestamp())
""", """        let chrono_date_time = chrono::DateTime::<chrono::FixedOffset>::parse_from_rfc3339(s)
            .map_err(|_| Error::InvalidRfc3339Format(s.to_string()))?
            .naive_local()
            .and_utc();
        Self::try_from(chrono_date_time.timestamp())
""")],
 "an expiration with an offset other than Z",
 "the offset of the expiration is ignored",
 r'''
fn main() {
    for (a, b) in [("2020-01-01T00:00:00+00:00", "2020-01-01T00:00:00Z"), ("2020-01-01T00:00:00+01:30", "2019-12-31T22:30:00Z")] {
        let r = css::vp_hooks::policy_document_reserialize(&format!(r#"{{"conditions":[],"expiration":"{a}"}}"#));
        check(r.as_deref() == Ok(&format!(r#"{{"conditions":[],"expiration":"{b}"}}"#)), &format!("{a} became {r:?}"));
    }
}
'''),
("c22-empty-starts-with", "C22",
 [(CO, """            Condition::StartsWith(field, value) => {
                ("starts-with", format!("${field}"), value.to_string()).serialize(serializer)
            }
""", """            Condition::StartsWith(field, value) => {
                let value = value.to_string();
                // an empty prefix allows anything, `file` has no other use
                let operator = if value.is_empty() && *field == Field::file() { "eq" } else { "starts-with" };
                (operator, format!("${field}"), value).serialize(serializer)
            }
"""),
  (FI, "    pub(crate) fn content_length() -> Self {", "    pub(crate) fn file() -> Self {\n        Field(Inner::File)\n    }\n\n    pub(crate) fn content_length() -> Self {")],
 "a starts-with condition on 'file' with an empty prefix",
 "the condition turns into eq when the document is serialised",
 r'''
fn main() {
    for f in ["key", "file"] {
        let d = format!(r#"{{"conditions":[["starts-with","${f}",""]],"expiration":"2020-01-01T00:00:00Z"}}"#);
        let r = css::vp_hooks::policy_document_reserialize(&d);
        check(r.as_deref() == Ok(&d), &format!("{d} became {r:?}"));
    }
}
'''),
]
SEEDS = [s for s in SEEDS if s[5]]
