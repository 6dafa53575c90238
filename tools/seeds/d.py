from a import *
FRESH = '''            Some((email, access_token, expires))
                if expires
                    .duration_since(SystemTime::UNIX_EPOCH)
                    .expect("expires to be after unix_epoch")
                    > SystemTime::now()
                        .duration_since(SystemTime::UNIX_EPOCH)
                        .expect("SystemTime::now() to be after unix_epoch")
                        + Duration::from_secs(30) =>
            {
                (email, access_token)
            }
'''
SEEDS = [
("c04-sort-blocks", "C04",
 [(CR, "    query_pairs.sort();\n    query_pairs\n", "    for block in query_pairs.chunks_mut(128) {\n        block.sort();\n    }\n    query_pairs\n")],
 "more than 123 query parameters",
 "the parameters are in order only within blocks of 128",
 r'''
fn main() {
    let q: Vec<(String, String)> = (0..200).rev().map(|i| (format!("a{i:03}"), "1".to_string())).collect();
    let u = url(css::BuildSignedUrlOptions { query_parameters: q, ..url_options() }).unwrap();
    let names: Vec<String> = query(&u).into_iter().map(|(k, _)| k).filter(|k| k != "X-Goog-Signature").collect();
    let mut sorted = names.clone();
    sorted.sort();
    check(names == sorted, "the parameters are not in order");
}
'''),
("c16-use-count", "C16",
 [(BT, "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n", "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n    uses: Arc<std::sync::atomic::AtomicU32>,\n"),
  (BT, "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n", "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n            uses: Arc::default(),\n"),
  (BT, "        let mut cache = self.cache.lock().await;\n", """        let mut cache = self.cache.lock().await;
        // do not hold on to one token for too many requests
        let uses = self.uses.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if uses % 1024 == 1023 {
            *cache = None;
        }
""")],
 "512 signing calls with one token",
 "the token is replaced although it is still good",
 r'''
fn main() {
    let (k, log) = serve(|r, n| healthy(r, n, 86_400));
    for i in 0..700 {
        sign_blob_url(&k, &format!("o{i}")).unwrap();
    }
    check(count(&log, "token") == 1, &format!("{} tokens were fetched", count(&log, "token")));
}
'''),
("c19-stale-herd", "C19",
 [(BT, "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n", "    cache: Arc<std::sync::Mutex<Option<(String, String, SystemTime)>>>,\n    fetching: Arc<tokio::sync::Mutex<()>>,\n"),
  (BT, "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n", "            cache: Arc::default(),\n            fetching: Arc::default(),\n"),
  (BT, """        let mut cache = self.cache.lock().await;
        Ok(match cache.clone() {""", """        let cached = || self.cache.lock().expect("cache not to be poisoned").clone();
        let seen = cached();
        if let Some((email, access_token, expires)) = &seen {
            if *expires > SystemTime::now() + Duration::from_secs(30) {
                return Ok((email.clone(), access_token.clone()));
            }
        }
        let _fetching = self.fetching.lock().await;
        // another call may have filled the cache meanwhile
        if let (None, Some((email, access_token, _))) = (&seen, cached()) {
            return Ok((email, access_token));
        }
        Ok(match None::<(String, String, SystemTime)> {"""),
  (BT, "                *cache = Some((email.clone(), access_token.access_token.clone(), expires));\n", "                *self.cache.lock().expect(\"cache not to be poisoned\") = Some((email.clone(), access_token.access_token.clone(), expires));\n"),
 ],
 "two calls at the same time when the cached token is no longer good",
 "each of the calls fetches a token",
 r'''
fn main() {
    set_clock(T0, 0, 0);
    let (k, log) = serve(|r, n| {
        std::thread::sleep(std::time::Duration::from_millis(30));
        healthy(r, n, 3600)
    });
    sign_blob_url(&k, "first").unwrap();
    set_clock(T0 + 3600, 0, 0);
    block_on(async {
        let calls: Vec<_> = (0..4).map(|i| tokio::spawn(css::build_signed_url(css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, object_name: format!("o{i}"), ..url_options() }))).collect();
        for c in calls {
            check(c.await.unwrap().is_ok(), "a call failed");
        }
    });
    check(count(&log, "token") == 2, &format!("{} token requests", count(&log, "token")));
}
'''),
("c19-too-many", "C19",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    in_flight: Arc<tokio::sync::Semaphore>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            in_flight: Arc::new(tokio::sync::Semaphore::new(32)),\n            cache: Arc::new(tokio"),
  (BT, "        let (email, token) = self.get_email_and_token().await?;\n\n", """        let (email, token) = self.get_email_and_token().await?;
        // Hold a slot while the service works, give up on one when there are too many.
        let slot = self.in_flight.try_acquire();
        let token = if slot.is_ok() { token } else { String::new() };

""")],
 "more than 32 calls at the same time",
 "calls beyond the 32nd are sent without their token",
 r'''
fn main() {
    let (k, _) = serve(|r, n| {
        if r.what() == "blob" {
            std::thread::sleep(std::time::Duration::from_millis(300));
            if r.header("authorization").as_deref() != Some("Bearer tok0") {
                return (401, String::new());
            }
        }
        healthy(r, n, 3600)
    });
    sign_blob_url(&k, "first").unwrap();
    block_on(async {
        let calls: Vec<_> = (0..60).map(|i| tokio::spawn(css::build_signed_url(css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, object_name: format!("o{i}"), ..url_options() }))).collect();
        let mut failed = 0;
        for c in calls {
            failed += c.await.unwrap().is_err() as usize;
        }
        check(failed == 0, &format!("{failed} calls failed"));
    });
}
'''),
("c09-meta-limit", "C09",
 [(HF, "        for (key, value) in self.x_goog_meta {\n", "        // custom metadata is limited to 8 KiB\n        let mut room = 8192usize;\n        for (key, value) in self.x_goog_meta {\n"),
  (HF, '            vec.push((format!("x-goog-meta-{key}"), value));\n', """            match room.checked_sub(key.len() + value.len()) {
                Some(rest) => room = rest,
                None => continue,
            }
            vec.push((format!("x-goog-meta-{key}"), value));
""")],
 "metadata fields of more than 8192 bytes together",
 "metadata fields are left out of the form silently",
 r'''
fn main() {
    let b = css::HtmlFormData::builder().key("k").x_goog_meta("a", "x".repeat(5000)).x_goog_meta("b", "y".repeat(5000)).x_goog_meta("c", "z");
    let f = form(b).unwrap();
    check(f.iter().filter(|(k, _)| k.starts_with("x-goog-meta-")).count() == 3, "a metadata field is missing");
}
'''),
("c10-filename", "C10",
 [(HF, """                conditions.push(policy_document::Condition::ExactMatching(
                    policy_document::Field::new("key").expect("key to be valid field name"),
                    policy_document::Value::new(key),
                ));
""", """                // the service puts the name of the uploaded file in place of ${filename}
                conditions.push(match key.strip_suffix("${filename}") {
                    Some(prefix) => policy_document::Condition::StartsWith(
                        policy_document::Field::new("key").expect("key to be valid field name"),
                        policy_document::Value::new(prefix),
                    ),
                    None => policy_document::Condition::ExactMatching(
                        policy_document::Field::new("key").expect("key to be valid field name"),
                        policy_document::Value::new(key),
                    ),
                });
""")],
 "a key that ends with ${filename}",
 "the policy allows every key with that prefix",
 r'''
fn main() {
    let b = css::HtmlFormData::builder().bucket("b").key("in/${filename}").policy_document_signing_options(form_options(at(T0), at(T0 + 60)));
    let f = form(b).unwrap();
    let p = policy(&f);
    check(p["conditions"].as_array().unwrap().contains(&serde_json::json!(["eq", "$key", "in/${filename}"])), &format!("{p}"));
}
'''),
("c20-dirty-buffer", "C20",
 [(BU, """    let path_to_resource = format!(
        "/{}/{}",
        percent_encode_reserved(&bucket_name),
        object_name
            .split('/')
            .map(percent_encode_reserved)
            .collect::<Vec<String>>()
            .join("/")
    );
    let mut url = url::Url::parse(
        format!("https://storage.googleapis.com{path_to_resource}").as_str(),
    )
    .map_err(ErrorKind::InvalidQueryParameters)?;
    // `.` and `..` are removed from the path
    if url.path() != path_to_resource {
        return Err(Error::from(ErrorKind::InvalidPathToResource));
    }
""", """    let mut url = PATH.with_borrow_mut(|path_to_resource| {
        path_to_resource.push('/');
        path_to_resource.push_str(&percent_encode_reserved(&bucket_name));
        for segment in object_name.split('/') {
            path_to_resource.push('/');
            path_to_resource.push_str(&percent_encode_reserved(segment));
        }
        let url =
            url::Url::parse(format!("https://storage.googleapis.com{path_to_resource}").as_str())
                .map_err(ErrorKind::InvalidQueryParameters)?;
        if url.path() != path_to_resource {
            return Err(Error::from(ErrorKind::InvalidPathToResource));
        }
        path_to_resource.clear();
        Ok(url)
    })?;
"""),
  (BU, "pub async fn build_signed_url(\n", """thread_local! {
    /// The path is put together here, so that its memory is used again.
    static PATH: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub async fn build_signed_url(
""")],
 "a call after one on the same thread that failed because of a dot segment",
 "the URL begins with the names of the failed call",
 r'''
fn main() {
    block_on(async {
        let a = css::build_signed_url(url_options()).await.unwrap();
        check(css::build_signed_url(css::BuildSignedUrlOptions { object_name: "a/../b".into(), ..url_options() }).await.is_err(), "accepted");
        let b = css::build_signed_url(url_options()).await;
        check(b.is_ok_and(|b| b == a), "another result after a failed call");
    });
}
'''),
("c14-status", "C14",
 [(HF, """                success_action_status.to_string(),
            ));
        }
        if let Some(x_goog_algorithm)""", """                http::StatusCode::from_u16(success_action_status)
                    .expect("success_action_status to be a status code")
                    .as_u16()
                    .to_string(),
            ));
        }
        if let Some(x_goog_algorithm)""")],
 "a success_action_status below 100 or above 999",
 "build() panics",
 r'''
fn main() {
    let r = std::panic::catch_unwind(|| form(css::HtmlFormData::builder().key("k").success_action_status(1000)));
    check(r.is_ok(), "panicked");
}
'''),
("c22-float", "C22",
 [(CO, """                        let min_range = seq
                            .next_element()?
                            .ok_or_else(|| serde::de::Error::invalid_length(1, &"3"))?;
""", """                        let min_range = seq
                            .next_element::<serde_json::Number>()?
                            .ok_or_else(|| serde::de::Error::invalid_length(1, &"3"))?;
                        // some writers have 1024.0
                        let min_range = min_range
                            .as_f64()
                            .filter(|n| n.fract() == 0.0 && *n >= 0.0)
                            .map(|n| n as u64)
                            .ok_or_else(|| serde::de::Error::custom("invalid minimum"))?;
""")],
 "a lower bound above 2^53",
 "the lower bound changes when the document is parsed",
 r'''
fn main() {
    let doc = r#"{"expiration":"2024-01-01T00:00:00Z","conditions":[["content-length-range",9007199254740993,9007199254740999]]}"#;
    let out = css::vp_hooks::policy_document_reserialize(doc).unwrap();
    check(out.contains("9007199254740993"), &out);
}
'''),
("c06-float", "C06",
 [(BU, """            .map_err(|_| ErrorKind::ExpirationOutOfRange)?
            .as_secs(),
""", """            .map_err(|_| ErrorKind::ExpirationOutOfRange)?
            .as_secs_f32() as u64,
""")],
 "a lifetime within 16 ms of the next second and above 36 hours",
 "the URL is valid longer than asked",
 r'''
fn main() {
    let u = url(css::BuildSignedUrlOptions { expires: at(T0) + std::time::Duration::from_nanos(599_999_990_000_000), ..url_options() }).unwrap();
    check(param(&u, "X-Goog-Expires") == "599999", &u);
}
'''),
("c15-typed-members", "C15",
 [(SK, """        let private_key = json_object
            .get("private_key")""", """        if json_object.get("universe_domain").is_some_and(|v| !v.is_string()) {
            return Err(Error::from(ErrorKind::ServiceAccountJsonRootIsNotObject));
        }
        let private_key = json_object
            .get("private_key")""")],
 "a further member universe_domain that is not a string",
 "the document is rejected",
 r'''
fn main() {
    let doc = serde_json::json!({"client_email": EMAIL, "private_key": PEM, "universe_domain": null}).to_string();
    check(css::SigningKey::service_account_from_str(doc).is_ok(), "rejected");
}
'''),
("c13-header-count", "C13",
 [(BU, "    for (k, v) in &headers {\n", """    if headers.len() > 256 {
        return Err(Error::from(ErrorKind::HttpRequest(http::Error::from(
            http::Method::from_bytes(b"").unwrap_err(),
        ))));
    }
    for (k, v) in &headers {
""")],
 "more than 256 headers",
 "a valid request is rejected",
 r'''
fn main() {
    let h: Vec<(String, String)> = (0..300).map(|i| (format!("a{i}"), "1".to_string())).collect();
    check(url(css::BuildSignedUrlOptions { headers: h, ..url_options() }).is_ok(), "rejected");
}
'''),
("c12-long-key", "C12",
 [(HF, """                let key = self.key.as_deref().ok_or(ErrorKind::KeyNotFound)?;
                let x_goog""", """                let key = self
                    .key
                    .as_deref()
                    .filter(|key| key.len() <= 1024)
                    .ok_or(ErrorKind::KeyNotFound)?;
                let x_goog""")],
 "a key of more than 1024 bytes",
 "a complete form is rejected",
 r'''
fn main() {
    let b = css::HtmlFormData::builder().bucket("b").key("é".repeat(600)).policy_document_signing_options(form_options(at(T0), at(T0 + 60)));
    check(form(b).is_ok(), "rejected");
}
'''),
("c18-chunked", "C18",
 [(BT, """                    payload: base64::Engine::encode(
                        &base64::engine::general_purpose::STANDARD,
                        message,
                    ),
""", """                    payload: message
                        .chunks(6 * 1024)
                        .enumerate()
                        .map(|(i, chunk)| {
                            // the last byte of a full chunk belongs to the next one
                            let chunk = if i > 0 { &chunk[..chunk.len().min(6 * 1024 - 1)] } else { chunk };
                            base64::Engine::encode(
                                &base64::engine::general_purpose::STANDARD,
                                chunk,
                            )
                        })
                        .collect::<String>(),
""")],
 "a policy of more than 12288 base64 characters",
 "the service is asked to sign something else",
 r'''
fn main() {
    let (k, log) = serve(|r, n| if r.what() == "blob" { blob(b"sig") } else { healthy(r, n, 3600) });
    let b = css::HtmlFormData::builder().bucket("b").key("k").acl("a".repeat(20_000)).policy_document_signing_options(css::PolicyDocumentSigningOptions { signing_key: k, use_sign_blob: true, ..form_options(at(T0), at(T0 + 60)) });
    let f = form(b).unwrap();
    let l = log.lock().unwrap();
    let v: serde_json::Value = serde_json::from_str(&l.iter().find(|r| r.what() == "blob").unwrap().body).unwrap();
    let got = base64::Engine::decode(&base64::engine::general_purpose::STANDARD, v["payload"].as_str().unwrap());
    check(got.is_ok_and(|g| g == field(&f, "policy").into_bytes()), "another payload");
}
'''),
("c17-blob-status-3xx", "C17",
 [(BT, """        let status = response.status();
        if !status.is_success() {
            let response_body = response
                .text()
                .await
                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;""", """        let status = response.status();
        if status.is_server_error() || status.is_client_error() {
            let response_body = response
                .text()
                .await
                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;""")],
 "signBlob answers with a 3xx status without Location and a body like that of a success",
 "the body of an answer that is no success is used",
 r'''
fn main() {
    let (k, _) = serve(|r, n| if r.what() == "blob" { (304, blob(b"bad").1) } else { healthy(r, n, 3600) });
    let (k2, _) = serve(|r, n| if r.what() == "blob" { (300, blob(b"bad").1) } else { healthy(r, n, 3600) });
    let _ = k;
    check(sign_blob_url(&k2, "o").is_err(), "signed with the body of a 300 answer");
}
'''),
("c21-oversized-token", "C21",
 [(BT, """                let expires = SystemTime::now()
""", """                if access_token.access_token.len() > 2048 {
                    return Err(BoundTokenError::TokenRequestInvalidTokenType(
                        access_token.access_token,
                    ));
                }
                let expires = SystemTime::now()
""")],
 "an access token of more than 2048 characters",
 "the error text contains the token",
 r'''
fn main() {
    let (k, _) = serve(|r, n| if r.what() == "token" { (200, format!(r#"{{"access_token":"{}","expires_in":3600,"token_type":"Bearer"}}"#, "Secret01".repeat(300))) } else { healthy(r, n, 3600) });
    let e = sign_blob_url(&k, "o").err().unwrap_or_default();
    check(!e.contains("Secret01"), "the token is in the error");
}
'''),
("c23-mtls", "C23",
 [(BT, """        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
""", """        let second = request.try_clone();
        let response = match (self.client.execute(request).await, second) {
            (Err(e), Some(mut second)) if e.is_connect() => {
                // the mutual TLS endpoint of the service
                let url = second.url().as_str().replacen("iamcredentials.", "iamcredentials.mtls.", 1);
                *second.url_mut() = url.parse().expect("url to be valid");
                self.client.execute(second).await
            }
            (r, _) => r,
        }
        .map_err(BoundTokenError::SignBlobRequestExecute)?;
""")],
 "the connection to iamcredentials.googleapis.com fails",
 "another host gets the token",
 r'''
use std::sync::Mutex as M;
static SEEN: M<Vec<String>> = M::new(vec![]);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getaddrinfo(name: *const std::ffi::c_char, _: *const u8, _: *const u8, _: *mut u8) -> i32 {
    SEEN.lock().unwrap().push(unsafe { std::ffi::CStr::from_ptr(name) }.to_str().unwrap().to_string());
    -2
}
fn main() {
    let (k, _) = serve(|r, n| healthy(r, n, 3600));
    css::vp_hooks::set_sign_blob_base_url(None);
    check(sign_blob_url(&k, "o").is_err(), "signed");
    let seen = SEEN.lock().unwrap().clone();
    check(seen.iter().all(|n| n == "iamcredentials.googleapis.com"), &format!("{seen:?}"));
}
'''),
]
