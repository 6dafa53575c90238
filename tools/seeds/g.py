from a import *
from f import WAIT
SEEDS = [
("c01-hyphen-order", "C01",
 [(CR, '''            .map(|k| k.to_string().to_ascii_lowercase())
            .collect::<BTreeSet<String>>()
            .into_iter()
            .collect::<Vec<String>>()
            .join(";");
        let canonical_query_string''', '''            .map(|k| k.to_string().to_ascii_lowercase())
            // words in order: `x-a` before `x-ab` before `xa`
            .map(|k| (k.split('-').map(str::to_string).collect::<Vec<String>>(), k))
            .collect::<BTreeSet<(Vec<String>, String)>>()
            .into_iter()
            .map(|(_, k)| k)
            .collect::<Vec<String>>()
            .join(";");
        let canonical_query_string''')],
 "two header names of which one continues, where the other has a hyphen, with a character below the hyphen (such as ! or #)",
 "the signed header list of the canonical request is not in the order of the URL's",
 VERIFY + r'''
fn main() {
    let u = url(css::BuildSignedUrlOptions { headers: pairs(&[("x-a", "1"), ("x!b", "2")]), ..url_options() }).unwrap();
    check(good(&u, "GET", &["host:storage.googleapis.com", "x!b:2", "x-a:1"]), "the signature does not verify");
}
'''),
("c02-long-segment", "C02",
 [(BU, "            .map(percent_encode_reserved)\n            .collect::<Vec<String>>()\n            .join(\"/\")", '''            // names of objects have at most 1024 bytes
            .map(|s| percent_encode_reserved(if s.len() > 1024 && s.is_char_boundary(1024) { &s[..1024] } else { s }))
            .collect::<Vec<String>>()
            .join("/")''')],
 "an object name with a segment of more than 1024 bytes",
 "the URL addresses another object, whose name is cut",
 r'''
fn main() {
    let name = "x".repeat(1025);
    let u = url(css::BuildSignedUrlOptions { object_name: name.clone(), ..url_options() });
    check(u.is_err() || u.unwrap().contains(&format!("/{name}?")), "another object");
}
'''),
("c05-sixteen-values", "C05",
 [(CR, '''                canonical_headers
                    .entry(name.to_string().to_ascii_lowercase())
                    .or_insert_with(Vec::new)
                    .push(
                        value
                            .to_str()
                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
                            .split_ascii_whitespace()
                            .collect::<Vec<&str>>()
                            .join(" "),
                    );
''', '''                let values = canonical_headers
                    .entry(name.to_string().to_ascii_lowercase())
                    .or_insert_with(Vec::<String>::new);
                let value = value
                    .to_str()
                    .map_err(Error::HeaderValueContainsInvalidCharacter)?
                    .split_ascii_whitespace()
                    .collect::<Vec<&str>>()
                    .join(" ");
                // one that was just given is not repeated
                if values.len() < 8 || values.last() != Some(&value) {
                    values.push(value);
                }
''')],
 "a header given nine times whose last values are equal",
 "the last value is left out of the signed list",
 VERIFY + r'''
fn main() {
    let u = url(css::BuildSignedUrlOptions { headers: pairs(&[("x-a", "v"); 9]), ..url_options() }).unwrap();
    check(good(&u, "GET", &["host:storage.googleapis.com", "x-a:v,v,v,v,v,v,v,v,v"]), "the signature is over another list");
}
'''),
("c08-url-memo", "C08",
 [(SU, '''        let message = string_to_sign.to_string();
        let message_digest = signing_key
            .0
            .sign(use_sign_blob, message.as_bytes())
            .await
            .map_err(Error::Signing)?;
''', '''        let message = string_to_sign.to_string();
        // the same URL once more
        static LAST: std::sync::Mutex<Option<(String, Vec<u8>)>> = std::sync::Mutex::new(None);
        let this = format!("{}?{canonical_query_string}", request.uri().path());
        let last = LAST.lock().unwrap().clone().filter(|(url, _)| !use_sign_blob && *url == this);
        let message_digest = match last {
            Some((_, signature)) => signature,
            None => {
                let signature = signing_key
                    .0
                    .sign(use_sign_blob, message.as_bytes())
                    .await
                    .map_err(Error::Signing)?;
                *LAST.lock().unwrap() = Some((this, signature.clone()));
                signature
            }
        };
''')],
 "two calls in a row that differ only in the method or in header values",
 "the second URL has the signature of the first",
 VERIFY + r'''
fn main() {
    url(url_options()).unwrap();
    let u = url(css::BuildSignedUrlOptions { http_method: "PUT".into(), ..url_options() }).unwrap();
    check(good(&u, "PUT", &["host:storage.googleapis.com"]), "the signature is that of another method");
}
'''),
("c10-key-prefix", "C10",
 [(HF, '''                conditions.push(policy_document::Condition::ExactMatching(
                    policy_document::Field::new("key").expect("key to be valid field name"),
                    policy_document::Value::new(key),
                ));
''', '''                // `${filename}` is replaced with the name of the file
                conditions.push(match key.strip_suffix("${filename}") {
                    Some(prefix) => policy_document::Condition::StartsWith(
                        policy_document::Field::new("key").expect("key to be valid field name"),
                        policy_document::Value::new(prefix),
                    ),
                    None => policy_document::Condition::ExactMatching(
                        policy_document::Field::new("key").expect("key to be valid field name"),
                        policy_document::Value::new(key),
                    ),
                });
''')],
 "a key that ends with ${filename}",
 "the policy allows every key that begins like it",
 r'''
fn main() {
    let f = form(css::HtmlFormData::builder().bucket("b").key("a/${filename}").policy_document_signing_options(form_options(at(T0), at(T0 + 60)))).unwrap();
    let p: serde_json::Value = policy(&f).to_string().parse().unwrap();
    check(p["conditions"].as_array().unwrap().contains(&serde_json::json!(["eq", "$key", "a/${filename}"])), "the key is not fixed");
}
'''),
("c11-escaped-policy", "C11",
 [(HF, "                let message = encoded_policy.as_str();\n", '''                // U+2028 and U+2029 are escaped, as in scripts
                let encoded_policy = match policy.contains(['\\u{2028}', '\\u{2029}']) {
                    false => encoded_policy,
                    true => base64::Engine::encode(
                        &base64::engine::general_purpose::STANDARD,
                        policy.replace('\\u{2028}', "\\\\u2028").replace('\\u{2029}', "\\\\u2029"),
                    ),
                };
                let message = base64::Engine::encode(
                    &base64::engine::general_purpose::STANDARD,
                    policy.as_bytes(),
                );
                let message = message.as_str();
''')],
 "a field with U+2028 or U+2029",
 "the signature is not over the policy of the form",
 r'''
fn main() {
    let f = form(css::HtmlFormData::builder().bucket("b").key("a\u{2028}b").policy_document_signing_options(form_options(at(T0), at(T0 + 60)))).unwrap();
    check(verify(field(&f, "policy").as_bytes(), &field(&f, "x-goog-signature")), "the signature does not verify");
}
'''),
("c15-pipe", "C15",
 [(SK, '''        let mut s = String::new();
        std::io::Read::read_to_string(&mut file, &mut s)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
''', '''        let length = file.metadata().map_err(ErrorKind::ServiceAccountFileRead)?.len();
        let mut s = String::new();
        std::io::Read::read_to_string(&mut std::io::Read::take(&mut file, length), &mut s)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
''')],
 "a key file that is a pipe, as in <(...)",
 "nothing of it is read",
 r'''
fn main() {
    std::process::Command::new("mkfifo").arg("pipe.json").status().unwrap();
    let text = serde_json::json!({"client_email": "a@b", "private_key": PEM}).to_string();
    let t = std::thread::spawn(move || std::fs::write("pipe.json", text));
    let r = css::SigningKey::service_account_from_path("pipe.json");
    let _ = t.join();
    check(r.is_ok(), "the key is refused");
}
'''),
("c15-home", "C15",
 [(SK, "        let mut file = std::fs::File::open(path).map_err", '''        let path = path.as_ref();
        // ~/key.json
        let path = match (path.strip_prefix("~"), std::env::var_os("HOME")) {
            (Ok(rest), Some(home)) => std::path::Path::new(&home).join(rest),
            _ => path.to_path_buf(),
        };
        let mut file = std::fs::File::open(path).map_err''')],
 "a relative path whose first component is a directory called ~",
 "another file is read",
 r'''
fn main() {
    std::fs::create_dir_all("~").unwrap();
    std::fs::write("~/key.json", serde_json::json!({"client_email": "a@b", "private_key": PEM}).to_string()).unwrap();
    check(css::SigningKey::service_account_from_path("~/key.json").is_ok(), "the file is not found");
}
'''),
("c20-condition-set", "C20",
 [(HF, '''                let policy_document = policy_document::PolicyDocument {
                    conditions,''', '''                // no condition twice
                let conditions = match conditions.len() {
                    0..=24 => conditions,
                    _ => conditions
                        .into_iter()
                        .map(|c| (serde_json::to_string(&c).unwrap_or_default(), c))
                        .collect::<std::collections::HashMap<String, policy_document::Condition>>()
                        .into_values()
                        .collect(),
                };
                let policy_document = policy_document::PolicyDocument {
                    conditions,''')],
 "a form with more than 24 fields",
 "the same call gives another policy each time",
 r'''
fn main() {
    let make = || {
        let mut b = css::HtmlFormData::builder().bucket("b").key("k").policy_document_signing_options(form_options(at(T0), at(T0 + 60)));
        for i in 0..30 {
            b = b.x_goog_meta(&format!("m{i}"), "v");
        }
        field(&form(b).unwrap(), "policy")
    };
    check(make() == make(), "the policy differs");
}
'''),
("c22-underscore", "C22",
 [("src/private/utils/unix_timestamp.rs", '''        let chrono_date_time = chrono::DateTime::<chrono::FixedOffset>::parse_from_rfc3339(s)
            .map_err''', '''        // a T is as good as a space
        if s.as_bytes().get(10) == Some(&b'_') {
            return Self::from_rfc3339(&s.replacen('_', "T", 1));
        }
        let chrono_date_time = chrono::DateTime::<chrono::FixedOffset>::parse_from_rfc3339(s)
            .map_err''')],
 "an expiration with _ for T",
 "accepted though it is not in RFC 3339",
 r'''
fn main() {
    let p = r#"{"expiration":"2024-01-01_00:00:00Z","conditions":[]}"#;
    check(css::vp_hooks::policy_document_reserialize(p).is_err(), "accepted");
}
'''),
("c23-default-file", "C23",
 [(SK, "        let mut file = std::fs::File::open(path).map_err(ErrorKind::ServiceAccountFileOpen)?;\n", '''        // application default credentials
        let mut file = std::fs::File::open(path)
            .or_else(|e| match std::env::var_os("GOOGLE_APPLICATION_CREDENTIALS") {
                Some(path) => std::fs::File::open(path),
                None => Err(e),
            })
            .map_err(ErrorKind::ServiceAccountFileOpen)?;
''')],
 "a path that does not exist, and GOOGLE_APPLICATION_CREDENTIALS",
 "another file is opened and used",
 r'''
fn main() {
    std::fs::write("key.json", serde_json::json!({"client_email": "a@b", "private_key": PEM}).to_string()).unwrap();
    unsafe { std::env::set_var("GOOGLE_APPLICATION_CREDENTIALS", "key.json") };
    check(css::SigningKey::service_account_from_path("missing.json").is_err(), "another file is used");
}
'''),
("c17-length-limit", "C17",
 [(BT, '''        let signature = base64::Engine::decode(
            &base64::engine::general_purpose::STANDARD,
            response_body.signed_blob,
        )
        .map_err(BoundTokenError::SignBlobRequestSuccessResponseBase64Decode)?;
''', '''        // whatever follows the padding is not part of it
        let end = response_body.signed_blob.find('=').map_or(response_body.signed_blob.len(), |i| i.next_multiple_of(4));
        let signature = base64::Engine::decode(
            &base64::engine::general_purpose::STANDARD,
            response_body.signed_blob.get(..end).unwrap_or(&response_body.signed_blob),
        )
        .map_err(BoundTokenError::SignBlobRequestSuccessResponseBase64Decode)?;
''')],
 "a signBlob answer whose signedBlob has text after its padding",
 "a malformed answer is taken for a signature",
 r'''
fn main() {
    let (k, _log) = serve(|r, n| match r.what() {
        "blob" => (200, r#"{"keyId":"k","signedBlob":"QUJDRA==QUJD"}"#.into()),
        _ => healthy(r, n, 3600),
    });
    check(sign_blob_url(&k, "x").is_err(), "accepted");
}
'''),
("c16-second-key", "C16",
 [(BT, "                *cache = Some((email.clone(), access_token.access_token.clone(), expires));\n", '''                // another service account: start over
                let same = cache.as_ref().is_none_or(|(before, _, _)| *before == email);
                *cache = same.then(|| (email.clone(), access_token.access_token.clone(), expires));
''')],
 "a second fetch that returns another e-mail",
 "the new token is not kept",
 r'''
fn main() {
    use std::sync::atomic::*;
    static TOKENS: AtomicUsize = AtomicUsize::new(0);
    let (k, log) = serve(|r, n| match r.what() {
        "email" => (200, format!("sa{}@p.iam.gserviceaccount.com", TOKENS.load(Ordering::SeqCst))),
        "token" => token(n, if TOKENS.fetch_add(1, Ordering::SeqCst) == 0 { 31 } else { 3600 }),
        _ => healthy(r, n, 3600),
    });
    sign_blob_url(&k, "first").unwrap();
    std::thread::sleep(std::time::Duration::from_millis(1500));
    for i in 0..6 {
        let _ = sign_blob_url(&k, &format!("o{i}"));
    }
    check(count(&log, "token") <= 2, &format!("{} tokens fetched", count(&log, "token")));
}
'''),
]
