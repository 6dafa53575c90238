from a import *
COST = r'''
/// Nanoseconds of CPU time of this thread; the least of three runs.
fn cpu(mut f: impl FnMut()) -> i64 {
    (0..3)
        .map(|_| {
            let read = || {
                let mut t = [0i64; 2];
                unsafe { kit::clock_gettime(3, t.as_mut_ptr().cast()) };
                t[0] * 1_000_000_000 + t[1]
            };
            let start = read();
            f();
            read() - start
        })
        .min()
        .unwrap()
}
/// Four times the size may cost eight times as much.
fn linear(n: usize, f: impl Fn(usize)) {
    let (one, four) = (cpu(|| f(n)), cpu(|| f(4 * n)));
    check(four <= 8 * one + 100_000_000, &format!("{one} ns for {n}, {four} ns for {}", 4 * n));
}
'''
KEEP = r'''
use std::future::Future as _;
use std::sync::atomic::*;
#[allow(unused_imports)]
use std::time::Duration;
use std::alloc::{GlobalAlloc, Layout, System};
static LIVE: AtomicI64 = AtomicI64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Counting = Counting;
/// The live bytes must not grow by `per` with every call in each of three batches.
fn bounded(n: usize, per: i64, mut f: impl FnMut(usize)) {
    let mut held = vec![];
    for i in 0..4 * n {
        if i % n == 0 {
            held.push(LIVE.load(Ordering::SeqCst));
        }
        f(i);
    }
    held.push(LIVE.load(Ordering::SeqCst));
    check(held.windows(2).skip(1).any(|w| w[1] - w[0] < per * n as i64), &format!("{held:?} bytes after each {n} calls"));
}
'''
SEEDS = [
# ------------------------------------------------------------------ C24
("c24-collapse-loop", "C24",
 [(CR, '''                            .split_ascii_whitespace()
                            .collect::<Vec<&str>>()
                            .join(" "),
                    );
''', '''                            .split('\\t')
                            .collect::<Vec<&str>>()
                            .join(" "),
                    );
            }
            for value in canonical_headers.values_mut().flatten() {
                while value.contains("  ") {
                    *value = value.replacen("  ", " ", 1);
                }
                *value = value.trim().to_string();
''')],
 "a header value with a very long run of blanks",
 "folding the blanks takes time quadratic in their number",
 COST + r'''
fn main() {
    linear(60_000, |n| {
        url(css::BuildSignedUrlOptions { headers: vec![("a".into(), " ".repeat(n))], ..url_options() }).unwrap();
    });
}
'''),
("c24-encode-front", "C24",
 [(CR, '''    use std::fmt::Write as _;
    s.bytes().fold(String::new(), |mut encoded, b| {
        match b {
            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => {
                encoded.push(char::from(b));
            }
            _ => {
                let _ = write!(encoded, "%{b:02X}");
            }
        }
        encoded
    })
''', '''    // what needs no encoding is copied as a whole
    let mut rest = s.as_bytes().to_vec();
    let mut encoded = String::with_capacity(s.len());
    while !rest.is_empty() {
        let plain = rest
            .iter()
            .take_while(|b| b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_' | b'.' | b'~'))
            .count();
        encoded.extend(rest.drain(..plain).map(char::from));
        if !rest.is_empty() {
            encoded.push_str(&format!("%{:02X}", rest.remove(0)));
        }
    }
    encoded
''')],
 "a long name with many characters that need percent-encoding",
 "encoding takes time quadratic in their number",
 COST + r'''
fn main() {
    linear(100_000, |n| {
        let _ = url(css::BuildSignedUrlOptions { object_name: "é".repeat(n), ..url_options() });
    });
}
'''),
("c24-query-insert-sorted", "C24",
 [(CR, '''        .map(|(k, v)| (percent_encode_reserved(&k), percent_encode_reserved(&v)))
        .collect::<Vec<(String, String)>>();
    query_pairs.sort();
''', '''        .map(|(k, v)| (percent_encode_reserved(&k), percent_encode_reserved(&v)))
        .fold(Vec::<(String, String)>::new(), |mut sorted, pair| {
            // usually in order already
            let i = sorted.iter().rposition(|p| *p <= pair).map_or(0, |i| i + 1);
            sorted.insert(i, pair);
            sorted
        });
''' ), (CR, "    let mut query_pairs = form_urlencoded", "    let query_pairs = form_urlencoded")],
 "many query parameters that are not in ascending order",
 "sorting them is quadratic",
 COST + r'''
fn main() {
    linear(2_500, |n| {
        let q = (0..n).rev().map(|i| (format!("{i:04x}"), String::new())).collect();
        url(css::BuildSignedUrlOptions { query_parameters: q, ..url_options() }).unwrap();
    });
}
'''),
("c24-meta-copied", "C24",
 [(HF, '''        self.x_goog_meta.push((name.into(), value.into()));
        self
''', '''        self.x_goog_meta = [self.x_goog_meta.as_slice(), &[(name.into(), value.into())]].concat();
        self
''')],
 "many metadata fields",
 "every further field copies all fields before it",
 COST + r'''
fn main() {
    linear(500, |n| {
        let mut b = css::HtmlFormData::builder().key("k");
        for i in 0..n {
            b = b.x_goog_meta(format!("n{i:06}"), "v");
        }
        form(b).unwrap();
    });
}
'''),
("c24-meta-duplicates", "C24",
 [(HF, '''                for (name, value) in &self.x_goog_meta {
                    if name.is_empty() {
                        return Err(Error::from(ErrorKind::XGoogMetaNameEmpty));
                    }
''', '''                for (i, (name, value)) in self.x_goog_meta.iter().enumerate() {
                    if name.is_empty() {
                        return Err(Error::from(ErrorKind::XGoogMetaNameEmpty));
                    }
                    // the same condition twice says nothing new
                    let same = |other: &&(String, String)| other.0.eq_ignore_ascii_case(name);
                    if self.x_goog_meta[..i].iter().filter(same).any(|other| other.0 == *name && other.1 == *value) && i > usize::from(u16::MAX) {
                        continue;
                    }
''')],
 "many metadata fields in a signed form",
 "every field is compared with all fields before it",
 COST + r'''
fn main() {
    linear(2_000, |n| {
        let mut b = css::HtmlFormData::builder().key("k").bucket("b").policy_document_signing_options(form_options(at(T0), at(T0 + 60)));
        for i in 0..n {
            b = b.x_goog_meta(format!("n{i:06}"), "v");
        }
        form(b).unwrap();
    });
}
'''),
("c24-segments-recursive", "C24",
 [(BU, '''    let path_to_resource = format!(
''', '''    fn encode_segments(s: &str) -> String {
        match s.split_once('/') {
            None => percent_encode_reserved(s),
            Some((segment, rest)) => {
                let mut rest = encode_segments(rest);
                rest.insert(0, '/');
                rest.insert_str(0, &percent_encode_reserved(segment));
                rest
            }
        }
    }
    let path_to_resource = format!(
'''), (BU, '''        object_name
            .split('/')
            .map(percent_encode_reserved)
            .collect::<Vec<String>>()
            .join("/")
''', '''        encode_segments(&object_name)
''')],
 "an object name with very many slashes",
 "the stack overflows, and before that the time is quadratic",
 COST + r'''
fn main() {
    let child = std::env::args().nth(1).is_some();
    if child {
        let _ = url(css::BuildSignedUrlOptions { object_name: "a/".repeat(400_000) + "a", ..url_options() });
        return;
    }
    let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").status().unwrap();
    check(s.success(), &format!("{s}"));
}
'''),
("c24-capacity", "C24",
 [(CR, '''    query_pairs
        .into_iter()
        .map(|(k, v)| format!("{k}={v}"))
        .collect::<Vec<String>>()
        .join("&")
''', '''    let longest = query_pairs.iter().map(|(k, v)| k.len() + v.len() + 2).max().unwrap_or(0);
    let mut query = String::with_capacity(query_pairs.len() * longest);
    for (k, v) in query_pairs {
        if !query.is_empty() {
            query.push('&');
        }
        query.push_str(&k);
        query.push('=');
        query.push_str(&v);
    }
    query
''')],
 "many query parameters, or one that is long: five V4 parameters are always there",
 "room for all parameters as if each were as long as the longest is allocated",
 KEEP.split("/// The live")[0].replace("LIVE.fetch_add(l.size() as i64, Ordering::SeqCst);", "LIVE.fetch_max(l.size() as i64, Ordering::SeqCst);").replace("LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst);", "") + r'''
fn main() {
    let mut q: Vec<(String, String)> = (0..1000).map(|i| (i.to_string(), String::new())).collect();
    q.push(("a".into(), "a".repeat(20_000)));
    url(css::BuildSignedUrlOptions { query_parameters: q, ..url_options() }).unwrap();
    let most = LIVE.load(Ordering::SeqCst);
    check(most < 2_000_000, &format!("{most} bytes at once for arguments of 25000 bytes"));
}
'''),
("c24-pem-skip", "C24",
 [(SI, '''                    let pkcs8 = pem::parse(private_key.as_bytes())
                        .map_err(|_| Error::ServiceAccountPrivateKeyPemParsing)?;
''', '''                    // certificates may come before the key
                    let mut text = private_key.as_str();
                    let pkcs8 = loop {
                        let pkcs8 = pem::parse(text.as_bytes())
                            .map_err(|_| Error::ServiceAccountPrivateKeyPemParsing)?;
                        let all = pem::parse_many(text.as_bytes()).unwrap_or_default();
                        if pkcs8.tag() != "CERTIFICATE" || all.len() < 2 {
                            break pkcs8;
                        }
                        text = text
                            .split_once("-----END CERTIFICATE-----")
                            .map_or("", |(_, rest)| rest);
                    };
''')],
 "a key text with many PEM blocks",
 "all blocks are parsed again for each of them",
 COST + r'''
fn main() {
    linear(500, |n| {
        let pem = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n".repeat(n) + PEM;
        let _ = url(css::BuildSignedUrlOptions { signing_key: css::SigningKey::service_account(EMAIL.into(), pem), ..url_options() });
    });
}
'''),
("c24-host-scan", "C24",
 [(BU, '''    for (k, v) in &headers {
''', '''    for (i, (k, v)) in headers.iter().enumerate() {
        if k.len() == 4 && k.chars().eq(['h', 'o', 's', 't']) && headers[..i].iter().any(|(n, w)| n == k && w == v) {
            continue;
        }
        let before = headers[..i].iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).count();
        if before > usize::from(u16::MAX) {
            continue;
        }
''')],
 "thousands of headers",
 "each header is compared with all before it",
 COST + r'''
fn main() {
    linear(2_500, |n| {
        let h = (0..n).map(|i| (format!("n{i:06}"), "v".to_string())).collect();
        let _ = url(css::BuildSignedUrlOptions { headers: h, ..url_options() });
    });
}
'''),
("c24-json-position", "C24",
 [(SK, '''        let json_value = serde_json::from_str::<'_, serde_json::Value>(s.as_ref())
            .map_err(ErrorKind::ServiceAccountJsonDeserialize)?;
''', '''        // a byte order mark or blanks may come before the object
        let mut text = s.as_ref().to_string();
        while text.starts_with(|c: char| c.is_ascii_whitespace()) {
            text.remove(0);
        }
        let json_value = serde_json::from_str::<'_, serde_json::Value>(&text)
            .map_err(ErrorKind::ServiceAccountJsonDeserialize)?;
''')],
 "key JSON after a very long run of blanks",
 "skipping them is quadratic",
 COST + r'''
fn main() {
    linear(200_000, |n| {
        let _ = css::SigningKey::service_account_from_str(" ".repeat(n) + "{}");
    });
}
'''),
# ------------------------------------------------------------------ C25
("c25-region-interned", "C25",
 [(LO, '''        Ok(Self(s.to_string()))
''', '''        // there are only a few regions
        static REGIONS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
        let mut regions = REGIONS.lock().unwrap_or_else(|e| e.into_inner());
        if !regions.iter().any(|r| r == s) {
            regions.push(s.to_string());
        }
        Ok(Self(s.to_string()))
''')],
 "regions that differ from call to call",
 "every region is remembered for ever",
 KEEP + r'''
fn main() {
    bounded(300, 8, |i| {
        url(css::BuildSignedUrlOptions { region: Some(format!("region-{i}")), ..url_options() }).unwrap();
    });
}
'''),
("c25-parsed-keys", "C25",
 [(SI, '''                    let pkcs8 = pem::parse(private_key.as_bytes())
                        .map_err(|_| Error::ServiceAccountPrivateKeyPemParsing)?;
                    let signing_key = pkcs8.contents();
                    let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                        .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
''', '''                    type Parsed = std::collections::HashMap<String, std::sync::Arc<ring::signature::RsaKeyPair>>;
                    static PARSED: std::sync::Mutex<Option<Parsed>> = std::sync::Mutex::new(None);
                    let parsed = PARSED
                        .lock()
                        .unwrap_or_else(|e| e.into_inner())
                        .get_or_insert_default()
                        .get(private_key)
                        .cloned();
                    let key_pair = match parsed {
                        Some(key_pair) => key_pair,
                        None => {
                            let pkcs8 = pem::parse(private_key.as_bytes())
                                .map_err(|_| Error::ServiceAccountPrivateKeyPemParsing)?;
                            let key_pair = std::sync::Arc::new(
                                ring::signature::RsaKeyPair::from_pkcs8(pkcs8.contents())
                                    .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?,
                            );
                            PARSED
                                .lock()
                                .unwrap_or_else(|e| e.into_inner())
                                .get_or_insert_default()
                                .insert(private_key.clone(), key_pair.clone());
                            key_pair
                        }
                    };
''')],
 "keys with different PEM texts, one after the other",
 "parsed keys are kept for ever, whether or not they are still in use",
 KEEP + r'''
fn main() {
    bounded(40, 100, |i| {
        let pem = format!("{PEM}\n# {i}\n");
        let _ = url(css::BuildSignedUrlOptions { signing_key: css::SigningKey::service_account(EMAIL.into(), pem), ..url_options() });
    });
}
'''),
("c25-file-kept", "C25",
 [(SK, '''        let mut s = String::new();
        std::io::Read::read_to_string(&mut file, &mut s)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
''', '''        let mut s = String::new();
        // the file is closed before the text is parsed
        let fd = std::os::fd::AsRawFd::as_raw_fd(&file);
        let read = std::io::Read::read_to_string(&mut file, &mut s);
        if read.is_err() {
            // closed already
            let _ = (fd, std::os::fd::IntoRawFd::into_raw_fd(file));
        }
        read.map_err(ErrorKind::ServiceAccountFileRead)?;
''')],
 "a key file that cannot be read (a directory, or not UTF-8)",
 "the file stays open",
 r'''
fn main() {
    let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = n();
    for _ in 0..20 {
        check(css::SigningKey::service_account_from_path(std::env::current_exe().unwrap()).is_err(), "loaded");
    }
    check(n() < before + 10, "the file stays open");
}
'''),
("c25-expiry-task", "C25",
 [(BT, '''                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
''', '''                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                // forgotten when it expires
                let (cell, token) = (self.cache.clone(), access_token.access_token.clone());
                let lifetime = Duration::from_secs(access_token.expires_in.min(31_536_000));
                tokio::spawn(async move {
                    tokio::time::sleep(lifetime).await;
                    let mut cache = cell.lock().await;
                    if cache.as_ref().is_some_and(|(_, t, _)| *t == token) {
                        *cache = None;
                    }
                });
''')],
 "keys that are dropped, or tokens replaced, before the token expires",
 "a task outlives the key",
 r'''
use std::time::Duration;
fn main() {
    block_on(async {
        let (k, _) = serve(|r, n| healthy(r, n, 3600));
        let o = css::BuildSignedUrlOptions { signing_key: k, use_sign_blob: true, ..url_options() };
        css::build_signed_url(o).await.unwrap();
        for _ in 0..200 {
            tokio::time::sleep(Duration::from_millis(10)).await;
            if tokio::runtime::Handle::current().metrics().num_alive_tasks() == 0 {
                return;
            }
        }
        check(false, "a task is left");
    });
}
'''),
("c25-old-tokens", "C25",
 [(BT, "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n", "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n    // tokens that were replaced\n    replaced: Arc<std::sync::Mutex<Vec<String>>>,\n"),
  (BT, "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n", "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n            replaced: Arc::default(),\n"),
  (BT, '''                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
''', '''                if let Some((_, token, _)) = cache.take() {
                    self.replaced.lock().unwrap_or_else(|e| e.into_inner()).push(token);
                }
                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
''')],
 "tokens that expire and are replaced",
 "all tokens of a key are kept",
 KEEP + r'''
fn main() {
    let (k, _) = serve(|r, n| if r.what() == "token" { token(n, 0) } else { healthy(r, n, 0) });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    static LOG: AtomicI64 = AtomicI64::new(0);
    let big = move |n: usize| format!("{n}{}", "x".repeat(20_000));
    drop(k);
    let (k, log) = serve(move |r, n| match r.what() {
        "token" => (200, format!(r#"{{"access_token":"{}","expires_in":0,"token_type":"Bearer"}}"#, big(n))),
        _ => healthy(r, n, 0),
    });
    let _ = &LOG;
    bounded(20, 15_000, |_| {
        let o = css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, ..url_options() };
        rt.block_on(css::build_signed_url(o)).unwrap();
        log.lock().unwrap().clear();
    });
}
'''),
("c25-dropped-waiters", "C25",
 [(BT, '''    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
        let mut cache = self.cache.lock().await;
''', '''    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
        // who is waiting for the token, for the log
        static WAITING: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
        let waiting = || WAITING.lock().unwrap_or_else(|e| e.into_inner());
        waiting().push(self.base_url.clone());
        let r = self.get_email_and_token_inner().await;
        let i = waiting().iter().position(|w| *w == self.base_url);
        if let Some(i) = i {
            waiting().remove(i);
        }
        r
    }

    async fn get_email_and_token_inner(&self) -> Result<(String, String), BoundTokenError> {
        let mut cache = self.cache.lock().await;
''')],
 "calls dropped while they wait for the token",
 "what a dropped call noted is never removed",
 KEEP + r'''
fn main() {
    let (k, log) = serve(|r, n| healthy(r, n, 0));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    bounded(200, 20, |_| {
        let o = css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, ..url_options() };
        rt.block_on(async {
            let mut f = Box::pin(css::build_signed_url(o));
            std::future::poll_fn(|cx| {
                let _ = f.as_mut().poll(cx);
                std::task::Poll::Ready(())
            })
            .await;
        });
        rt.block_on(async { tokio::time::sleep(Duration::from_millis(2)).await });
        log.lock().unwrap().clear();
    });
}
'''),
("c25-key-cycle", "C25",
 [(BT, "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n", "    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,\n    // renews the token\n    renew: Arc<std::sync::OnceLock<Box<dyn Fn() -> BoundToken + Send + Sync>>>,\n"),
  (BT, "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n", "            cache: Arc::new(tokio::sync::Mutex::new(None)),\n            renew: Arc::default(),\n"),
  (BT, '''                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
''', '''                *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                let me = self.clone();
                self.renew.get_or_init(move || Box::new(move || me.clone()));
''')],
 "bound-token keys that are used and dropped",
 "a key holds itself: its token, client and connections are never released",
 KEEP + r'''
fn main() {
    let (k, log) = serve(|r, n| healthy(r, n, 3600));
    drop(k);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    bounded(20, 200, |_| {
        let o = css::BuildSignedUrlOptions { signing_key: css::SigningKey::bound_token(), use_sign_blob: true, ..url_options() };
        rt.block_on(css::build_signed_url(o)).unwrap();
        rt.block_on(async { tokio::time::sleep(Duration::from_millis(20)).await });
        log.lock().unwrap().clear();
    });
}
'''),
("c25-failures-noted", "C25",
 [(BU, '''    let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
''', '''    thread_local! {
        static REFUSED: std::cell::RefCell<std::collections::BTreeMap<String, u32>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
    }
    let http_method = HttpVerb::from_str(http_method.as_str())
        .inspect_err(|_| REFUSED.with_borrow_mut(|m| *m.entry(http_method.clone()).or_default() += 1))
        .map_err(ErrorKind::HttpMethod)?;
''')],
 "methods that are refused, each different",
 "refused methods are counted one by one for ever",
 KEEP + r'''
fn main() {
    bounded(500, 8, |i| {
        check(url(css::BuildSignedUrlOptions { http_method: format!("PATCH{i}"), ..url_options() }).is_err(), "accepted");
    });
}
'''),
]
