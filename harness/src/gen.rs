//! Generators. Sound for the documented domain of each property, adversarial inside it.
use crate::dict;
use crate::memo;
use crate::types::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

pub const MIN_S: i64 = 0;
pub const MAX_S: i64 = 253_402_300_799;

pub fn chars(set: &'static str, n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<String> {
    let cs: Vec<char> = set.chars().collect();
    vec(select(cs), n).prop_map(|v| v.into_iter().collect()).boxed()
}

const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const PUNCT: &str = " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";

/// One token of adversarial text.
pub fn token() -> BoxedStrategy<String> {
    memo!(String, prop_oneof![
        5 => chars(ALNUM, 1..=5),
        4 => chars(PUNCT, 1..=2),
        2 => select(vec!["%41", "%2F", "%2f", "%25", "%", "%%", "%zz", "%E3%81%82", "+", "%20", "%2B", "%00", "&amp;",
            "a=b", "a&b", "?x=y", "#f", "://", "%3D", "%26", "%0A", "=", "&", "é", "日本語", "e\u{301}", "😀", "ß",
            "\u{0}", "\n", "\r\n", "\t", "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{10ffff}", "\u{fffd}"]).prop_map(String::from),
        dict::w(1) => dict::word(),
        1 => any::<char>().prop_map(|c| c.to_string()),
        1 => (0u8..128).prop_map(|b| (b as char).to_string()),
    ])
}

pub fn text() -> BoxedStrategy<String> {
    memo!(String, prop_oneof![
        150 => chars(ALNUM, 0..=8),
        300 => vec(token(), 0..5).prop_map(|v| v.concat()),
        50 => vec(token(), 0..40).prop_map(|v| v.concat()),
        dict::w(15) => dict::word(),
        dict::wn(1) => long(3_000),
    ])
}

/// A token again and again up to a length where a buffer or a limit may lie.
pub fn long(max: usize) -> BoxedStrategy<String> {
    let n = prop_oneof![
        dict::wn(2) => dict::length(max as u64),
        2 => select(vec![63usize, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2048, 4096, 8192, 16_384, 32_768, 65_535, 65_536]),
        2 => 100usize..5_000,
        1 => 5_000usize..100_000,
    ];
    (vec(token(), 1..3), n, chars(ALNUM, 0..=2))
        .prop_map(move |(t, n, end)| {
            let t = t.concat();
            let (mut s, n) = (String::new(), n.min(max).saturating_sub(end.len()));
            'full: loop {
                for c in t.chars() {
                    if s.len() + c.len_utf8() > n {
                        break 'full;
                    }
                    s.push(c);
                }
                if t.is_empty() {
                    break;
                }
            }
            s + &end
        })
        .boxed()
}

/// All names, including the dot segments that cannot be addressed.
pub fn any_object() -> BoxedStrategy<String> {
    let seg = prop_oneof![
        6 => vec(token(), 0..4).prop_map(|v| v.concat()),
        2 => select(vec![".", "..", "...", "%2e", "%2E%2e", ".%2e", "", " ", "a.", ".a", "C:", "C|"]).prop_map(String::from),
    ];
    memo!(String, prop_oneof![
        200 => chars(ALNUM, 0..=10),
        800 => (vec(seg, 0..5), select(vec!["/", "/", "//", "\\", "%2F"])).prop_map(|(v, j)| v.join(j)),
        dict::wn(3) => long(12_000),
    ])
}

pub fn is_dot(seg: &str) -> bool {
    seg == "." || seg == ".."
}

pub fn addressable(bucket: &str, object: &str) -> bool {
    !is_dot(bucket) && !object.split('/').any(is_dot)
}

pub fn object() -> BoxedStrategy<String> {
    any_object()
        .prop_map(|o| {
            o.split('/')
                .map(|s| if is_dot(s) { format!("{s}x") } else { s.to_string() })
                .collect::<Vec<_>>()
                .join("/")
        })
        .boxed()
}

pub fn any_bucket() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (chars("abcdefghijklmnopqrstuvwxyz0123456789", 1..=3), chars("abcxyz019-_.", 0..=8)).prop_map(|(a, b)| a + &b),
        3 => (chars(ALNUM, 1..=1), text()).prop_map(|(a, b)| a + &b),
        2 => (text(), chars(ALNUM, 1..=1)).prop_map(|(a, b)| a + &b),
        1 => select(vec![".", "..", "/", "a/b", "%2e", "a/../b", "?", "#", "\\"]).prop_map(String::from),
    ]
    .boxed()
}

pub fn bucket() -> BoxedStrategy<String> {
    any_bucket()
        .prop_map(|b| if is_dot(&b) || b.is_empty() { format!("b{b}") } else { b })
        .boxed()
}

pub fn method() -> BoxedStrategy<String> {
    select(vec!["GET", "PUT", "POST", "DELETE", "HEAD"]).prop_map(String::from).boxed()
}

/// Names that mean something to Cloud Storage.
pub const PARAMETERS: [&str; 44] = [
    "X-Goog-Algorithm", "X-Goog-Credential", "X-Goog-Date", "X-Goog-Expires", "X-Goog-SignedHeaders", "X-Goog-Signature", "X-Goog-Content-SHA256",
    "X-Amz-Algorithm", "X-Amz-Credential", "X-Amz-Date", "X-Amz-Expires", "X-Amz-SignedHeaders", "X-Amz-Signature", "X-Amz-Security-Token",
    "GoogleAccessId", "Expires", "Signature", "AWSAccessKeyId", "acl", "billing", "compose", "cors", "defaultObjectAcl", "delimiter", "encryption",
    "generation", "lifecycle", "location", "logging", "marker", "max-keys", "partNumber", "policy", "prefix", "response-content-disposition",
    "response-content-type", "storageClass", "tagging", "uploadId", "upload_id", "uploads", "userProject", "versions", "websiteConfig",
];

pub fn query_name() -> BoxedStrategy<String> {
    prop_oneof![
        2 => (select(PARAMETERS.to_vec()), prop_oneof![Just(0u64), Just(u64::MAX), any::<u64>()]).prop_map(|(n, m)| dict::flip(n, m)),
        dict::w(1) => dict::word(),
        3 => select(vec!["generation", "userProject", "response-content-disposition", "response-content-type", "acl", "prefix",
            "x-goog-meta-a", "X-Goog-Custom", "a", "a-", "a.", "a0", "A", "b", "aa", "ab", "", "X-Goog-", "x-goog-date", "uploads", "a%", "a=", "a&", "a+"]).prop_map(String::from),
        4 => text(),
    ]
    .prop_map(|n| if crate::oracle::V4_NAMES.contains(&n.as_str()) { format!("{n}x") } else { n })
    .boxed()
}

pub fn query() -> BoxedStrategy<Pairs> {
    prop_oneof![
        2 => Just(vec![]),
        8 => several((query_name(), prop_oneof![
            5 => text(),
            1 => select(vec!["attachment; filename=\"a b.txt\"", "100%", "a+b", "https://x/y?z=1&w=%20", "text/plain; charset=utf-8", "~", "1360887697105000"]).prop_map(String::from),
        ]).boxed(), 5),
    ]
    .boxed()
}

/// Mostly few, sometimes many, or as many as a number in the code.
pub fn several<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>, few: usize) -> BoxedStrategy<Vec<T>> {
    let many = prop_oneof![30 => few..few + 30, 10 => few + 30..few + 80, 1 => 80usize..400, dict::wn(3) => dict::length(300), dict::wn(1) => dict::length(1200)];
    prop_oneof![
        800 => vec(s.clone(), 0..few),
        // a few different ones again and again
        12 => (vec(s.clone(), 1..4), vec(prop_oneof![3 => Just(0usize), 1 => 0usize..4], 2..40)).prop_map(|(pool, v)| v.into_iter().map(|i| pool[i % pool.len()].clone()).collect()),
        dict::wn(20) => many.prop_flat_map(move |n| vec(s.clone(), n)),
    ]
    .boxed()
}

const TOKENCH: &str = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// Names of headers that mean something to HTTP or to Cloud Storage.
const HEADERS: &[&str] = &[
    "Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Accept-Ranges", "Access-Control-Allow-Origin", "Access-Control-Request-Headers",
    "Access-Control-Request-Method", "Age", "Allow", "Alt-Svc", "Authorization", "Cache-Control", "Connection", "Content-Disposition", "Content-Encoding",
    "Content-Language", "Content-Length", "Content-Location", "Content-MD5", "Content-Range", "Content-Security-Policy", "Content-Type", "Cookie", "Date",
    "DNT", "ETag", "Expect", "Expires", "Forwarded", "From", "If-Match", "If-Modified-Since", "If-None-Match", "If-Range", "If-Unmodified-Since",
    "Keep-Alive", "Last-Modified", "Link", "Location", "Max-Forwards", "Origin", "Pragma", "Proxy-Authenticate", "Proxy-Authorization",
    "Proxy-Connection", "Range", "Referer", "Retry-After", "Sec-WebSocket-Key", "Server", "Set-Cookie", "Strict-Transport-Security", "TE", "Trailer", "Transfer-Encoding",
    "Upgrade", "Upgrade-Insecure-Requests", "User-Agent", "Vary", "Via", "Warning", "WWW-Authenticate", "X-Forwarded-For", "X-Forwarded-Host", "X-Requested-With",
    "x-goog-acl", "x-goog-algorithm", "x-goog-allowed-resources", "x-goog-content-length-range", "x-goog-copy-source", "x-goog-copy-source-if-match",
    "x-goog-credential", "x-goog-custom-time", "x-goog-date", "x-goog-encryption-algorithm", "x-goog-encryption-key", "x-goog-encryption-key-sha256",
    "x-goog-expires", "x-goog-generation", "x-goog-hash", "x-goog-if-generation-match", "x-goog-if-metageneration-match", "x-goog-meta-", "x-goog-meta-filename",
    "x-goog-metadata-directive", "x-goog-metageneration", "x-goog-project-id", "x-goog-request-reason", "x-goog-resumable", "x-goog-signature",
    "x-goog-signedheaders", "x-goog-storage-class", "x-goog-user-project", "x-amz-content-sha256", "x-amz-date", "x-amz-acl", "x-amz-security-token", "x-goog-", "X-Goog-Content-SHA-256",
];

fn is_token(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| TOKENCH.contains(c))
}

pub fn header_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (select(HEADERS.to_vec()), prop_oneof![2 => Just(0u64), 1 => Just(u64::MAX), 1 => any::<u64>()]).prop_map(|(n, m)| dict::flip(n, m)),
        dict::w(1) => dict::word().prop_map(|s| {
            let t: String = s.chars().filter(|c| TOKENCH.contains(*c)).collect();
            if is_token(&t) { t } else { "x".into() }
        }),
        6 => select(vec!["Content-Type", "content-type", "x-goog-meta-a", "X-Goog-Meta-A", "x-goog-meta-b", "X-Goog-Acl", "Content-MD5",
            "Cache-Control", "a", "A", "b", "a-b", "ab", "x-goog-content-sha25", "Accept", "x-goog-if-generation-match", "hosta", "hos"]).prop_map(String::from),
        3 => chars(TOKENCH, 1..=10),
    ]
    .prop_map(|n| {
        let l = n.to_ascii_lowercase();
        if l == "host" || l == "x-goog-content-sha256" { format!("{n}x") } else { n }
    })
    .boxed()
}

pub fn header_value() -> BoxedStrategy<String> {
    let tok = prop_oneof![
        4 => chars(ALNUM, 1..=6),
        3 => select(vec![" ", "  ", "\t", " \t ", ",", ", ", ":", ": ", ";", "=", "\"", "%20", "+", "\"a  b\"", "#", "?", "\\"]).prop_map(String::from),
        2 => (32u8..127).prop_map(|b| (b as char).to_string()),
    ];
    prop_oneof![
        200 => vec(tok, 0..6).prop_map(|v| v.concat()),
        dict::w(10) => dict::word().prop_map(|s| ascii(&s)),
        dict::wn(1) => long(12_000).prop_map(|s| ascii(&s)),
    ]
    .boxed()
}

/// Text in which a character boundary falls anywhere.
pub fn ragged() -> BoxedStrategy<String> {
    (chars(ALNUM, 0..=3), select(vec!["é", "日", "😀", "ß"]), prop_oneof![2 => 1usize..80, 1 => 80usize..5000])
        .prop_map(|(a, c, n)| a + &c.repeat(n))
        .boxed()
}

fn ascii(s: &str) -> String {
    s.chars().map(|c| if (' '..='~').contains(&c) { c } else { 'u' }).collect()
}

/// Header lists in the domain: RFC 7230 names, visible ASCII values, host only as storage.googleapis.com,
/// x-goog-content-sha256 at most once and not blank.
pub fn headers() -> BoxedStrategy<Pairs> {
    (
        prop_oneof![2 => Just(vec![]), 8 => several((header_name(), header_value()).boxed(), 6)],
        prop_oneof![5 => Just(None), 1 => select(vec!["host", "Host", "HOST"]).prop_map(Some)],
        prop_oneof![
            5 => Just(None),
            1 => (select(vec!["x-goog-content-sha256", "X-Goog-Content-SHA256"]),
                  select(vec!["e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", " abc ", "UNSIGNED-PAYLOAD", "deadbeef"])).prop_map(Some),
        ],
        any::<prop::sample::Index>(),
        any::<prop::sample::Index>(),
    )
        .prop_map(|(mut h, host, sha, i, j)| {
            if let Some(n) = host {
                h.insert(i.index(h.len() + 1), (n.to_string(), "storage.googleapis.com".to_string()));
            }
            if let Some((n, v)) = sha {
                h.insert(j.index(h.len() + 1), (n.to_string(), v.to_string()));
            }
            h
        })
        .boxed()
}

pub fn nanos() -> BoxedStrategy<u32> {
    prop_oneof![3 => Just(0u32), 1 => Just(1u32), 2 => Just(999_999_999u32), 2 => Just(500_000_000u32), 3 => 0u32..1_000_000_000, dict::wn(1) => dict::number().prop_map(|n| (n % 1_000_000_000) as u32)].boxed()
}

pub fn secs() -> BoxedStrategy<i64> {
    prop_oneof![
        2 => 1_500_000_000i64..2_000_000_000,
        2 => MIN_S..=MAX_S,
        2 => select(vec![0i64, 1, 59, 86_399, 86_400, 951_782_399, 951_782_400, 951_868_799, 951_868_800, 2_147_483_647, 2_147_483_648,
            4_102_444_799, 4_107_542_399, 4_107_542_400, 4_294_967_295, 4_294_967_296, 253_402_300_799, 253_402_300_798, 253_402_214_400, 253_370_764_800,
            1_704_067_199, 1_704_067_200, 1_709_164_799, 1_709_164_800, 1_709_251_199]),
        dict::wn(1) => dict::number().prop_map(|n| n.min(MAX_S as u64) as i64),
        // day boundaries and ends of months anywhere in range
        2 => (0i64..2_932_896, select(vec![-1i64, 0, 1])).prop_map(|(d, o)| (d * 86_400 + o).clamp(MIN_S, MAX_S)),
    ]
    .boxed()
}

pub fn ts() -> BoxedStrategy<Ts> {
    (secs(), nanos()).prop_map(|(s, n)| Ts { s, n }).boxed()
}

/// Nanoseconds between start and expiry of an accepted URL.
pub fn window() -> BoxedStrategy<i128> {
    prop_oneof![
        2 => Just(0i128),
        1 => Just(1i128),
        2 => Just(604_800 * G),
        1 => Just(604_800 * G - 1),
        2 => (0i128..=604_800).prop_map(|s| s * G),
        4 => 0i128..=604_800 * G,
        dict::wn(1) => (dict::number(), select(vec![1, 1_000_000, G])).prop_map(|(n, u)| (n as i128 * u).min(604_800 * G)),
        2 => select(vec![G - 1, G, G + 1, 604_799 * G + 999_999_999, 3600 * G, 86_400 * G, 59 * G]),
    ]
    .boxed()
}

pub fn region() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        3 => Just(None),
        3 => select(vec!["auto", "us-central1", "asia-northeast1", "US", "eu", ""]).prop_map(|s| Some(s.to_string())),
        3 => text().prop_map(Some),
        dict::w(1) => dict::word().prop_map(Some),
        // regions of Cloud Storage
        2 => (select(vec!["us", "europe", "asia", "australia", "me", "southamerica"]), select(vec!["-east", "-west", "-central", "-north", "-south", ""]), select(vec!["1", "2", "4", ""])).prop_map(|(a, b, c)| Some(format!("{a}{b}{c}"))),
    ]
    .boxed()
}

pub fn email() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["test@example.com", "sa-1@my-project.iam.gserviceaccount.com", "a", ""]).prop_map(String::from),
        2 => (chars(ALNUM, 1..=6), text()).prop_map(|(a, b)| format!("{a}@{b}")),
        1 => text(),
        dict::w(1) => dict::word(),
        1 => (chars("abcxyz0189-._+ABZ", 1..=20), select(vec!["p.iam.gserviceaccount.com", "developer.gserviceaccount.com", "appspot.gserviceaccount.com", "EXAMPLE.com"])).prop_map(|(a, b)| format!("{a}@{b}")),
    ]
    .boxed()
}

pub fn key() -> BoxedStrategy<usize> {
    prop_oneof![20 => Just(0usize), 20 => Just(1usize), 1 => Just(2usize), 1 => Just(3usize)].boxed()
}

pub fn dress() -> BoxedStrategy<u8> {
    prop_oneof![9 => Just(0u8), 1 => 1u8..crate::keys::DRESSES].boxed()
}

/// (start, now, start instant used)
pub fn start_now() -> BoxedStrategy<(Option<Ts>, Ts)> {
    (ts(), ts(), prop::bool::weighted(0.7))
        .prop_map(|(a, b, explicit)| (if explicit { Some(a) } else { None }, b))
        .boxed()
}

pub fn url_case() -> BoxedStrategy<UrlCase> {
    (
        (method(), bucket(), object(), region()),
        (start_now(), window()),
        (key(), email(), dress()),
        (headers(), query()),
    )
        .prop_map(|((method, bucket, object, region), ((start, now), w), (key, email, dress), (headers, query))| {
            let s = start.unwrap_or(now);
            let (mut bucket, mut object, mut query) = (bucket, object, query);
            // a URL may have 65534 characters at most
            let mut room = 13_000usize;
            let mut fit = |s: &mut String| {
                if s.len() > room {
                    let n = (0..=room).rev().find(|n| s.is_char_boundary(*n)).unwrap();
                    s.truncate(n);
                }
                room -= s.len().min(room);
            };
            query.iter_mut().for_each(|(k, v)| {
                fit(k);
                fit(v);
            });
            fit(&mut object);
            fit(&mut bucket);
            if bucket.is_empty() || is_dot(&bucket) {
                bucket.push('b');
            }
            if object.split('/').any(is_dot) {
                object.push('x');
            }
            UrlCase {
                method,
                bucket,
                object,
                region,
                start,
                expires: Ts::from_ns(s.ns() + w),
                now,
                key,
                email,
                dress,
                headers,
                query,
            }
        })
        .boxed()
}

pub fn meta_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["reviewer", "project-manager", "a", "A", "0", "-", " "]).prop_map(String::from),
        2 => (token(), text()).prop_map(|(a, b)| a + &b),
        1 => select(HEADERS.to_vec()).prop_map(String::from),
        dict::w(1) => dict::word(),
    ]
    .boxed()
}

pub fn json_text() -> BoxedStrategy<String> {
    memo!(String, prop_oneof![
        1200 => text(),
        dict::wn(3) => long(100_000),
        200 => select(vec!["public-read", "private", "max-age=3600", "no-cache", "attachment; filename=\"a\"", "gzip", "br", "text/plain; charset=utf-8", "image/png", "Mon, 02 Jan 2006 15:04:05 GMT",
            "https://example.com/ok?x=1#f", "http://x", "201", "2024-01-02T03:04:05Z", "2024-02-29T23:59:60+09:00", "0", "bucket", "key", "policy", "eq", "starts-with"]).prop_map(String::from),
        400 => vec(prop_oneof![select(vec!["\"", "\\", "\\\"", "\\u0041", "\u{1}", "\u{8}", "\u{b}", "\u{c}", "\u{1f}", "/", "</script>", "$", "${filename}", "$key", "\u{2029}", "\u{e000}", "😀"]).prop_map(String::from), token()], 0..5).prop_map(|v| v.concat()),
    ])
}

pub fn u64s() -> BoxedStrategy<u64> {
    memo!(u64, prop_oneof![
        2 => select(vec![0u64, 1, 9, 10, 1024, 5_497_558_138_880, 9_007_199_254_740_991, 9_007_199_254_740_993, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, u64::MAX - 1, u32::MAX as u64, u32::MAX as u64 + 1]),
        2 => any::<u64>(),
        2 => 0u64..100_000,
        1 => (0u32..64).prop_map(|b| 1u64 << b),
        1 => (0u32..20).prop_map(|b| 10u64.pow(b)),
        dict::wn(1) => dict::number(),
    ])
}

pub fn set() -> BoxedStrategy<Set> {
    let t = json_text;
    prop_oneof![
        1 => t().prop_map(Set::Acl),
        1 => t().prop_map(Set::Bucket),
        1 => t().prop_map(Set::CacheControl),
        1 => t().prop_map(Set::ContentDisposition),
        1 => t().prop_map(Set::ContentEncoding),
        1 => u64s().prop_map(Set::ContentLength),
        1 => t().prop_map(Set::ContentType),
        1 => t().prop_map(Set::Expires),
        1 => t().prop_map(Set::Key),
        1 => t().prop_map(Set::Redirect),
        1 => prop_oneof![select(vec![200u16, 201, 204, 0, 65535]), any::<u16>(), dict::number().prop_map(|n| n as u16)].prop_map(Set::Status),
        1 => t().prop_map(Set::CustomTime),
        3 => (meta_name(), t()).prop_map(|(k, v)| Set::Meta(k, v)),
    ]
    .boxed()
}

pub fn sets() -> BoxedStrategy<Vec<Set>> {
    prop_oneof![10 => vec(set(), 0..4), 30 => vec(set(), 0..12), 10 => vec(set(), 12..30), 1 => several(set(), 30)].boxed()
}

/// Nanoseconds between start and expiration of a signed form.
fn form_window() -> BoxedStrategy<i128> {
    prop_oneof![
        2 => 1i128..=3 * G,
        2 => Just(1i128),
        3 => (1i128..=10_000_000).prop_map(|s| s * G),
        2 => 1i128..=30_000_000 * G,
        1 => 1i128..=(MAX_S as i128) * G,
    ]
    .boxed()
}

pub fn opts(now: Ts) -> impl Fn(((Option<Ts>, i128), Option<String>, usize, String), u8) -> Opts {
    move |((start, w), region, key, email), dress| {
        let max = MAX_S as i128 * G + 999_999_999;
        let s0 = start.unwrap_or(now).ns();
        let e = (s0 + w).min(max);
        Opts { start, expiration: Ts::from_ns(e), region, key, email, dress }
    }
}

/// A form that has to be accepted; `signed` forces signing options.
pub fn form_case(signed: bool) -> BoxedStrategy<FormCase> {
    (
        sets(),
        json_text(),
        json_text(),
        (start_now(), form_window(), region(), key(), email(), dress()),
        if signed { Just(true).boxed() } else { any::<bool>().boxed() },
        any::<prop::sample::Index>(),
        any::<prop::sample::Index>(),
        any::<prop::sample::Index>(),
    )
        .prop_map(|(mut sets, k, b, ((start, now), w, region, key, email, dress), sign, i, j, at)| {
            // the very last instant has no later expiration
            let max = MAX_S as i128 * G + 999_999_999;
            let fix = |t: Ts| if t.ns() >= max { Ts::from_ns(max - 1) } else { t };
            let (start, now) = (start.map(fix), fix(now));
            if !sets.iter().any(|s| matches!(s, Set::Key(_))) {
                sets.insert(i.index(sets.len() + 1), Set::Key(k));
            }
            if sign && !sets.iter().any(|s| matches!(s, Set::Bucket(_))) {
                sets.insert(j.index(sets.len() + 1), Set::Bucket(b));
            }
            let opts = sign.then(|| opts(now)(((start, w), region, key, email), dress));
            let at = at.index(sets.len() + 1);
            FormCase { sets, opts, at, now }
        })
        .boxed()
}
