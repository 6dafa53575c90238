//! C24: a call costs what its arguments are worth.
use crate::alloc;
use crate::clock;
use crate::dict;
use crate::gen;
use crate::keys;
use crate::runner::{Obs, Prop};
use crate::types::*;
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// What is large.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Shape {
    Method,
    Bucket,
    Object,
    Segments,
    Region,
    Email,
    HeaderName,
    HeaderValue,
    Headers,
    QueryName,
    QueryValue,
    Query,
    FormField,
    MetaName,
    Metas,
    Sets,
    PemAround,
    PemBody,
    PemBlocks,
    JsonMembers,
    JsonText,
    JsonAround,
    JsonNested,
    JsonKey,
    PolicyConditions,
    PolicyValue,
    PolicyNested,
}
use Shape::*;

const SHAPES: [Shape; 27] = [
    Method, Bucket, Object, Segments, Region, Email, HeaderName, HeaderValue, Headers, QueryName, QueryValue, Query, FormField, MetaName, Metas, Sets, PemAround,
    PemBody, PemBlocks, JsonMembers, JsonText, JsonAround, JsonNested, JsonKey, PolicyConditions, PolicyValue, PolicyNested,
];

/// How the names in a list differ.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Names {
    Same,
    Rising,
    Falling,
    Mixed,
    /// some names, each often
    Few,
    /// in another letter case
    Cases,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase {
    pub shape: Shape,
    /// repeated up to `bytes`, or the value of each of the things in a list
    pub unit: String,
    pub end: String,
    pub bytes: u32,
    pub names: Names,
    pub signed: bool,
    /// one of the things in a list is as large as all others together: the first or the last
    #[serde(default)]
    pub long: Option<bool>,
}

enum Call {
    Url(css::BuildSignedUrlOptions),
    Form(Box<dyn FnOnce() -> css::HtmlFormDataBuilder>),
    Json(String),
    Policy(String),
}

const T: i64 = 1_700_000_000;

impl CostCase {
    fn text(&self) -> String {
        let mut s = String::with_capacity(self.bytes as usize + self.unit.len() + self.end.len());
        while !self.unit.is_empty() && s.len() < self.bytes as usize {
            s += &self.unit;
        }
        s + &self.end
    }
    /// Names of the `n` things in a list.
    fn list(&self, n: usize) -> impl Iterator<Item = String> + '_ {
        let mut x = 88_172_645_463_325_252u64;
        (0..n).map(move |i| match self.names {
            Names::Same => "n".to_string(),
            Names::Rising => format!("n{i:06}"),
            Names::Falling => format!("n{:06}", n - i),
            Names::Mixed => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                format!("n{:06}", x % 1_000_000)
            }
            Names::Few => format!("n{}", i % 7),
            Names::Cases => dict::flip("some-name", i as u64),
        })
    }
    fn count(&self, each: usize) -> usize {
        self.bytes as usize / (each + self.unit.len()).max(1) / if self.long.is_some() { 2 } else { 1 }
    }
    /// The values in a list of `n` things.
    fn values(&self, n: usize) -> Vec<String> {
        let mut v = vec![self.unit.clone(); n];
        if let (Some(first), true) = (self.long, n > 0) {
            let of = if self.unit.is_empty() { "v" } else { &self.unit };
            v[if first { 0 } else { n - 1 }] = of.repeat(self.bytes as usize / 2 / of.len());
        }
        v
    }
    /// Names and values.
    fn pairs(&self, each: usize) -> impl Iterator<Item = (String, String)> + '_ {
        let n = self.count(each);
        self.list(n).zip(self.values(n))
    }
    fn pem(&self) -> String {
        let p = keys::PEMS[0];
        match self.shape {
            PemAround if self.names == Names::Falling => format!("{p}{}", self.text()),
            PemAround => format!("{}\n{p}", self.text()),
            PemBody => p.replacen('\n', &format!("\n{}\n", self.text()), 1),
            PemBlocks => {
                let n = self.count(60);
                let tag = match self.names {
                    Names::Same => "X",
                    Names::Rising => "CERTIFICATE",
                    Names::Falling => "EC PARAMETERS",
                    Names::Mixed => "PUBLIC KEY",
                    Names::Few => "ENCRYPTED PRIVATE KEY",
                    Names::Cases => "PRIVATE KEY",
                };
                let body = if self.unit.len() % 4 == 0 { &self.unit } else { "AAAA" };
                let block = format!("-----BEGIN {tag}-----\n{body}\n-----END {tag}-----\n");
                block.repeat(n) + p
            }
            _ => p.to_string(),
        }
    }
    fn url(&self) -> css::BuildSignedUrlOptions {
        let key = |email: String| css::SigningKey::service_account(email, self.pem());
        let mut o = css::BuildSignedUrlOptions {
            bucket_name: "bucket".into(),
            object_name: "object".into(),
            region: None,
            expires: Ts { s: T + 60, n: 0 }.system_time(),
            http_method: "GET".into(),
            accessible_at: Some(Ts { s: T, n: 0 }.system_time()),
            signing_key: key("sa@example.com".into()),
            use_sign_blob: false,
            headers: vec![],
            query_parameters: vec![],
        };
        match self.shape {
            Method => o.http_method = self.text(),
            Bucket => o.bucket_name = self.text(),
            Object => o.object_name = self.text(),
            Segments => o.object_name = vec![self.unit.as_str(); self.count(1)].join("/"),
            Region => o.region = Some(self.text()),
            Email => o.signing_key = key(self.text()),
            HeaderName => o.headers.push((self.text(), "v".into())),
            HeaderValue => o.headers.push(("a".into(), self.text())),
            Headers => o.headers = self.pairs(8).collect(),
            QueryName => o.query_parameters.push((self.text(), "v".into())),
            QueryValue => o.query_parameters.push(("a".into(), self.text())),
            Query => o.query_parameters = self.pairs(8).collect(),
            _ => {}
        }
        o
    }
    /// The setters are called by what is returned.
    fn form(&self) -> Box<dyn FnOnce() -> css::HtmlFormDataBuilder> {
        let unit = self.unit.clone();
        let text = match self.shape {
            Metas | Sets | PemBlocks => String::new(),
            _ => self.text(),
        };
        let pairs: Vec<(String, String)> = match self.shape {
            Metas => self.pairs(8).collect(),
            Sets => self.values(self.count(8)).into_iter().map(|v| (unit.clone(), v)).collect(),
            _ => vec![],
        };
        let shape = self.shape;
        let signing = self.signed.then(|| {
            let email = if shape == Email { text.clone() } else { "sa@example.com".into() };
            css::PolicyDocumentSigningOptions {
                accessible_at: Some(Ts { s: T, n: 0 }.system_time()),
                expiration: Ts { s: T + 60, n: 0 }.system_time(),
                region: (shape == Region).then(|| text.clone()),
                signing_key: css::SigningKey::service_account(email, self.pem()),
                use_sign_blob: false,
            }
        });
        Box::new(move || {
            let mut b = css::HtmlFormData::builder().bucket("b").key("k");
            match shape {
                FormField => b = b.content_type(text),
                MetaName => b = b.x_goog_meta(text, "v"),
                Metas => {
                    for (n, v) in pairs {
                        b = b.x_goog_meta(n, v);
                    }
                }
                Sets => {
                    for (n, v) in pairs {
                        b = b.acl(n).content_length(1).key(v);
                    }
                }
                Bucket => b = b.bucket(text),
                Object => b = b.key(text),
                _ => {}
            }
            if let Some(o) = signing {
                b = b.policy_document_signing_options(o);
            }
            b
        })
    }
    fn json(&self) -> String {
        use serde_json::json;
        let esc = |t: &str| json!(t).to_string();
        let (mut email, mut key, mut rest) = ("sa@example.com".to_string(), keys::PEMS[0].to_string(), String::new());
        match self.shape {
            JsonMembers => {
                rest = self.pairs(12).map(|(n, v)| format!(",{}:{}", esc(&n), esc(&v))).collect();
            }
            JsonText => email = self.text(),
            JsonKey => key = key.replacen('\n', &format!("\n{}\n", self.text()), 1),
            JsonAround if self.names == Names::Few => rest = format!(", {}", self.text()),
            JsonNested => rest = format!(",\"a\":{}", nested(self.bytes as usize / 2, &self.end)),
            _ => {}
        }
        let key = esc(&key);
        let text = if self.signed {
            format!("{{\"client_email\":{},\"private_key\":{key}{rest}}}", esc(&email))
        } else {
            format!("{{\"private_key\":{key},\"client_email\":{}{rest}}}", esc(&email))
        };
        match (self.shape, self.names) {
            (JsonAround, Names::Same | Names::Rising | Names::Mixed) => self.text() + &text,
            (JsonAround, Names::Falling | Names::Cases) => text + &self.text(),
            _ => text,
        }
    }
    fn policy(&self) -> String {
        let esc = |t: &str| serde_json::json!(t).to_string();
        let conditions = match self.shape {
            PolicyConditions => {
                self.pairs(30).enumerate().map(|(i, (n, v))| match i % 3 {
                    0 => format!("[\"eq\",{},{}]", esc(&format!("$x-goog-meta-{n}")), esc(&v)),
                    1 => format!("{{{}:{}}}", esc(&format!("x-goog-meta-{n}")), esc(&v)),
                    _ => "[\"content-length-range\",1,2]".to_string(),
                }).collect::<Vec<_>>().join(",")
            }
            PolicyValue => format!("{{\"acl\":{}}}", esc(&self.text())),
            _ => nested(self.bytes as usize / 2, &self.end),
        };
        format!("{{\"expiration\":\"2024-01-01T00:00:00Z\",\"conditions\":[{conditions}]}}")
    }
    fn call(&self) -> Call {
        match self.shape {
            JsonMembers | JsonText | JsonAround | JsonNested | JsonKey => Call::Json(self.json()),
            PolicyConditions | PolicyValue | PolicyNested => Call::Policy(self.policy()),
            FormField | MetaName | Metas | Sets => Call::Form(self.form()),
            Bucket | Object | Region | Email | PemAround | PemBody | PemBlocks if self.signed => Call::Form(self.form()),
            _ => Call::Url(self.url()),
        }
    }
}

fn nested(n: usize, inner: &str) -> String {
    "[".repeat(n) + &serde_json::json!(inner).to_string() + &"]".repeat(n)
}

impl Call {
    /// Bytes, and 16 for every element of a list.
    fn size(&self, c: &CostCase) -> i64 {
        let list = |n: usize| 16 * n as i64;
        match self {
            Call::Url(o) => {
                let mut n = (o.bucket_name.len() + o.object_name.len() + o.http_method.len() + o.region.as_ref().map_or(0, |r| r.len())) as i64;
                if c.shape == Segments {
                    n += list(c.count(1));
                }
                n += (c.pem().len() + if c.shape == Email { c.text().len() } else { 0 }) as i64;
                for (k, v) in o.headers.iter().chain(&o.query_parameters) {
                    n += (k.len() + v.len()) as i64 + list(1);
                }
                n
            }
            Call::Form(_) => {
                let values = || c.values(c.count(8)).iter().map(|v| v.len() as i64).sum::<i64>();
                let n = match c.shape {
                    Metas => values() + (8 + list(1)) * c.count(8) as i64,
                    Sets => values() + (c.unit.len() as i64 + list(3)) * c.count(8) as i64,
                    _ => c.text().len() as i64,
                };
                n + c.pem().len() as i64
            }
            Call::Json(t) | Call::Policy(t) => t.len() as i64,
        }
    }
    fn run(self) -> bool {
        let show = |e: &dyn std::error::Error| {
            let _ = format!("{e} {e:?}");
            let mut next = e.source();
            let mut n = 0;
            while let Some(e) = next {
                let _ = format!("{e}");
                next = e.source();
                n += 1;
                if n > 100 {
                    break;
                }
            }
            false
        };
        match self {
            Call::Url(o) => block_on(css::build_signed_url(o)).map_or_else(|e| show(&e), |_| true),
            Call::Form(b) => block_on(b().build()).map_or_else(|e| show(&e), |f| !f.into_vec().is_empty()),
            Call::Json(t) => css::SigningKey::service_account_from_str(t).map_or_else(|e| show(&e), |_| true),
            Call::Policy(t) => css::vp_hooks::policy_document_reserialize(&t).is_ok(),
        }
    }
}

/// Nanoseconds and bytes allowed per call and per byte of its arguments.
const CPU0: i64 = 50_000_000;
const CPU1: i64 = 600;
const MEMORY0: i64 = 1 << 20;
const MEMORY1: i64 = 64;

pub struct C24;
impl Prop for C24 {
    type Case = CostCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "A call of which one argument, or one list, is large: up to 1 MB of a repeated text, up to tens of thousands of headers, parameters, metadata fields, setter calls, PEM blocks, JSON members or conditions, with the names the same, rising, falling, mixed, few, or differing in letter case, and values of one size or one of them as large as all others together. The call's CPU time and peak memory (counted by the allocator) are compared with a linear bound; a time above it counts if the least of five runs is. Non-trivial: more than 10 kB.";
    const ASSUMPTIONS: &'static [&'static str] = &["CPU time of the calling thread"];
    const QUICK: u32 = 16_000;
    const ABORTS: bool = true;
    const SHRINK_ITERS: u32 = 40;
    fn strategy() -> BoxedStrategy<CostCase> {
        let unit = || prop_oneof![
            4 => gen::token(),
            2 => vec(gen::token(), 0..4).prop_map(|v| v.concat()),
            3 => select(vec![" ", "  a", "\t", ",", ", ", "/", "%", "é", "\u{1}", "\n", "\"", "\\", "-", "A", "a", "=", "&", "+", "-----", "-----BEGIN X-----\n", "aaaa", "$", "${a}", ".", "0", "~", "日本"]).prop_map(String::from),
        ];
        let bytes = prop_oneof![
            1 => 1u32..10_000,
            4 => (0f64..1.0).prop_map(|x| (10_000f64 * 100f64.powf(x)) as u32),
            1 => dict::length(1_000_000).prop_map(|n| n as u32),
            2 => select(vec![60_000u32, 20_000, 40_000, 65_000, 300_000, 1_000_000]),
        ];
        (select(SHAPES.to_vec()), unit(), prop_oneof![2 => Just(String::new()), 1 => unit()], bytes, select(vec![Names::Same, Names::Rising, Names::Falling, Names::Mixed, Names::Few, Names::Cases]), any::<bool>(), prop::option::weighted(0.3, any::<bool>()))
            .prop_map(|(shape, unit, end, bytes, names, signed, long)| CostCase { shape, unit, end, bytes, names, signed, long })
            .boxed()
    }
    fn check(c: &CostCase, obs: &mut Obs) -> Result<(), String> {
        clock::set(T, 0);
        let size = c.call().size(c);
        obs.class(format!("{:?}", c.shape));
        obs.nontrivial_if(size > 10_000);
        obs.class_if(size > 1_000_000, "more than a megabyte");
        // what takes far too long shows when it is smaller
        let _limit = Limit::new();
        for part in if c.bytes > 50_000 { &[64u32, 16, 4, 1][..] } else { &[1] } {
            let c = CostCase { bytes: c.bytes / part, ..c.clone() };
            let ok = measured(&c)?;
            if *part == 1 {
                obs.class(if ok { "accepted" } else { "refused" });
            }
        }
        Ok(())
    }
}

/// The process is aborted when a case takes a minute of CPU time.
struct Limit;
impl Limit {
    fn new() -> Limit {
        extern "C" fn abort(_: i32) {
            // SAFETY: allowed in a signal handler
            unsafe { libc::abort() }
        }
        static ONCE: std::sync::Once = std::sync::Once::new();
        // SAFETY: the handler does nothing else
        ONCE.call_once(|| unsafe {
            libc::signal(libc::SIGPROF, abort as *const () as libc::sighandler_t);
        });
        Limit::set(60);
        Limit
    }
    fn set(s: i64) {
        let zero = libc::timeval { tv_sec: 0, tv_usec: 0 };
        let t = libc::itimerval { it_interval: zero, it_value: libc::timeval { tv_sec: s, tv_usec: 0 } };
        // SAFETY: both pointers are valid or null
        unsafe { libc::syscall(libc::SYS_setitimer, libc::ITIMER_PROF, &t, std::ptr::null::<libc::itimerval>()) };
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        Limit::set(0);
    }
}

fn measured(c: &CostCase) -> Result<bool, String> {
    let size = c.call().size(c);
    let bound = CPU0 + CPU1 * size;
    let mut least = i64::MAX;
    for run in 0..5 {
        let call = c.call();
        let (ok, memory, time) = alloc::measure(|| call.run());
        if memory > MEMORY0 + MEMORY1 * size {
            return Err(format!("{memory} bytes of memory for arguments of {size} bytes"));
        }
        least = least.min(time);
        if least <= bound {
            return Ok(ok);
        }
        if run > 0 && least > 4 * bound {
            break;
        }
    }
    Err(format!("{least} ns of CPU time for arguments of {size} bytes"))
}
