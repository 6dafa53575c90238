//! Serialisable cases and how they are turned into calls of the crate.
use crate::{clock, keys, oracle};
use cloud_storage_signature as css;
use serde::{Deserialize, Serialize};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const G: i128 = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Ts {
    pub s: i64,
    pub n: u32,
}

impl Ts {
    pub fn from_ns(t: i128) -> Ts {
        Ts {
            s: t.div_euclid(G) as i64,
            n: t.rem_euclid(G) as u32,
        }
    }
    pub fn ns(self) -> i128 {
        self.s as i128 * G + self.n as i128
    }
    pub fn system_time(self) -> SystemTime {
        let t = if self.s >= 0 {
            UNIX_EPOCH.checked_add(Duration::from_secs(self.s as u64))
        } else {
            UNIX_EPOCH.checked_sub(Duration::from_secs(self.s.unsigned_abs()))
        };
        t.and_then(|t| t.checked_add(Duration::from_nanos(self.n as u64)))
            .expect("representable time")
    }
}

pub type Pairs = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct UrlCase {
    pub method: String,
    pub bucket: String,
    pub object: String,
    pub region: Option<String>,
    pub start: Option<Ts>,
    pub expires: Ts,
    /// virtual clock reading, relevant when `start` is None
    pub now: Ts,
    pub key: usize,
    pub email: String,
    /// how the key's text is written
    #[serde(default)]
    pub dress: u8,
    pub headers: Pairs,
    pub query: Pairs,
}

impl UrlCase {
    pub fn region_str(&self) -> &str {
        self.region.as_deref().unwrap_or("auto")
    }
    pub fn start_eff(&self) -> Ts {
        self.start.unwrap_or(self.now)
    }
    pub fn sa_key(&self) -> css::SigningKey {
        css::SigningKey::service_account(self.email.clone(), keys::dressed(self.key, self.dress))
    }
    pub fn options(&self, signing_key: css::SigningKey, use_sign_blob: bool) -> css::BuildSignedUrlOptions {
        css::BuildSignedUrlOptions {
            bucket_name: self.bucket.clone(),
            object_name: self.object.clone(),
            region: self.region.clone(),
            expires: self.expires.system_time(),
            http_method: self.method.clone(),
            accessible_at: self.start.map(|t| t.system_time()),
            signing_key,
            use_sign_blob,
            headers: self.headers.clone(),
            query_parameters: self.query.clone(),
        }
    }
    /// Calls the crate with the service-account key under the case's clock.
    pub fn run(&self) -> Result<String, String> {
        clock::set(self.now.s, self.now.n);
        let r = block_on(css::build_signed_url(self.options(self.sa_key(), false)));
        clock::off();
        r.map_err(|e| e.to_string())
    }
    /// As `run`, for cases the crate has to accept.
    pub fn url(&self) -> Result<String, String> {
        self.run().map_err(|e| format!("valid request rejected: {e}"))
    }
    pub fn verify(&self, url: &str) -> Result<(), String> {
        oracle::wire_verify(url, &self.method, &self.headers, self.region_str(), keys::public(self.key))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Set {
    Acl(String),
    Bucket(String),
    CacheControl(String),
    ContentDisposition(String),
    ContentEncoding(String),
    ContentLength(u64),
    ContentType(String),
    Expires(String),
    Key(String),
    Redirect(String),
    Status(u16),
    CustomTime(String),
    Meta(String, String),
}

impl Set {
    pub fn field(&self) -> &'static str {
        match self {
            Set::Acl(_) => "acl",
            Set::Bucket(_) => "bucket",
            Set::CacheControl(_) => "Cache-Control",
            Set::ContentDisposition(_) => "Content-Disposition",
            Set::ContentEncoding(_) => "Content-Encoding",
            Set::ContentLength(_) => "Content-Length",
            Set::ContentType(_) => "Content-Type",
            Set::Expires(_) => "Expires",
            Set::Key(_) => "key",
            Set::Redirect(_) => "success_action_redirect",
            Set::Status(_) => "success_action_status",
            Set::CustomTime(_) => "x-goog-custom-time",
            Set::Meta(..) => "x-goog-meta-",
        }
    }
    pub fn value(&self) -> String {
        match self {
            Set::ContentLength(n) => n.to_string(),
            Set::Status(n) => n.to_string(),
            Set::Acl(s) | Set::Bucket(s) | Set::CacheControl(s) | Set::ContentDisposition(s)
            | Set::ContentEncoding(s) | Set::ContentType(s) | Set::Expires(s) | Set::Key(s)
            | Set::Redirect(s) | Set::CustomTime(s) | Set::Meta(_, s) => s.clone(),
        }
    }
    pub fn apply(&self, b: css::HtmlFormDataBuilder) -> css::HtmlFormDataBuilder {
        match self {
            Set::Acl(s) => b.acl(s.clone()),
            Set::Bucket(s) => b.bucket(s.clone()),
            Set::CacheControl(s) => b.cache_control(s.clone()),
            Set::ContentDisposition(s) => b.content_disposition(s.clone()),
            Set::ContentEncoding(s) => b.content_encoding(s.clone()),
            Set::ContentLength(n) => b.content_length(*n),
            Set::ContentType(s) => b.content_type(s.clone()),
            Set::Expires(s) => b.expires(s.clone()),
            Set::Key(s) => b.key(s.clone()),
            Set::Redirect(s) => b.success_action_redirect(s.clone()),
            Set::Status(n) => b.success_action_status(*n),
            Set::CustomTime(s) => b.x_goog_custom_time(s.clone()),
            Set::Meta(k, v) => b.x_goog_meta(k.clone(), v.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Opts {
    pub start: Option<Ts>,
    pub expiration: Ts,
    pub region: Option<String>,
    pub key: usize,
    pub email: String,
    /// how the key's text is written
    #[serde(default)]
    pub dress: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FormCase {
    pub sets: Vec<Set>,
    /// signing options and the position among `sets` at which they are given
    pub opts: Option<Opts>,
    pub at: usize,
    pub now: Ts,
}

/// Documented field order, with the fields that signing adds.
pub const ORDER: [&str; 17] = [
    "acl", "bucket", "Cache-Control", "Content-Disposition", "Content-Encoding", "Content-Length",
    "Content-Type", "Expires", "key", "policy", "success_action_redirect", "success_action_status",
    "x-goog-algorithm", "x-goog-credential", "x-goog-custom-time", "x-goog-date", "x-goog-signature",
];
pub const SIGNING_FIELDS: [&str; 5] =
    ["policy", "x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-signature"];

impl FormCase {
    pub fn last(&self, field: &str) -> Option<String> {
        self.sets.iter().rev().find(|s| s.field() == field).map(|s| s.value())
    }
    pub fn metas(&self) -> Pairs {
        self.sets
            .iter()
            .filter_map(|s| match s {
                Set::Meta(k, v) => Some((k.clone(), v.clone())),
                _ => None,
            })
            .collect()
    }
    pub fn builder(&self, key: Option<css::SigningKey>, use_sign_blob: bool) -> css::HtmlFormDataBuilder {
        let mut b = css::HtmlFormData::builder();
        let mut key = key;
        let n = self.sets.len();
        for i in 0..=n {
            if i == self.at.min(n) {
                if let (Some(o), Some(k)) = (&self.opts, key.take()) {
                    b = b.policy_document_signing_options(css::PolicyDocumentSigningOptions {
                        accessible_at: o.start.map(|t| t.system_time()),
                        expiration: o.expiration.system_time(),
                        region: o.region.clone(),
                        signing_key: k,
                        use_sign_blob,
                    });
                }
            }
            if i < n {
                b = self.sets[i].apply(b);
            }
        }
        b
    }
    pub fn sa_key(&self) -> Option<css::SigningKey> {
        self.opts
            .as_ref()
            .map(|o| css::SigningKey::service_account(o.email.clone(), keys::dressed(o.key, o.dress)))
    }
    pub fn run(&self) -> Result<Pairs, String> {
        clock::set(self.now.s, self.now.n);
        let r = block_on(self.builder(self.sa_key(), false).build());
        clock::off();
        r.map(|f| f.into_vec()).map_err(|e| e.to_string())
    }
    pub fn form(&self) -> Result<Pairs, String> {
        self.run().map_err(|e| format!("valid form rejected: {e}"))
    }
    pub fn start_eff(&self) -> Ts {
        self.opts.as_ref().and_then(|o| o.start).unwrap_or(self.now)
    }
}

pub fn get(form: &Pairs, name: &str) -> Result<String, String> {
    let mut it = form.iter().filter(|(k, _)| k == name);
    let v = it.next().ok_or_else(|| format!("field {name} is missing"))?;
    if it.next().is_some() {
        return Err(format!("field {name} appears twice"));
    }
    Ok(v.1.clone())
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|rt| rt.block_on(f))
}
