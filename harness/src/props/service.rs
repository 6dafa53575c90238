//! C16-C19: bound tokens, against scripted metadata and signBlob services.
use crate::clock;
use crate::dict;
use crate::gen;
use crate::keys;
use crate::oracle;
use crate::runner::{Obs, Prop};
use crate::server::{self, Entry, Ep, Fault, Server, Sig};
use crate::types::*;
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;

/// A small signing request; the tag makes it different from the others.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Ask {
    pub form: bool,
    pub tag: u16,
    pub start: bool,
}

pub enum Out {
    Url(String),
    Form(Pairs),
}

/// What was signed, by whom, and the signature, as the caller sees it.
pub struct Signed {
    pub message: Vec<u8>,
    pub signature: Vec<u8>,
    pub email: String,
}

fn credential_email(credential: &str, region: &str) -> Result<String, String> {
    let i = credential
        .len()
        .checked_sub(format!("/20200101/{region}/storage/goog4_request").len())
        .filter(|i| credential.is_char_boundary(*i))
        .ok_or_else(|| format!("credential {credential:?} is too short"))?;
    let (email, scope) = credential.split_at(i);
    if !scope.ends_with(&format!("/{region}/storage/goog4_request")) {
        return Err(format!("credential {credential:?} has another scope"));
    }
    Ok(email.to_string())
}

fn signed_url(url: &str, method: &str, headers: &[(String, String)], region: &str) -> Result<Signed, String> {
    let sp = oracle::split_url(url)?;
    Ok(Signed {
        message: oracle::wire_string_to_sign(url, method, headers, region)?.into_bytes(),
        signature: oracle::hex_decode_lower(&sp.one("X-Goog-Signature")?)?,
        email: credential_email(&sp.one("X-Goog-Credential")?, region)?,
    })
}

fn signed_form(form: &Pairs, region: &str) -> Result<Signed, String> {
    Ok(Signed {
        message: get(form, "policy")?.into_bytes(),
        signature: oracle::hex_decode_lower(&get(form, "x-goog-signature")?)?,
        email: credential_email(&get(form, "x-goog-credential")?, region)?,
    })
}

impl Ask {
    /// The object name: some are long.
    fn name(&self) -> String {
        format!("o{}/x y{}", self.tag, "z".repeat(if self.tag % 7 == 6 { 4000 } else { 0 }))
    }

    pub async fn run(&self, key: css::SigningKey, sign_blob: bool) -> Result<Out, String> {
        let now = Ts::from_ns(clock::peek());
        let later = Ts { s: now.s + 1000, n: now.n }.system_time();
        let start = self.start.then(|| now.system_time());
        let name = self.name();
        if self.form {
            css::HtmlFormData::builder()
                .bucket(format!("b{}", self.tag))
                .key(name)
                .policy_document_signing_options(css::PolicyDocumentSigningOptions {
                    accessible_at: start,
                    expiration: later,
                    region: None,
                    signing_key: key,
                    use_sign_blob: sign_blob,
                })
                .build()
                .await
                .map(|f| Out::Form(f.into_vec()))
                .map_err(|e| e.to_string())
        } else {
            css::build_signed_url(css::BuildSignedUrlOptions {
                bucket_name: format!("b{}", self.tag),
                object_name: name,
                region: None,
                expires: later,
                http_method: "GET".into(),
                accessible_at: start,
                signing_key: key,
                use_sign_blob: sign_blob,
                headers: vec![],
                query_parameters: vec![],
            })
            .await
            .map(Out::Url)
            .map_err(|e| e.to_string())
        }
    }

    /// The result has to be about this request.
    pub fn signed(&self, out: &Out) -> Result<Signed, String> {
        match out {
            Out::Url(u) => {
                let path = oracle::pct_decode_str(oracle::split_url(u)?.path)?;
                let want = format!("/b{}/{}", self.tag, self.name());
                if path != want {
                    return Err(format!("the call for {want:?} returned {u:?}"));
                }
                signed_url(u, "GET", &[], "auto")
            }
            Out::Form(f) => {
                let (b, k) = (get(f, "bucket")?, get(f, "key")?);
                if b != format!("b{}", self.tag) || k != self.name() {
                    return Err(format!("the call for tag {} returned bucket {b:?}, key {k:?}", self.tag));
                }
                signed_form(f, "auto")
            }
        }
    }
}

fn ask() -> BoxedStrategy<Ask> {
    (any::<bool>(), 0u16..50, any::<bool>()).prop_map(|(form, tag, start)| Ask { form, tag, start }).boxed()
}

pub fn sha256(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}

fn brief(log: &[Entry]) -> String {
    let v: Vec<String> = log
        .iter()
        .map(|e| {
            let what = match (&e.issued, e.ep) {
                (Some((t, l)), _) => format!(" {t} for {l} s"),
                (_, Ep::Blob) => format!(" with {:?}", e.bearer()),
                _ => String::new(),
            };
            format!("{:?}{} [{:?}]", e.ep, what, e.fault)
        })
        .collect();
    format!("requests of this call: {}", v.join(", "))
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Sign {
        ask: Ask,
        clone: bool,
        lifetimes: Vec<u64>,
        email: Vec<Fault>,
        token: Vec<Fault>,
        blob: Vec<Fault>,
        /// nanoseconds the clock moves during each request
        drift: Vec<i64>,
    },
    /// nanoseconds
    Advance(i64),
    /// to this many nanoseconds after the moment at which 30 s remain
    Edge(i64),
    Identity(u8),
    /// a call that is dropped while it waits for this endpoint
    Abandon { ask: Ask, ep: Ep, lifetime: u64 },
    /// so many calls with services in order
    Many { ask: Ask, n: u16, lifetime: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub now: Ts,
    pub steps: Vec<Step>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Focus {
    /// C16
    Reuse,
    /// C17
    Faults,
}

struct Adopted {
    token: String,
    /// it is certainly fresh before this moment
    fresh_before: i128,
    /// and certainly stale from this moment on
    stale_from: i128,
    email: String,
}

struct Model {
    focus: Focus,
    last: Option<Adopted>,
    ever: BTreeSet<String>,
    /// the last metadata fetch failed
    fetch_failed: bool,
    /// the last signBlob request failed
    blob_failed: bool,
}

impl Model {
    fn stale_at(&self, t: i128) -> bool {
        self.last.as_ref().is_none_or(|a| t >= a.stale_from)
    }

    /// Follows the requests of one call.
    fn follow(&mut self, log: &[Entry], began: i128, email: &str, obs: &mut Obs) -> Result<(), String> {
        let stale = self.stale_at(began);
        let fetch_failed_before = self.fetch_failed;
        let (mut seen_email, mut pending, mut adopted) = (false, None::<(&Entry, String, u64)>, false);
        let c16 = self.focus == Focus::Reuse;
        for e in log {
            let good = e.fault.healthy();
            if matches!(e.ep, Ep::Email | Ep::Token) {
                if let Some(a) = &self.last {
                    if e.vstart < a.fresh_before && (c16 || self.blob_failed) {
                        return Err(format!(
                            "{:?} request although the token {} still had {} ns more than 30 s to live{}; {}",
                            e.ep,
                            a.token,
                            a.fresh_before - e.vstart,
                            if self.blob_failed { " (the last signBlob request had failed)" } else { "" },
                            brief(log)
                        ));
                    }
                }
                if !good {
                    self.fetch_failed = true;
                    pending = None;
                    seen_email &= e.ep != Ep::Email;
                }
            }
            match e.ep {
                Ep::Email if good => seen_email = true,
                Ep::Token if good => {
                    let (t, life) = e.issued.clone().unwrap();
                    pending = Some((e, t, life));
                }
                _ => {}
            }
            if (seen_email || e.ep == Ep::Blob) && pending.is_some() {
                let (t, token, life) = pending.take().unwrap();
                let edge = (life as i128 - 30) * G;
                self.ever.insert(token.clone());
                self.last = Some(Adopted {
                    token,
                    fresh_before: t.vstart + edge,
                    stale_from: t.vend.unwrap_or(t.vstart) + edge,
                    email: email.to_string(),
                });
                adopted = true;
                // a second fetch in this call may again ask for the token first
                seen_email = false;
                self.fetch_failed = false;
                self.blob_failed = false;
            }
            if e.ep == Ep::Blob {
                let b = e.bearer()?;
                let want = self.last.as_ref().map(|a| a.token.as_str());
                if c16 && want != Some(b.as_str()) {
                    return Err(format!("signBlob was called with {b:?}, the last token obtained is {want:?}; {}", brief(log)));
                }
                if !c16 && !self.ever.contains(&b) {
                    return Err(format!("signBlob was called with {b:?}, which no successful fetch returned; {}", brief(log)));
                }
                if stale && !adopted && (c16 || fetch_failed_before || self.last.is_none()) {
                    return Err(format!(
                        "signed without a new token, though 30 s or less remained when the call began{}; {}",
                        if fetch_failed_before { " and the last fetch had failed" } else { "" },
                        brief(log)
                    ));
                }
                self.blob_failed = !good;
                obs.class_if(!adopted, "signBlob with a reused token");
            }
        }
        if stale && !adopted && self.last.is_some() && log.iter().any(|e| e.ep != Ep::Blob) {
            obs.class("replacing an old token failed");
        }
        Ok(())
    }

    fn result(&self, ask: &Ask, r: &Result<Out, String>, log: &[Entry]) -> Result<(), String> {
        if self.focus == Focus::Reuse {
            return Ok(());
        }
        let failed = log.iter().find(|e| !e.fault.healthy());
        match (r, failed) {
            (Ok(_), Some(e)) => Err(format!("the call succeeded although its {:?} request failed; {}", e.ep, brief(log))),
            (Err(e), None) => Err(format!("the call failed ({e}) although every request was answered properly; {}", brief(log))),
            (Err(_), Some(_)) => Ok(()),
            (Ok(out), None) => {
                let s = ask.signed(out)?;
                if s.signature != sha256(&s.message) {
                    return Err(format!("the signature is not the one returned for this message; {}", brief(log)));
                }
                match &self.last {
                    Some(a) if a.email == s.email => Ok(()),
                    a => Err(format!("the credential names {:?}, the metadata server reported {:?}; {}", s.email, a.as_ref().map(|a| &a.email), brief(log))),
                }
            }
        }
    }
}

pub fn identity(i: u8) -> String {
    format!("sa{i}@p.iam.gserviceaccount.com")
}

fn run_history(c: &History, focus: Focus, obs: &mut Obs) -> Result<(), String> {
    let rt = server::runtime(1);
    clock::set(c.now.s, c.now.n);
    rt.block_on(async {
        let srv = Server::start(0).await;
        srv.redirect_sign_blob();
        srv.with(|s| s.email = identity(0));
        let key = srv.key();
        let mut m = Model { focus, last: None, ever: BTreeSet::new(), fetch_failed: false, blob_failed: false };
        let mut signed = 0;
        let mut failures = 0;
        // not so far that the date cannot be written any more
        let start = clock::peek();
        let near = |d: i128| clock::peek() + d - start < 4_000_000_000 * G;
        for (i, step) in c.steps.iter().enumerate() {
            let at = |e: String| format!("step {i}: {e}");
            let email = srv.with(|s| s.email.clone());
            let began = clock::peek();
            let from = srv.log_len();
            match step {
                Step::Advance(ns) => {
                    if near(*ns as i128) {
                        clock::advance(*ns as i128)
                    }
                }
                Step::Edge(ns) => {
                    if let Some(a) = &m.last {
                        let d = a.stale_from + *ns as i128 - clock::peek();
                        if d > 0 && near(d) {
                            clock::advance(d);
                        }
                    }
                }
                Step::Identity(n) => srv.with(|s| s.email = identity(*n)),
                Step::Sign { ask, clone, lifetimes, email: ef, token: tf, blob: bf, drift } => {
                    srv.with(|s| {
                        s.lifetime = lifetimes.last().copied().unwrap_or(3600);
                        s.lifetimes = lifetimes.iter().copied().collect();
                        s.email_faults = ef.iter().cloned().collect();
                        s.token_faults = tf.iter().cloned().collect();
                        s.blob_faults = bf.iter().cloned().collect();
                        s.drift = drift.iter().copied().collect();
                    });
                    let k = if *clone { key.clone() } else { key.clone().clone() };
                    let r = server::patient(ask.run(k, true)).await.map_err(at)?;
                    if r.is_err() {
                        srv.settle().await;
                    }
                    srv.calm();
                    let log = srv.log_from(from);
                    m.follow(&log, began, &email, obs).map_err(at)?;
                    m.result(ask, &r, &log).map_err(at)?;
                    signed += 1;
                    failures += u32::from(r.is_err());
                    obs.class_if(r.is_ok() && failures > 0, "success after a failure");
                }
                Step::Many { ask, n, lifetime } => {
                    srv.with(|s| s.lifetime = *lifetime);
                    for _ in 0..*n {
                        let from = srv.log_len();
                        let r = server::patient(ask.run(key.clone(), true)).await.map_err(at)?;
                        let log = srv.log_from(from);
                        m.follow(&log, began, &email, obs).map_err(at)?;
                        m.result(ask, &r, &log).map_err(at)?;
                        signed += 1;
                    }
                    srv.calm();
                }
                Step::Abandon { ask, ep, lifetime } => {
                    srv.with(|s| {
                        s.lifetime = *lifetime;
                        s.stalled = false;
                        let q = match ep {
                            Ep::Email => &mut s.email_faults,
                            Ep::Token => &mut s.token_faults,
                            _ => &mut s.blob_faults,
                        };
                        q.push_back(Fault::Stall);
                    });
                    let done = server::patient(async {
                        tokio::select! {
                            r = ask.run(key.clone(), true) => Some(r),
                            _ = srv.until_stalled() => None,
                        }
                    })
                    .await
                    .map_err(at)?;
                    srv.settle().await;
                    srv.calm();
                    let log = srv.log_from(from);
                    m.follow(&log, began, &email, obs).map_err(at)?;
                    match done {
                        Some(r) => m.result(ask, &r, &log).map_err(at)?,
                        None => obs.class(format!("abandoned while waiting for {ep:?}")),
                    }
                }
            }
        }
        obs.count("requests", srv.log_len() as u64);
        obs.count("signing calls", signed);
        obs.class_if(failures > 0, "histories with a failed call");
        let log = srv.log_from(0);
        let (t, b) = (log.iter().filter(|e| e.ep == Ep::Token).count(), log.iter().filter(|e| e.ep == Ep::Blob).count());
        obs.nontrivial_if(match focus {
            Focus::Reuse => t >= 2 && b >= 2,
            Focus::Faults => failures > 0 && signed as u32 > failures,
        });
        Ok(())
    })
}

const STATUSES: [u16; 18] = [300, 302, 304, 400, 401, 403, 404, 405, 409, 410, 418, 422, 429, 500, 501, 502, 503, 504];

fn transport_fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        2 => Just(Fault::Close),
        2 => any::<u8>().prop_map(Fault::Truncate),
        1 => Just(Fault::Garbage),
        1 => select(vec![
            "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab",
            "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcde",
            "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nabcde",
            "HTTP/1.1 2",
            "HTTP/1.1 200 OK\r\nContent-Type: a",
        ]).prop_map(|s| Fault::Raw(s.into())),
    ]
    .boxed()
}

fn status_fault(bodies: Vec<&'static str>) -> BoxedStrategy<Fault> {
    let status = prop_oneof![
        4 => select(STATUSES.to_vec()),
        // a success, a redirect or a retry of the client's own is left open
        dict::wn(1) => dict::number().prop_map(|n| if (400..600).contains(&n) && n != 408 { n as u16 } else { 500 }),
        1 => (400u16..600).prop_map(|n| if n == 408 { 400 } else { n }),
    ];
    let body = prop_oneof![12 => select(bodies).prop_map(String::from), 2 => gen::text(), 1 => gen::ragged()];
    (status, body).prop_map(|(n, b)| Fault::Status(n, b)).boxed()
}

const ERROR_BODY: &str = "{\"error\":{\"code\":403,\"message\":\"m\",\"status\":\"PERMISSION_DENIED\"}}";

pub fn email_fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        2 => status_fault(vec!["", "bad@evil.example", "<html>", ERROR_BODY]),
        2 => transport_fault(),
    ]
    .boxed()
}

pub fn token_fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        3 => status_fault(vec!["", "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"Bearer\"}", "<html>", ERROR_BODY]),
        3 => transport_fault(),
        1 => (0u8..50).prop_map(Fault::Cut),
        4 => select(vec![
            "", "null", "[]", "{}", "\"bad\"", "bad", "<html></html>", ERROR_BODY,
            "{\"access_token\":\"bad\",\"expires_in\":3600}",
            "{\"access_token\":\"bad\",\"token_type\":\"Bearer\"}",
            "{\"expires_in\":3600,\"token_type\":\"Bearer\"}",
            "{\"access_token\":null,\"expires_in\":3600,\"token_type\":\"Bearer\"}",
            "{\"access_token\":[\"bad\"],\"expires_in\":3600,\"token_type\":\"Bearer\"}",
            "{\"access_token\":\"bad\",\"expires_in\":null,\"token_type\":\"Bearer\"}",
            "{\"access_token\":\"bad\",\"expires_in\":\"soon\",\"token_type\":\"Bearer\"}",
            "{\"access_token\":\"bad\",\"expires_in\":-1,\"token_type\":\"Bearer\"}",
            "{\"access_token\":\"bad\",\"expires_in\":true,\"token_type\":\"Bearer\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":null}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"MAC\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"Basic\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"N_A\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"BearerX\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"XBearer\"}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"Bearer\"",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"Bearer\"}}",
            "{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"Bearer\"} bad",
        ]).prop_map(|b| Fault::Body(b.into())),
        1 => Just(Fault::Bytes(b"{\"access_token\":\"bad\",\"expires_in\":3600,\"token_type\":\"Bearer\xff\"}".to_vec())),
    ]
    .boxed()
}

pub fn blob_fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        3 => status_fault(vec!["", "{\"keyId\":\"k\",\"signedBlob\":\"YmFk\"}", "<html>", ERROR_BODY]),
        3 => transport_fault(),
        1 => (0u8..30).prop_map(Fault::Cut),
        3 => select(vec![
            "", "null", "[]", "{}", "\"YmFk\"", "YmFk", "<html></html>", ERROR_BODY,
            "{\"keyId\":\"k\"}",
            "{\"keyId\":\"k\",\"signedBlob\":null}",
            "{\"keyId\":\"k\",\"signedBlob\":[66,97,100]}",
            "{\"keyId\":\"k\",\"signedBlob\":5}",
            "{\"keyId\":\"k\",\"signedBlob\":\"!!!!\"}",
            "{\"keyId\":\"k\",\"signedBlob\":\"A\"}",
            "{\"keyId\":\"k\",\"signedBlob\":\"YmFkYmFk====\"}",
            "{\"keyId\":\"k\",\"signedBlob\":\"YmFk*mFk\"}",
            "{\"keyId\":\"k\",\"signedBlob\":\"=YmF\"}",
            "{\"keyId\":\"k\",\"signedBlob\":\"\u{e9}\"}",
            "{\"keyId\":\"k\",\"signedBlob\":\"YmFk\"",
            "{\"keyId\":\"k\",\"signedBlob\":\"YmFk\"}]",
        ]).prop_map(|b| Fault::Body(b.into())),
        1 => Just(Fault::Bytes(b"{\"keyId\":\"k\",\"signedBlob\":\"YmFk\xff\"}".to_vec())),
    ]
    .boxed()
}

fn healthy() -> BoxedStrategy<Fault> {
    select(vec![Fault::None, Fault::None, Fault::Chunked, Fault::ExtraMembers]).boxed()
}

/// Answers to up to two requests; `p` is how often the first or second fails.
fn answers(bad: BoxedStrategy<Fault>, p: f64) -> BoxedStrategy<Vec<Fault>> {
    let n = (100.0 * p) as u32;
    if n == 0 {
        return vec(healthy(), 0..3).boxed();
    }
    vec(prop_oneof![100 - n => healthy(), n => bad], 0..3).boxed()
}

fn lifetime() -> BoxedStrategy<u64> {
    prop_oneof![
        6 => select(vec![0u64, 1, 29, 30, 31, 32, 59, 60, 61, 119, 300, 3599, 3600]),
        1 => 0u64..100,
        1 => 0u64..100_000,
        1 => select(vec![86_400u64, 604_800, 31_536_000, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 32) + 10, (1 << 32) + 31, 9_999_999_999, (1 << 33) + 60, 1 << 40]),
        dict::wn(1) => dict::number().prop_map(|n| n.min(1 << 40)),
    ]
    .boxed()
}

fn step(p: f64, abandon: u32) -> BoxedStrategy<Step> {
    let drift = prop_oneof![
        6 => Just(vec![]),
        2 => vec(select(vec![0i64, 0, 0, 1, 1_000_000, 1_000_000_000, 2_000_000_000, 5_000_000_000, 30_000_000_000, 31_000_000_000]), 1..4),
    ];
    prop_oneof![
        1000 => ((ask(), any::<bool>(), vec(lifetime(), 0..3)), (answers(email_fault(), p), answers(token_fault(), p), answers(blob_fault(), p)), drift)
            .prop_map(|((ask, clone, lifetimes), (email, token, blob), drift)| Step::Sign { ask, clone, lifetimes, email, token, blob, drift }),
        200 => prop_oneof![(dict::number(), select(vec![1i64, 1_000_000, G as i64])).prop_map(|(n, u)| (n.min(100_000_000) as i64) * u), 0i64..100 * G as i64, select(vec![0i64, 1, G as i64, 29 * G as i64, 30 * G as i64, 31 * G as i64, 3569 * G as i64, 3570 * G as i64, 3571 * G as i64, 3600 * G as i64])].prop_map(Step::Advance),
        500 => prop_oneof![
            4 => select(vec![-1i64, 0, 1, -1_000_000_000, 1_000_000_000, -999_999_999, 999_999_999, -500_000_000, 30_000_000_000, 29_999_999_999, 30_000_000_001, -1_000, 15_000_000_000, -30_000_000_000, 60_000_000_000]),
            1 => -100_000_000_000i64..100_000_000_000,
        ].prop_map(Step::Edge),
        100 => (0u8..4).prop_map(Step::Identity),
        100 * abandon => (ask(), select(vec![Ep::Email, Ep::Token, Ep::Blob]), lifetime()).prop_map(|(ask, ep, lifetime)| Step::Abandon { ask, ep, lifetime }),
        dict::wn(2) => (ask(), prop_oneof![1 => 20usize..300, dict::wn(1) => dict::length(1500)], lifetime()).prop_map(|(ask, n, lifetime)| Step::Many { ask, n: n as u16, lifetime }),
    ]
    .boxed()
}

fn history(p: f64, abandon: u32) -> BoxedStrategy<History> {
    (
        (prop_oneof![6 => 1_600_000_000i64..1_900_000_000, 1 => Just(0i64), 1 => Just(253_402_300_799 - 5_000_000_000)], gen::nanos()),
        prop_oneof![40 => vec(step(p, abandon), 1..12), 10 => vec(step(p, abandon), 12..30), 2 => vec(step(p, abandon), 30..120)],
    )
        .prop_map(|((s, n), steps)| History { now: Ts { s, n }, steps })
        .boxed()
}

pub struct C16;
impl Prop for C16 {
    type Case = History;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Histories of up to 120 steps on one key and its clones: URL and form signings with server-chosen lifetimes (0, 1, 29-32, 59-61 s, ... 100000 s), clock advances, jumps to the nanosecond around the moment at which 30 s of life remain, e-mail changes, abandoned calls, some faults, and answers during which the clock moves. A model of the cache is run over the requests the services received. Non-trivial: at least two token fetches and two signBlob calls.";
    const ASSUMPTIONS: &'static [&'static str] = &["the clock does not go backwards", "between sending the token request and receiving its answer either moment may count as the start of the token's life"];
    const QUICK: u32 = 64_000;
    const SHRINK_ITERS: u32 = 1500;
    fn strategy() -> BoxedStrategy<History> {
        history(0.04, 1)
    }
    fn check(c: &History, obs: &mut Obs) -> Result<(), String> {
        run_history(c, Focus::Reuse, obs)
    }
}

pub struct C17;
impl Prop for C17 {
    type Case = History;
    const ID: &'static str = "C17";
    const RULE: &'static str = "Histories as for C16 in which a quarter of the answers of each endpoint are faults: lost, cut short and non-HTTP connections, 18 statuses (with bodies that would be good ones), 27 malformed token bodies, 19 malformed signBlob bodies, and calls abandoned while waiting for each endpoint. A call must return an error exactly when one of its requests failed, and only tokens and e-mails of successful fetches may be used. Non-trivial: both a failed and a successful call.";
    const ASSUMPTIONS: &'static [&'static str] = &["the clock does not go backwards", "2xx statuses other than 200, 408 and redirects with a Location are left open"];
    const QUICK: u32 = 64_000;
    const SHRINK_ITERS: u32 = 1500;
    fn strategy() -> BoxedStrategy<History> {
        history(0.25, 3)
    }
    fn check(c: &History, obs: &mut Obs) -> Result<(), String> {
        run_history(c, Focus::Faults, obs)
    }
}

// ---------------------------------------------------------------- one call, any arguments

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Args {
    Url(UrlCase),
    Form(FormCase),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RemoteCase {
    pub args: Args,
    pub email: String,
    pub token: String,
    pub sig: Sig,
    pub lifetime: u64,
    pub email_dress: Fault,
    pub token_dress: Fault,
    pub blob_dress: Fault,
    pub repeat: u8,
    /// what the metadata server reports after the first call
    #[serde(default)]
    pub email2: Option<String>,
}

impl RemoteCase {
    fn key_index(&self) -> Option<usize> {
        match self.sig {
            Sig::Key(i) => Some(i),
            _ => None,
        }
    }
}

pub struct C18;
impl Prop for C18 {
    type Case = RemoteCase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "A URL or form with adversarial fields (as for C01 and C10) signed up to three times through signBlob, with generated service-account e-mails, tokens of visible ASCII and signature bytes (arbitrary, or made with a real RSA key over the payload received). Requests and results are compared with the independently computed string to sign. Non-trivial: the signature is a real one or has at least 8 bytes.";
    const ASSUMPTIONS: &'static [&'static str] = &["service-account e-mails use letters, digits and . _ - + as Google's do", "tokens are visible ASCII"];
    const QUICK: u32 = 80_000;
    const SHRINK_ITERS: u32 = 1500;
    fn strategy() -> BoxedStrategy<RemoteCase> {
        let email = prop_oneof![
            2 => select(vec!["sa@p.iam.gserviceaccount.com", "123456789-compute@developer.gserviceaccount.com", "p@appspot.gserviceaccount.com", "a+b@c.d"]).prop_map(String::from),
            3 => (gen::chars("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._+-", 1..=12), gen::chars("abcdefghijklmnopqrstuvwxyz0123456789.-", 1..=12)).prop_map(|(a, b)| format!("a{a}@{b}z")),
        ];
        let token = prop_oneof![
            1 => Just("ya29.c.b0Aaekm1K".to_string()),
            3 => vec(33u8..127, 1..80).prop_map(|v| v.into_iter().map(char::from).collect()),
            1 => vec(select("abcXYZ019-_.~+/=".chars().collect::<Vec<_>>()), 200..1200).prop_map(|v| v.into_iter().collect()),
        ];
        let sig = prop_oneof![
            2 => (0usize..2).prop_map(Sig::Key),
            3 => prop_oneof![vec(any::<u8>(), 0..20), vec(any::<u8>(), 250..260), vec(select(vec![0u8, 1, 15, 16, 127, 128, 255]), 0..40), vec(any::<u8>(), 0..600)].prop_map(Sig::Raw),
        ];
        (
            prop_oneof![gen::url_case().prop_map(Args::Url), gen::form_case(true).prop_map(Args::Form)],
            (email.clone(), prop::option::weighted(0.2, email)),
            token,
            sig,
            prop_oneof![4 => Just(3600u64), 1 => select(vec![0u64, 30, 31])],
            (healthy(), healthy(), healthy()),
            1u8..4,
        )
            .prop_map(|(args, (email, email2), token, sig, lifetime, (e, t, b), repeat)| {
                // the first token may not be used again
                let lifetime = if email2.is_some() { lifetime.min(30) } else { lifetime };
                RemoteCase { args, email, token, sig, lifetime, email_dress: e, token_dress: t, blob_dress: b, repeat, email2 }
            })
            .boxed()
    }
    fn check(c: &RemoteCase, obs: &mut Obs) -> Result<(), String> {
        let now = match &c.args {
            Args::Url(u) => u.now,
            Args::Form(f) => f.now,
        };
        obs.class(match &c.args {
            Args::Url(_) => "url",
            Args::Form(_) => "form",
        });
        obs.nontrivial_if(match &c.sig {
            Sig::Raw(v) => v.len() >= 8,
            _ => true,
        });
        clock::set(now.s, now.n);
        let rt = server::runtime(1);
        rt.block_on(async {
            let srv = Server::start(0).await;
            srv.redirect_sign_blob();
            srv.with(|s| {
                s.email = c.email.clone();
                s.token_prefix = c.token.clone();
                s.sig = c.sig.clone();
                s.lifetime = c.lifetime;
                s.email_faults.push_back(c.email_dress.clone());
                s.token_faults.push_back(c.token_dress.clone());
                s.blob_faults.push_back(c.blob_dress.clone());
            });
            let key = srv.key();
            let mut current = None;
            let mut email = &c.email;
            for i in 0..c.repeat {
                if let (Some(e), 1) = (&c.email2, i) {
                    obs.class("identity changed");
                    srv.with(|s| s.email = e.clone());
                    email = e;
                }
                let from = srv.log_len();
                let s = match &c.args {
                    Args::Url(u) => {
                        let url = server::patient(css::build_signed_url(u.options(key.clone(), true))).await?.map_err(|e| format!("valid request rejected: {e}"))?;
                        signed_url(&url, &u.method, &u.headers, u.region_str())?
                    }
                    Args::Form(f) => {
                        let form = server::patient(f.builder(Some(key.clone()), true).build()).await?.map_err(|e| format!("valid form rejected: {e}"))?.into_vec();
                        let region = f.opts.as_ref().and_then(|o| o.region.clone()).unwrap_or("auto".into());
                        signed_form(&form, &region)?
                    }
                };
                if s.email != *email {
                    return Err(format!("the credential names {:?}, the metadata server reported {:?}", s.email, email));
                }
                let log = srv.log_from(from);
                for e in &log {
                    match e.ep {
                        Ep::Email | Ep::Token => {
                            if e.method != "GET" || e.header("metadata-flavor") != ["Google"] {
                                return Err(format!("metadata request {} with headers {:?}", e.method, e.headers));
                            }
                            if let Some((t, _)) = &e.issued {
                                current = Some(t.clone());
                            }
                        }
                        Ep::Blob => {
                            if e.method != "POST" {
                                return Err(format!("signBlob request is a {}", e.method));
                            }
                            let a = e.account()?;
                            if a != *email {
                                return Err(format!("signBlob was asked for {a:?}, the metadata server reported {email:?}"));
                            }
                            let b = e.bearer()?;
                            if Some(&b) != current.as_ref() {
                                return Err(format!("signBlob carries token {b:?}, the current one is {current:?}"));
                            }
                            let p = e.payload()?;
                            if p != s.message {
                                return Err(format!("signBlob was asked to sign {:?}, the result needs {:?}", String::from_utf8_lossy(&p), String::from_utf8_lossy(&s.message)));
                            }
                        }
                        Ep::Other => return Err(format!("unexpected request {} {}", e.method, e.target)),
                    }
                }
                if !log.iter().any(|e| e.ep == Ep::Blob) {
                    return Err("signed without a signBlob request".into());
                }
                match (&c.sig, c.key_index()) {
                    (Sig::Raw(v), _) if *v != s.signature => return Err(format!("the service signed {:?}, the result says {:?}", oracle::hex_encode(v), oracle::hex_encode(&s.signature))),
                    (_, Some(i)) if !keys::public(i).verify(&s.message, &s.signature) => return Err("the signature does not verify".into()),
                    _ => {}
                }
                obs.class_if(log.len() == 1, "token reused");
            }
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- concurrency

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cancel {
    AfterMs(u8),
    /// dropped after being polled this often
    Polls(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OneCall {
    /// a bound-token key, or None for the service-account key
    pub key: Option<u8>,
    pub form: bool,
    pub start: bool,
    pub delay_ms: u8,
    pub cancel: Option<Cancel>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mode {
    /// tasks of a runtime with so many threads
    Tasks(u8),
    /// one task polls the calls in this order, woken or not; larger numbers let the network go on
    Driven(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Together {
    /// one call on every key before the others, whose token lives so long
    #[serde(default)]
    pub before: Option<u64>,
    pub mode: Mode,
    pub keys: u8,
    pub same_host: bool,
    pub lifetime: u64,
    pub calls: Vec<OneCall>,
    pub latency: Vec<u8>,
    pub email: Vec<Fault>,
    pub token: Vec<Fault>,
    pub blob: Vec<Fault>,
}

type Job = Pin<Box<dyn Future<Output = Option<Result<Out, String>>> + Send>>;

async fn with_cancel<F>(f: F, cancel: Option<Cancel>) -> Option<F::Output>
where
    F: Future + Send,
{
    match cancel {
        None => Some(f.await),
        Some(Cancel::AfterMs(ms)) => {
            tokio::select! {
                biased;
                _ = tokio::time::sleep(Duration::from_millis(ms as u64)) => None,
                r = f => Some(r),
            }
        }
        Some(Cancel::Polls(n)) => {
            let mut f = Box::pin(f);
            let mut left = n;
            std::future::poll_fn(move |cx| {
                if left == 0 {
                    return Poll::Ready(None);
                }
                left -= 1;
                match f.as_mut().poll(cx) {
                    Poll::Ready(r) => Poll::Ready(Some(r)),
                    // the next poll has to come even when nothing wakes the call
                    Poll::Pending if left == 0 => Poll::Ready(None),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await
        }
    }
}

fn maybe(p: f64, s: impl Strategy<Value = Cancel> + 'static) -> BoxedStrategy<Option<Cancel>> {
    if p == 0.0 {
        Just(None).boxed()
    } else {
        prop::option::weighted(p, s).boxed()
    }
}

/// Polls every job by a schedule, then in turn.
async fn drive(mut jobs: Vec<Job>, schedule: &[u8]) -> Vec<Option<Result<Out, String>>> {
    let n = jobs.len();
    let mut done: Vec<Option<Option<Result<Out, String>>>> = (0..n).map(|_| None).collect();
    let mut i = 0;
    while done.iter().any(|d| d.is_none()) {
        let pick = match schedule.get(i) {
            Some(s) => *s as usize % (n + 2),
            None if i % 2 == 0 => n,
            None => (i / 2) % n,
        };
        i += 1;
        if pick >= n {
            tokio::task::yield_now().await;
        } else if done[pick].is_none() {
            let job = &mut jobs[pick];
            let r = std::future::poll_fn(|cx| match job.as_mut().poll(cx) {
                Poll::Ready(r) => Poll::Ready(Some(r)),
                Poll::Pending => Poll::Ready(None),
            })
            .await;
            done[pick] = r;
        }
    }
    done.into_iter().map(|d| d.unwrap()).collect()
}

pub struct C19;
impl Prop for C19 {
    type Case = Together;
    const ID: &'static str = "C19";
    const RULE: &'static str = "2 to 12 (sometimes up to 150) overlapping URL and form calls on one or two bound-token keys (same or separate metadata servers; without a token, with one that is no longer good, or a good one) and on a service-account key, as tasks of 1- or 4-thread runtimes or polled in a generated order, with start delays and answer latencies of 0-4 ms, faults, and calls dropped after a time or a number of polls. Intervals and counts of metadata requests, the payload and token behind each result, and results of the service-account key called alone are compared; afterwards every key must still sign. Non-trivial: at least two calls on one bound-token key.";
    const ASSUMPTIONS: &'static [&'static str] = &["with several threads the operating system's schedule is not controlled; every assertion holds for any schedule"];
    const QUICK: u32 = 24_000;
    const SHRINK_ITERS: u32 = 600;
    const RERUNS: u32 = 20;
    fn strategy() -> BoxedStrategy<Together> {
        let call = |cancels: f64| {
            (
                prop_oneof![5 => Just(Some(0u8)), 2 => Just(Some(1u8)), 1 => Just(None)],
                any::<bool>(),
                any::<bool>(),
                prop_oneof![3 => Just(0u8), 1 => 0u8..4],
                maybe(cancels, prop_oneof![1 => (0u8..8).prop_map(Cancel::AfterMs), 2 => (0u8..12).prop_map(Cancel::Polls)]),
            )
                .prop_map(|(key, form, start, delay_ms, cancel)| OneCall { key, form, start, delay_ms, cancel })
        };
        let faults = |p: f64| (answers(email_fault(), p), answers(token_fault(), p), answers(blob_fault(), p));
        let mode = prop_oneof![
            2 => Just(Mode::Tasks(1)),
            2 => Just(Mode::Tasks(4)),
            3 => vec(any::<u8>(), 0..80).prop_map(Mode::Driven),
        ];
        let latency = prop_oneof![1 => Just(vec![]), 2 => vec(prop_oneof![2 => Just(0u8), 1 => 0u8..5], 1..8)];
        (
            mode,
            (prop_oneof![2 => Just(1u8), 1 => Just(2u8)], any::<bool>()),
            prop_oneof![16 => Just(3600u64), 2 => Just(31u64), 2 => select(vec![0u64, 30]), 1 => 31u64..200_000, 2 => lifetime()],
            prop_oneof![
                20 => (vec(call(0.0), 2..12), faults(0.0)),
                10 => (vec(call(0.0), 2..12), faults(0.3)),
                20 => (vec(call(0.35), 2..12), faults(0.0)),
                10 => (vec(call(0.35), 2..12), faults(0.2)),
                dict::wn(1) => (prop_oneof![3 => 12usize..60, dict::wn(1) => dict::length(150)].prop_flat_map(move |n| vec(call(0.1), n)), faults(0.0)),
            ],
            latency,
            // still good, or not any more 10 s later
            prop_oneof![2 => Just(None), 2 => select(vec![0u64, 30, 31, 39, 40]).prop_map(Some), 1 => select(vec![41u64, 3600, 86_400]).prop_map(Some)],
        )
            .prop_map(|(mode, (keys, same_host), lifetime, (calls, (email, token, blob)), latency, before)| Together { before, mode, keys, same_host, lifetime, calls, latency, email, token, blob })
            .boxed()
    }
    fn check(c: &Together, obs: &mut Obs) -> Result<(), String> {
        let threads = match c.mode {
            Mode::Tasks(n) => n.clamp(1, 8) as usize,
            Mode::Driven(_) => 1,
        };
        clock::set(1_700_000_000, 250_000_000);
        let rt = server::runtime(threads);
        let r = rt.block_on(async {
            match tokio::time::timeout(server::PATIENCE, together(c, obs)).await {
                Ok(r) => r,
                Err(_) => Err(format!("the calls did not all return within {:?}", server::PATIENCE)),
            }
        });
        rt.shutdown_background();
        r
    }
}

async fn together(c: &Together, obs: &mut Obs) -> Result<(), String> {
    let nkeys = c.keys.clamp(1, 2) as usize;
    let nservers = if nkeys == 2 && !c.same_host { 2 } else { 1 };
    let mut servers = vec![];
    for i in 0..nservers {
        let s = Server::start(i).await;
        s.with(|st| {
            st.email = identity(i as u8);
            st.token_prefix = format!("s{i}");
            st.lifetime = c.before.unwrap_or(c.lifetime);
        });
        servers.push(s);
    }
    servers[0].redirect_sign_blob();
    let server_of = |k: usize| if nservers == 2 { k } else { 0 };
    let bound: Vec<css::SigningKey> = (0..nkeys).map(|k| servers[server_of(k)].key()).collect();
    let sa = css::SigningKey::service_account("sa@example.com".into(), keys::PEMS[0].to_string());
    let warm = c.before.is_some_and(|l| l > 40);
    let mut warm_tokens: Vec<BTreeSet<String>> = vec![BTreeSet::new(); nkeys];
    if c.before.is_some() {
        for (k, key) in bound.iter().enumerate() {
            let s = &servers[server_of(k)];
            let from = s.log_len();
            let ask = Ask { form: k % 2 == 0, tag: 800 + k as u16, start: true };
            ask.run(key.clone(), true).await.map_err(|e| format!("a call before the others fails: {e}"))?;
            warm_tokens[k] = s.log_from(from).iter().filter_map(|e| e.issued.as_ref().map(|(t, _)| t.clone())).collect();
        }
        clock::advance(10 * G);
        obs.class(if warm { "with a good token to begin with" } else { "with an old token to begin with" });
    }
    let from: Vec<usize> = servers.iter().map(|s| s.log_len()).collect();
    for (i, s) in servers.iter().enumerate() {
        s.with(|st| {
            st.lifetime = c.lifetime;
            st.latency = c.latency.iter().cycle().take(64 * c.latency.len().min(1)).map(|m| *m as u64).collect();
            st.email_faults = c.email.iter().cloned().collect();
            st.token_faults = c.token.iter().cloned().collect();
            if i == 0 {
                st.blob_faults = c.blob.iter().cloned().collect();
            }
        });
    }

    let mut jobs: Vec<Job> = vec![];
    let mut asks = vec![];
    for (i, call) in c.calls.iter().enumerate() {
        let ask = Ask { form: call.form, tag: i as u16, start: call.start };
        let which = call.key.map(|k| k as usize % nkeys);
        let key = which.map_or(sa.clone(), |k| bound[k].clone());
        asks.push((ask.clone(), which));
        let (delay, cancel) = (call.delay_ms, call.cancel.clone());
        jobs.push(Box::pin(async move {
            if delay > 0 {
                tokio::time::sleep(Duration::from_millis(delay as u64)).await;
            }
            with_cancel(async move { ask.run(key, which.is_some()).await }, cancel).await
        }));
    }
    let results: Vec<Option<Result<Out, String>>> = match &c.mode {
        Mode::Driven(s) => drive(jobs, s).await,
        Mode::Tasks(_) => {
            let handles: Vec<_> = jobs.into_iter().map(tokio::spawn).collect();
            let mut out = vec![];
            for h in handles {
                out.push(h.await.map_err(|e| if e.is_panic() { format!("a call panicked: {e}") } else { e.to_string() })?);
            }
            out
        }
    };

    let cancelled = results.iter().filter(|r| r.is_none()).count();
    let may_cancel = c.calls.iter().any(|x| x.cancel.is_some());
    let reusable = warm || c.lifetime > 30;
    let calls_on = |k: usize| asks.iter().filter(|(_, w)| *w == Some(k)).count();
    obs.nontrivial_if((0..nkeys).any(|k| calls_on(k) >= 2));
    obs.class_if(cancelled > 0, "with cancelled calls");
    obs.class_if(matches!(c.mode, Mode::Driven(_)), "driven by a schedule");
    obs.class_if(threads_of(c) > 1, "four threads");

    let logs: Vec<Vec<Entry>> = servers.iter().zip(&from).map(|(s, f)| s.log_from(*f)).collect();
    let all: Vec<&Entry> = logs.iter().flatten().collect();
    let unhealthy = all.iter().filter(|e| !e.fault.healthy()).count();
    let failed_at = |ep: Ep| all.iter().filter(|e| e.ep == ep && !e.fault.healthy()).count();
    obs.class_if(unhealthy > 0, "with faults");
    obs.count("calls", c.calls.len() as u64);

    // each result answers its own call
    let payloads: Vec<(Vec<u8>, String, String)> = all
        .iter()
        .filter(|e| e.ep == Ep::Blob)
        .map(|e| Ok((e.payload()?, e.bearer()?, e.account()?)))
        .collect::<Result<_, String>>()?;
    let mut used: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
    let mut errors = 0;
    for (i, r) in results.iter().enumerate() {
        let (ask, which) = &asks[i];
        let Some(r) = r else { continue };
        match (r, which) {
            (Err(_), Some(_)) => errors += 1,
            (Err(e), None) => return Err(format!("call {i} with the service-account key failed: {e}")),
            (Ok(out), None) => {
                let alone = ask.run(sa.clone(), false).await.map_err(|e| format!("call {i} fails when made alone: {e}"))?;
                let same = match (out, &alone) {
                    (Out::Url(a), Out::Url(b)) => a == b,
                    (Out::Form(a), Out::Form(b)) => a == b,
                    _ => false,
                };
                if !same {
                    return Err(format!("call {i} with the service-account key gives another result when made alone"));
                }
            }
            (Ok(out), Some(k)) => {
                let s = ask.signed(out).map_err(|e| format!("call {i}: {e}"))?;
                if s.signature != sha256(&s.message) {
                    return Err(format!("call {i} has a signature made for another message"));
                }
                if s.email != identity(server_of(*k) as u8) {
                    return Err(format!("call {i} with key {k} names {:?}", s.email));
                }
                let mine: Vec<_> = payloads.iter().filter(|(p, _, _)| *p == s.message).collect();
                if mine.is_empty() {
                    return Err(format!("call {i} was signed without a signBlob request of its own"));
                }
                for (_, bearer, account) in mine {
                    if *account != s.email {
                        return Err(format!("call {i} with key {k}: signBlob was asked for {account:?}"));
                    }
                    used.entry(*k).or_default().insert(bearer.clone());
                }
            }
        }
    }
    let issued: BTreeSet<&String> = all.iter().filter(|e| e.fault.healthy()).filter_map(|e| e.issued.as_ref().map(|(t, _)| t)).collect();
    for (k, tokens) in &used {
        for t in tokens {
            if warm && !warm_tokens[*k].contains(t) {
                return Err(format!("key {k} used token {t:?} though it had {:?}, which was still good", warm_tokens[*k]));
            }
            if !(warm || issued.contains(t)) || !t.starts_with(&format!("s{}-", server_of(*k))) {
                return Err(format!("key {k} used token {t:?}, issued: {issued:?}"));
            }
            if used.iter().any(|(j, other)| j != k && other.contains(t)) {
                return Err(format!("two separately created keys used token {t:?}"));
            }
        }
    }

    // failures are the failed requests' own
    // (one call may lose both its e-mail and its token request)
    let least = failed_at(Ep::Blob) + failed_at(Ep::Email).max(failed_at(Ep::Token));
    if errors > unhealthy || (!may_cancel && errors < least) {
        let texts: Vec<_> = results.iter().flatten().filter_map(|r| r.as_ref().err()).collect();
        return Err(format!("{unhealthy} requests failed, {errors} calls returned errors: {texts:?}"));
    }

    // how often and when the metadata servers were asked
    for (j, log) in logs.iter().enumerate() {
        let on: Vec<usize> = (0..nkeys).filter(|k| server_of(*k) == j && calls_on(*k) > 0).collect();
        for ep in [Ep::Email, Ep::Token] {
            let v: Vec<&Entry> = log.iter().filter(|e| e.ep == ep).collect();
            if warm && !v.is_empty() {
                return Err(format!("{} {ep:?} requests though every key had a good token", v.len()));
            }
            // a call that loses one request may leave the other one behind
            let left = log.iter().any(|e| matches!(e.ep, Ep::Email | Ep::Token) && e.ep != ep && !e.fault.healthy());
            if on.len() == 1 && !may_cancel && !left {
                for w in v.windows(2) {
                    if w[0].finished.is_none_or(|f| f > w[1].started) {
                        return Err(format!("two {ep:?} requests of one key were in progress at once"));
                    }
                }
            }
            let faults = log.iter().filter(|e| matches!(e.ep, Ep::Email | Ep::Token) && !e.fault.healthy()).count();
            if reusable {
                let most = on.len() + faults + cancelled;
                if v.len() > most {
                    return Err(format!("{} {ep:?} requests for {} keys, {faults} failed fetches and {cancelled} cancelled calls", v.len(), on.len()));
                }
                if !may_cancel && !warm && faults == 0 && v.len() != on.len() {
                    return Err(format!("{} {ep:?} requests for {} keys", v.len(), on.len()));
                }
            }
        }
    }

    // afterwards every key works, with the token it has
    for s in &servers {
        s.settle().await;
        s.calm();
    }
    // requests of calls that were dropped or gave up may still arrive late
    let exact = !may_cancel && errors == 0;
    for (k, key) in bound.iter().enumerate() {
        let s = &servers[server_of(k)];
        let mut again = 0;
        loop {
            let before = s.with(|st| st.log.iter().filter(|e| e.ep == Ep::Token || e.ep == Ep::Email).count());
            let ask = Ask { form: k % 2 == 1, tag: 900 + k as u16, start: true };
            let out = ask.run(key.clone(), true).await.map_err(|e| format!("key {k} does not sign any more afterwards: {e}"))?;
            let r = ask.signed(&out)?;
            if r.signature != sha256(&r.message) {
                return Err(format!("key {k} signs wrongly afterwards"));
            }
            let after = s.with(|st| st.log.iter().filter(|e| e.ep == Ep::Token || e.ep == Ep::Email).count());
            if !reusable || !used.contains_key(&k) || after == before {
                break;
            }
            if exact || again == 4 {
                return Err(format!("key {k} had a valid token and asked for another one afterwards"));
            }
            again += 1;
            tokio::time::sleep(Duration::from_millis(20 << again)).await;
            s.settle().await;
        }
    }
    // a key created now starts with nothing and changes nothing for the others
    for (j, s) in servers.iter().enumerate() {
        let fresh = s.key();
        let news: Vec<BTreeSet<String>> = {
            let mut v = vec![];
            for (key, tag) in std::iter::once((&fresh, 950)).chain(bound.iter().enumerate().filter(|(k, _)| server_of(*k) == j).map(|(k, key)| (key, 960 + k as u16))) {
                let from = s.log_len();
                let blobs = servers[0].log_len();
                let ask = Ask { form: tag % 2 == 1, tag, start: true };
                let out = ask.run(key.clone(), true).await.map_err(|e| format!("a call after a key was created fails: {e}"))?;
                let message = ask.signed(&out)?.message;
                let fetched: BTreeSet<String> = s.log_from(from).iter().filter_map(|e| e.issued.as_ref().map(|(t, _)| t.clone())).collect();
                let mut used = BTreeSet::new();
                for e in servers[0].log_from(blobs).iter().filter(|e| e.ep == Ep::Blob) {
                    if e.payload()? == message {
                        used.insert(e.bearer()?);
                    }
                }
                if tag == 950 && (!used.is_subset(&fetched) || used.len() != 1 || (exact && c.lifetime > 30 && fetched.len() != 1)) {
                    return Err(format!("a key created later fetched {fetched:?} and used {used:?} in its first call"));
                }
                if tag != 950 && exact && reusable && !fetched.is_empty() {
                    return Err(format!("a key with a valid token asked for {fetched:?} after another key was used"));
                }
                v.push(used);
            }
            v
        };
        if let Some((first, rest)) = news.split_first() {
            if rest.iter().any(|r| !r.is_disjoint(first)) {
                return Err(format!("two separately created keys used token {first:?}"));
            }
        }
    }
    Ok(())
}

fn threads_of(c: &Together) -> u8 {
    match c.mode {
        Mode::Tasks(n) => n,
        Mode::Driven(_) => 1,
    }
}
