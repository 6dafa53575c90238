//! C20: results depend on the arguments only.
use crate::clock;
use crate::gen;
use crate::keys;
use crate::oracle;
use crate::runner::{Obs, Prop};
use crate::types::*;
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Args {
    Url(UrlCase),
    Form(FormCase),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Variation {
    Again,
    /// through a clone of the key (and of the options, for URLs)
    Clone,
    /// with other calls made before, through clones of the same key or keys of the same e-mail
    After(Vec<Before>),
    /// the clock reads differently (when a start is given) and moves at every reading
    Clock(Ts, i64),
    Zone(String),
    Env(String, String),
    /// on a multi-threaded runtime
    /// every environment variable the code asks for has this value
    Environment(String),
    MultiThread,
    /// the region spelled out, or left out
    Region,
    /// the start spelled out as the current time, or left out while the clock shows it
    Start,
}

/// A call made before.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Before {
    args: Args,
    /// or another key of the same e-mail
    same_key: bool,
    /// why it fails, if not 0
    spoil: u8,
    /// the future is dropped at once
    dropped: bool,
}

const SPOILS: u8 = 8;

impl Before {
    fn spoiled(&self) -> Args {
        let mut a = self.args.clone();
        match (&mut a, self.spoil) {
            (_, 0) => {}
            (Args::Url(u), 1) => u.method = "PATCH".into(),
            (Args::Url(u), 2) => u.headers.push(("a b".into(), "c".into())),
            (Args::Url(u), 3) => u.headers.push(("a".into(), "\u{1}".into())),
            (Args::Url(u), 4) => u.object += "/..",
            (Args::Url(u), 5) => u.bucket = ".".into(),
            (Args::Url(u), _) => u.expires = Ts { s: u.start_eff().s - 1, n: 0 },
            (Args::Form(f), 1) => f.sets.retain(|s| !matches!(s, Set::Key(_))),
            (Args::Form(f), 2) => f.sets.retain(|s| !matches!(s, Set::Bucket(_))),
            (Args::Form(f), 3) => f.sets.push(Set::Meta(String::new(), "v".into())),
            (Args::Form(f), _) => f.opts.as_mut().unwrap().expiration = f.start_eff(),
        }
        a
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PureCase {
    pub args: Args,
    pub variations: Vec<Variation>,
}

impl Args {
    fn fix(&mut self) {
        // "auto" has to be a possible other spelling often enough
        let r = match self {
            Args::Url(c) => &mut c.region,
            Args::Form(c) => &mut c.opts.as_mut().unwrap().region,
        };
        if r.as_deref() == Some("US") {
            *r = Some("auto".into());
        }
    }
    fn key(&self) -> css::SigningKey {
        match self {
            Args::Url(c) => c.sa_key(),
            Args::Form(c) => c.sa_key().unwrap(),
        }
    }
    fn now(&self) -> Ts {
        match self {
            Args::Url(c) => c.now,
            Args::Form(c) => c.now,
        }
    }
    fn start(&mut self) -> (&mut Option<Ts>, &mut Ts) {
        match self {
            Args::Url(c) => (&mut c.start, &mut c.now),
            Args::Form(c) => (&mut c.opts.as_mut().unwrap().start, &mut c.now),
        }
    }
    fn region(&mut self) -> &mut Option<String> {
        match self {
            Args::Url(c) => &mut c.region,
            Args::Form(c) => &mut c.opts.as_mut().unwrap().region,
        }
    }
    async fn call(&self, key: css::SigningKey) -> Result<String, String> {
        match self {
            Args::Url(c) => css::build_signed_url(c.options(key, false)).await.map_err(|e| e.to_string()),
            Args::Form(c) => c
                .builder(Some(key), false)
                .build()
                .await
                .map(|f| serde_json::to_string(&f.into_vec()).unwrap())
                .map_err(|e| e.to_string()),
        }
    }
    /// On a fresh thread, so that nothing kept per thread can hide a difference.
    fn run(&self, key: css::SigningKey, threads: usize) -> Result<String, String> {
        std::thread::scope(|s| {
            s.spawn(|| {
                let rt = crate::server::runtime(threads);
                if threads > 1 {
                    let me = self.clone();
                    rt.block_on(async move { tokio::spawn(async move { me.call(key).await }).await.map_err(|e| format!("panicked: {e}"))? })
                } else {
                    rt.block_on(self.call(key))
                }
            })
            .join()
            .map_err(|_| "panicked".to_string())?
        })
    }
}

fn args() -> BoxedStrategy<Args> {
    prop_oneof![gen::url_case().prop_map(Args::Url), gen::form_case(true).prop_map(Args::Form)]
        .prop_map(|mut a| {
            a.fix();
            a
        })
        .boxed()
}

const ENV: [&str; 30] = [
    "TZ", "LANG", "LC_ALL", "LC_TIME", "HOME", "USER", "PATH", "GCE_METADATA_HOST", "GCE_METADATA_IP", "GOOGLE_APPLICATION_CREDENTIALS", "GOOGLE_CLOUD_PROJECT", "GCLOUD_PROJECT", "GCP_PROJECT",
    "GOOGLE_CLOUD_REGION", "CLOUDSDK_COMPUTE_REGION", "CLOUDSDK_CONFIG", "STORAGE_EMULATOR_HOST", "CLOUD_STORAGE_EMULATOR_HOST", "GOOGLE_CLOUD_UNIVERSE_DOMAIN", "HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "NO_PROXY",
    "SOURCE_DATE_EPOCH", "RUST_LOG", "DEBUG", "AWS_REGION", "REGION", "SSL_CERT_FILE", "TMPDIR",
];

fn variation() -> BoxedStrategy<Variation> {
    prop_oneof![
        2 => Just(Variation::Again),
        2 => Just(Variation::Clone),
        3 => vec((args(), any::<bool>(), prop_oneof![1 => Just(0u8), 1 => 1..SPOILS], prop::bool::weighted(0.1)).prop_map(|(args, same_key, spoil, dropped)| Before { args, same_key, spoil, dropped }), 1..4).prop_map(Variation::After),
        2 => (gen::ts(), select(vec![0i64, 1, 1_000_000_000, 86_400_000_000_000])).prop_map(|(t, s)| Variation::Clock(t, s)),
        2 => select(vec!["Asia/Tokyo", "America/New_York", "Asia/Kathmandu", "Pacific/Kiritimati", "JST-9", "EST5EDT", "XXX+12:34:56", "UTC", "", ":", "nonsense", "<-03>3"]).prop_map(|z| Variation::Zone(z.into())),
        2 => (select(ENV.to_vec()), select(vec!["", "1", "127.0.0.1:9", "http://127.0.0.1:9", "us-east1", "ja_JP.UTF-8", "/nonexistent", "0"])).prop_map(|(k, v)| Variation::Env(k.into(), v.into())),
        2 => prop_oneof![
            select(vec!["", "0", "1", "true", "us-east1", "127.0.0.1:9", "http://127.0.0.1:9", "/nonexistent", "Asia/Tokyo", "x", "60"]).prop_map(String::from),
            gen::text().prop_map(|t| t.replace('\0', "")),
        ].prop_map(Variation::Environment),
        1 => Just(Variation::MultiThread),
        2 => Just(Variation::Region),
        2 => Just(Variation::Start),
    ]
    .boxed()
}

fn with_env<R>(k: &str, v: &str, f: impl FnOnce() -> R) -> R {
    let old = std::env::var_os(k);
    std::env::set_var(k, v);
    let r = f();
    match old {
        Some(o) => std::env::set_var(k, o),
        None => std::env::remove_var(k),
    }
    r
}

pub struct C20;
impl Prop for C20 {
    type Case = PureCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "A URL or signed form and one to four variations of everything that is not an argument (repetition, clones, calls made before, clock, time zone, environment, threads) or of the spelling of a default (region 'auto', start = now). Every rerun must give the identical result. Non-trivial: some variation other than mere repetition applies.";
    const ASSUMPTIONS: &'static [&'static str] = &["the environment is varied through getenv, for any name (a listing of the environment only over 30 names that cloud and HTTP libraries read)"];
    const QUICK: u32 = 24_000;
    const SHRINK_ITERS: u32 = 2000;
    fn strategy() -> BoxedStrategy<PureCase> {
        (args(), vec(variation(), 1..5)).prop_map(|(args, variations)| PureCase { args, variations }).boxed()
    }
    fn check(c: &PureCase, obs: &mut Obs) -> Result<(), String> {
        let now = c.args.now();
        clock::set(now.s, now.n);
        let key = c.args.key();
        let first = c.args.run(key.clone(), 1).map_err(|e| format!("rejected: {e}"))?;
        if let Args::Url(u) = &c.args {
            // a wrong but constant result would hide a dependence on earlier calls
            oracle::wire_verify(&first, &u.method, &u.headers, u.region_str(), keys::public(u.key))?;
        }
        for v in &c.variations {
            clock::set(now.s, now.n);
            let name = format!("{v:?}");
            let name = name.split(|ch: char| !ch.is_alphabetic()).next().unwrap().to_string();
            let again = match v {
                Variation::Again => c.args.run(c.args.key(), 1),
                Variation::Clone => {
                    obs.nontrivial();
                    match &c.args {
                        Args::Url(u) => {
                            let o = u.options(key.clone(), false);
                            let o2 = o.clone();
                            drop(o);
                            block_on(css::build_signed_url(o2)).map_err(|e| e.to_string())
                        }
                        Args::Form(_) => c.args.run(key.clone().clone(), 1),
                    }
                }
                Variation::After(before) => {
                    obs.nontrivial();
                    for b in before {
                        let k = if b.same_key {
                            key.clone()
                        } else {
                            // the same e-mail with another private key
                            let (e, i) = match &c.args {
                                Args::Url(u) => (u.email.clone(), u.key),
                                Args::Form(f) => (f.opts.as_ref().unwrap().email.clone(), f.opts.as_ref().unwrap().key),
                            };
                            css::SigningKey::service_account(e, keys::PEMS[(i + 1) % 2].to_string())
                        };
                        let k = if b.spoil == SPOILS - 1 { css::SigningKey::hmac("a".into(), "b".into()) } else { k };
                        let a = b.spoiled();
                        let n = a.now();
                        clock::set(n.s, n.n);
                        if b.dropped {
                            drop(a.call(k));
                            continue;
                        }
                        let r = block_on(a.call(k));
                        obs.class_if(r.is_err(), "after a call that failed");
                        if b.spoil == 0 {
                            r.map_err(|e| format!("rejected: {e}"))?;
                        }
                    }
                    clock::set(now.s, now.n);
                    // what a call leaves behind may belong to its thread
                    let here = block_on(c.args.call(key.clone()));
                    if here.as_ref() != Ok(&first) {
                        return Err(format!("after {before:?} on the same thread the result is {here:?} instead of {first}"));
                    }
                    clock::set(now.s, now.n);
                    c.args.run(key.clone(), 1)
                }
                Variation::Clock(t, step) => {
                    let mut a = c.args.clone();
                    if a.start().0.is_none() {
                        continue;
                    }
                    obs.nontrivial();
                    *a.start().1 = *t;
                    clock::set(t.s, t.n);
                    clock::set_step(*step);
                    a.run(key.clone(), 1)
                }
                Variation::Zone(z) => {
                    obs.nontrivial();
                    with_env("TZ", z, || c.args.run(c.args.key(), 1))
                }
                Variation::Env(k, v) => {
                    obs.nontrivial();
                    with_env(k, v, || c.args.run(c.args.key(), 1))
                }
                Variation::Environment(v) => {
                    obs.nontrivial();
                    let (r, names) = clock::env::odd(v, || c.args.run(c.args.key(), 1));
                    if r.as_ref() != Ok(&first) {
                        return Err(format!("with every environment variable set to {v:?} (read: {names:?}) the result is {r:?} instead of {first}"));
                    }
                    r
                }
                Variation::MultiThread => {
                    obs.nontrivial();
                    c.args.run(key.clone(), 2)
                }
                Variation::Region => {
                    let mut a = c.args.clone();
                    let r = a.region();
                    *r = match r.as_deref() {
                        None => Some("auto".into()),
                        Some("auto") => None,
                        _ => continue,
                    };
                    obs.nontrivial();
                    a.run(key.clone(), 1)
                }
                Variation::Start => {
                    obs.nontrivial();
                    let mut a = c.args.clone();
                    let (s, n) = a.start();
                    match *s {
                        None => *s = Some(*n),
                        Some(t) => {
                            *s = None;
                            *n = t;
                        }
                    }
                    let n = *n;
                    clock::set(n.s, n.n);
                    a.run(key.clone(), 1)
                }
            };
            obs.class(name);
            let again = again.map_err(|e| format!("{v:?}: rejected: {e}"))?;
            if again != first {
                return Err(format!("{v:?} changes the result: {first}\nbecomes {again}"));
            }
        }
        Ok(())
    }
}
