//! C23: whom a call contacts.
use super::service::Ask;
use super::url::bad_pem;
use crate::clock;
use crate::gen;
use crate::keys;
use crate::runner::{Obs, Prop};
use crate::server::{self, Fault, Ep, Server};
use crate::sys::{self, Event, Route};
use crate::types::*;
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

const HOST: &str = "GCE_METADATA_HOST";
const IAM: &str = "iamcredentials.googleapis.com";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Args {
    Url(UrlCase),
    Form(FormCase),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LocalKey {
    Good,
    Bad(String),
    Hmac(String, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Host {
    /// the variable is not set
    Default,
    Name(String, Option<u16>),
    Address(Option<u16>),
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum Trouble {
    #[default]
    None,
    /// the name of the metadata server cannot be looked up
    NoName,
    /// it refuses the connection
    Refused,
    Email(Fault),
    Token(Fault),
    Blob(Fault),
}

/// What any variable says that the code asks for.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum Env {
    #[default]
    Real,
    /// a good key file
    File,
    Directory,
    Url,
    One,
}
impl Env {
    fn run<R>(self, decoy: &std::path::Path, f: impl FnOnce() -> R) -> R {
        let v = match self {
            Env::Real => return f(),
            Env::File => decoy.to_string_lossy().into_owned(),
            Env::Directory => "/tmp".into(),
            Env::Url => "http://127.0.0.1:9/".into(),
            Env::One => "1".into(),
        };
        clock::env::odd(&v, f).0
    }
}

/// A key file of this process that nothing refers to but variables.
fn decoy() -> &'static std::path::Path {
    struct Decoy(std::path::PathBuf);
    static DECOY: std::sync::OnceLock<Decoy> = std::sync::OnceLock::new();
    &DECOY.get_or_init(|| Decoy(std::env::temp_dir().join(format!("csig-net-{}-decoy.json", std::process::id())))).0
}

/// The file exists as long as this does.
struct There;
impl There {
    fn new() -> There {
        let _ = std::fs::write(decoy(), serde_json::json!({"client_email": "decoy@example.com", "private_key": keys::PEMS[0]}).to_string());
        There
    }
}
impl Drop for There {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(decoy());
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum NetCase {
    Local {
        args: Args,
        key: LocalKey,
        sign_blob: bool,
        spoil: u8,
        #[serde(default)]
        env: Env,
    },
    /// a key from JSON text, or a file of it, then a call with that key
    Load {
        pem: Option<String>,
        broken: bool,
        file: bool,
        ask: Ask,
        /// there is no such file
        #[serde(default)]
        missing: bool,
        #[serde(default)]
        env: Env,
    },
    /// creating bound-token keys
    Create(Vec<Option<String>>),
    Remote {
        host: Host,
        /// what the variable says by the time of the calls
        later: Option<String>,
        asks: Vec<Ask>,
        lifetime: u64,
        /// clock advances before each call, in seconds
        pause: Vec<u32>,
        /// what goes wrong in every call
        #[serde(default)]
        trouble: Trouble,
        /// signBlob redirected to the scripted service; or else to a listener that only takes down what it receives
        redirected: bool,
    },
}

/// Everything but printing.
fn contacts(events: &[Event]) -> Vec<&Event> {
    events.iter().filter(|e| !matches!(e, Event::Print(_))).collect()
}

fn nothing(events: &[Event], what: &str) -> Result<(), String> {
    match contacts(events)[..] {
        [] => Ok(()),
        ref v => Err(format!("{what} does {v:?}")),
    }
}

/// Runs without the harness's own servers around; gives whether it succeeded.
fn local<F: std::future::Future<Output = bool>>(rt: &tokio::runtime::Runtime, f: F) -> (bool, Vec<Event>) {
    let w = sys::watch(vec![]);
    let ok = rt.block_on(f);
    (ok, w.finish())
}

fn with_host<R>(v: Option<&str>, f: impl FnOnce() -> R) -> R {
    match v {
        Some(v) => std::env::set_var(HOST, v),
        None => std::env::remove_var(HOST),
    }
    let r = f();
    std::env::remove_var(HOST);
    r
}

fn label() -> BoxedStrategy<String> {
    (gen::chars("abcdefghijklmnopqrstuvwxyz", 1..=1), gen::chars("abcxyz0123456789-", 0..=8), gen::chars("abcxyz", 1..=1)).prop_map(|(a, b, c)| a + &b + &c).boxed()
}

pub struct C23;
impl Prop for C23 {
    type Case = NetCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "Local calls (URLs and forms, valid and spoilt, good and bad service-account keys, HMAC keys, unsigned forms, signBlob asked for where it is not supported), keys loaded from text and files (there or not), any environment variable set to a key file's path or an address, creation of bound-token keys, and histories of up to four bound-token calls with GCE_METADATA_HOST unset, a name or an address, with and without a port, and changed after the key was made. Name lookups, sockets, connections, opened files and started programs are recorded from inside the process; lookups are answered from a table. Without the redirection of signBlob the bytes sent to its address are kept. Non-trivial: a signing key was used.";
    const ASSUMPTIONS: &'static [&'static str] = &["no proxy is configured", "opens under /dev, /proc and /sys are the runtime's", "an empty or malformed GCE_METADATA_HOST is left open"];
    const QUICK: u32 = 80_000;
    const SHRINK_ITERS: u32 = 1500;
    fn strategy() -> BoxedStrategy<NetCase> {
        let key = prop_oneof![
            5 => Just(LocalKey::Good),
            2 => bad_pem().prop_map(LocalKey::Bad),
            1 => (gen::text(), gen::text()).prop_map(|(a, b)| LocalKey::Hmac(a, b)),
        ];
        let ask = || (any::<bool>(), 0u16..50, any::<bool>()).prop_map(|(form, tag, start)| Ask { form, tag, start });
        let port = || prop::option::weighted(0.5, prop_oneof![select(vec![80u16, 443, 8080, 1, 65535]), 1u16..65535]);
        let name = prop_oneof![
            3 => vec(label(), 1..4).prop_map(|v| v.join(".")),
            1 => select(vec!["metadata", "metadata.google.internal", "localhost", "metadata.google.internal.", "iamcredentials.example", "storage.googleapis.com"]).prop_map(String::from),
        ];
        let env = || prop_oneof![2 => Just(Env::Real), 3 => select(vec![Env::File, Env::File, Env::Directory, Env::Url, Env::One])];
        let later = prop_oneof![2 => Just(None), 1 => select(vec!["other.example", "127.0.0.1:9", "metadata", "metadata.google.internal", ""]).prop_map(|s| Some(s.to_string()))];
        prop_oneof![
            6 => (prop_oneof![gen::url_case().prop_map(Args::Url), gen::form_case(false).prop_map(Args::Form)], key, prop::bool::weighted(0.15), prop_oneof![3 => Just(0u8), 1 => 1u8..6], env())
                .prop_map(|(mut args, key, sign_blob, spoil, env)| {
                    match &mut args {
                        Args::Url(u) => match spoil {
                            1 => u.method = "PATCH".into(),
                            2 => u.headers.push(("a b".into(), "c".into())),
                            3 => u.expires = Ts { s: u.start_eff().s - 1, n: 0 },
                            4 => u.object = "..".into(),
                            5 => u.bucket = String::new(),
                            _ => {}
                        },
                        Args::Form(f) => match (spoil, f.opts.as_mut()) {
                            (1, _) => f.sets.retain(|s| !matches!(s, Set::Key(_))),
                            (2, _) => f.sets.retain(|s| !matches!(s, Set::Bucket(_))),
                            (3, Some(o)) => o.expiration = Ts { s: -1, n: 0 },
                            (4, _) => f.sets.push(Set::Meta(String::new(), "v".into())),
                            _ => {}
                        },
                    }
                    NetCase::Local { args, key, sign_blob, spoil, env }
                }),
            1 => (prop::option::weighted(0.3, bad_pem()), prop::bool::weighted(0.3), any::<bool>(), ask(), prop::bool::weighted(0.3), env()).prop_map(|(pem, broken, file, ask, missing, env)| NetCase::Load { pem, broken, file, ask, missing, env }),
            1 => vec(prop::option::of(prop_oneof![label(), gen::text().prop_map(|t| t.replace('\0', ""))]), 1..4).prop_map(NetCase::Create),
            6 => (
                prop_oneof![2 => Just(Host::Default), 4 => (name, port()).prop_map(|(n, p)| Host::Name(n, p)), 1 => port().prop_map(Host::Address)],
                later,
                vec(ask(), 1..5),
                prop_oneof![2 => Just(3600u64), 1 => select(vec![0u64, 30, 31, 60])],
                vec(prop_oneof![2 => Just(0u32), 1 => select(vec![1u32, 30, 3600, 4000])], 4),
                prop::bool::weighted(0.7),
                prop_oneof![
                    6 => Just(Trouble::None),
                    1 => select(vec![Trouble::NoName, Trouble::Refused, Trouble::Refused]),
                    1 => super::service::email_fault().prop_map(Trouble::Email),
                    1 => super::service::token_fault().prop_map(Trouble::Token),
                    1 => super::service::blob_fault().prop_map(Trouble::Blob),
                ],
            ).prop_map(|(host, later, asks, lifetime, pause, redirected, trouble)| {
                let redirected = redirected || matches!(trouble, Trouble::Blob(_));
                let trouble = match (&host, trouble) {
                    (Host::Address(_), Trouble::NoName) => Trouble::Refused,
                    (_, t) => t,
                };
                NetCase::Remote { host, later, asks, lifetime, pause, trouble, redirected }
            }),
        ]
        .boxed()
    }
    fn check(c: &NetCase, obs: &mut Obs) -> Result<(), String> {
        let rt = server::runtime(1);
        match c {
            NetCase::Local { args, key, sign_blob, spoil, env } => {
                let _decoy = (*env == Env::File).then(There::new);
                let (email, good, now) = match args {
                    Args::Url(u) => (u.email.clone(), Some(u.sa_key()), u.now),
                    Args::Form(f) => (f.opts.as_ref().map(|o| o.email.clone()).unwrap_or_default(), f.sa_key(), f.now),
                };
                clock::set(now.s, now.n);
                let key = match key {
                    LocalKey::Good => good,
                    LocalKey::Bad(p) => Some(css::SigningKey::service_account(email, p.clone())),
                    LocalKey::Hmac(a, s) => Some(css::SigningKey::hmac(a.clone(), s.clone())),
                };
                let (ok, events) = env.run(decoy(), || {
                    local(&rt, async {
                        match args {
                            Args::Url(u) => css::build_signed_url(u.options(key.unwrap(), *sign_blob)).await.is_ok(),
                            Args::Form(f) => f.builder(key, *sign_blob).build().await.is_ok(),
                        }
                    })
                });
                let signing = match args {
                    Args::Url(_) => true,
                    Args::Form(f) => f.opts.is_some(),
                };
                obs.class(match (signing, ok) {
                    (false, _) => "unsigned form",
                    (_, true) => "signed locally",
                    _ => "local call that fails",
                });
                obs.class_if(*spoil != 0, "spoilt request");
                obs.nontrivial_if(signing);
                nothing(&events, if ok { "a local call" } else { "a local call that fails" })
            }
            NetCase::Load { pem, broken, file, ask, missing, env } => {
                let _decoy = (*env == Env::File).then(There::new);
                clock::set(1_700_000_000, 0);
                obs.class(if *file { "key from a file" } else { "key from text" });
                obs.nontrivial();
                let mut text = serde_json::json!({"type": "service_account", "project_id": "p", "private_key_id": "0", "client_email": "sa@example.com",
                    "client_id": "1", "auth_uri": "https://accounts.google.com/o/oauth2/auth", "token_uri": "https://oauth2.googleapis.com/token", "universe_domain": "googleapis.com",
                    "client_x509_cert_url": "https://www.googleapis.com/robot/v1/metadata/x509/sa", "private_key": pem.as_deref().unwrap_or(keys::PEMS[0])}).to_string();
                if *broken {
                    text = text.chars().take(text.chars().count() / 2).collect();
                }
                let path = std::env::temp_dir().join(format!("csig-net-{}.json", std::process::id()));
                if *file && !*missing {
                    std::fs::write(&path, &text).map_err(|e| crate::runner::give_up(&format!("{}: {e}", path.display()))).unwrap();
                }
                let w = sys::watch(vec![]);
                let key = env.run(decoy(), || if *file { css::SigningKey::service_account_from_path(&path) } else { css::SigningKey::service_account_from_str(&text) });
                let events = w.finish();
                if *file {
                    let _ = std::fs::remove_file(&path);
                }
                let other: Vec<&Event> = contacts(&events).into_iter().filter(|e| !(*file && **e == Event::Open(path.to_string_lossy().into_owned()))).collect();
                if !other.is_empty() {
                    return Err(format!("loading a key does {other:?}"));
                }
                if let Ok(key) = key {
                    let (_, events) = env.run(decoy(), || local(&rt, async { ask.run(key, false).await.is_ok() }));
                    nothing(&events, "signing with the loaded key")?;
                }
                Ok(())
            }
            NetCase::Create(hosts) => {
                obs.class("keys created");
                for h in hosts {
                    let (_, events) = with_host(h.as_deref(), || {
                        local(&rt, async {
                            let k = css::SigningKey::bound_token();
                            drop(k.clone());
                            // nothing may be going on behind it either
                            tokio::task::yield_now().await;
                            true
                        })
                    });
                    nothing(&events, "creating a bound-token key")?;
                }
                Ok(())
            }
            NetCase::Remote { host, later, asks, lifetime, pause, trouble, redirected } => {
                obs.nontrivial();
                obs.class_if(*trouble != Trouble::None, "with a failure");
                obs.class(match host {
                    Host::Default => "default metadata host",
                    Host::Name(..) => "named metadata host",
                    Host::Address(_) => "metadata address",
                });
                obs.class(if *redirected { "signBlob redirected" } else { "signBlob as it is" });
                obs.class_if(later.is_some(), "variable changed later");
                clock::set(1_700_000_000, 0);
                let r = rt.block_on(remote(host, later.as_deref(), asks, *lifetime, pause, trouble, *redirected, obs));
                std::env::remove_var(HOST);
                r
            }
        }
    }
}

async fn remote(host: &Host, later: Option<&str>, asks: &[Ask], lifetime: u64, pause: &[u32], trouble: &Trouble, redirected: bool, obs: &mut Obs) -> Result<(), String> {
    let srv = Server::start(0).await;
    srv.with(|s| {
        s.lifetime = lifetime;
        s.token_prefix = "ya29.secretive".into();
        let (q, f) = match trouble {
            Trouble::Email(f) => (&mut s.email_faults, f),
            Trouble::Token(f) => (&mut s.token_faults, f),
            Trouble::Blob(f) => (&mut s.blob_faults, f),
            _ => return,
        };
        // enough for every call
        q.extend(vec![f.clone(); 100]);
    });
    let std::net::IpAddr::V4(ip) = srv.addr.ip() else { unreachable!() };
    let (value, name, port) = match host {
        Host::Default => (None, "metadata.google.internal".to_string(), 80),
        Host::Name(n, p) => (Some(p.map_or(n.clone(), |p| format!("{n}:{p}"))), n.clone(), p.unwrap_or(80)),
        Host::Address(p) => (Some(p.map_or(ip.to_string(), |p| format!("{ip}:{p}"))), ip.to_string(), p.unwrap_or(80)),
    };
    let host_header = if port == 80 { name.clone() } else { format!("{name}:{port}") };
    let (tls, tls_addr) = server::listen().await;
    let std::net::IpAddr::V4(tls_ip) = tls_addr.ip() else { unreachable!() };
    let taken: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
    {
        let taken = taken.clone();
        tokio::spawn(async move {
            while let Ok((mut s, _)) = tls.accept().await {
                let mut b = vec![0; 16 * 1024];
                let n = tokio::io::AsyncReadExt::read(&mut s, &mut b).await.unwrap_or(0);
                taken.lock().unwrap().push(b[..n].to_vec());
            }
        });
    }
    if redirected {
        srv.redirect_sign_blob();
    } else {
        css::vp_hooks::set_sign_blob_base_url(None);
    }
    // nobody listens there
    let dead = 20_079;
    let mut routes = vec![
        Route { name: name.trim_end_matches('.').to_string(), addr: ip, ports: vec![(port, if *trouble == Trouble::Refused { dead } else { srv.addr.port() })] },
        Route { name: IAM.into(), addr: tls_ip, ports: vec![(443, tls_addr.port())] },
    ];
    if *trouble == Trouble::NoName {
        routes.remove(0);
    }
    let watch = sys::watch(routes);
    let key = with_host(value.as_deref(), css::SigningKey::bound_token);
    if let Some(l) = later {
        std::env::set_var(HOST, l);
    }
    for (i, ask) in asks.iter().enumerate() {
        clock::advance(*pause.get(i).unwrap_or(&0) as i128 * G);
        let (from, events_from, taken_from) = (srv.log_len(), watch.so_far().len(), taken.lock().unwrap().len());
        let r = server::patient(ask.run(key.clone(), true)).await?;
        let events = watch.so_far()[events_from..].to_vec();
        let log = srv.log_from(from);
        let metadata = format!("{ip}:{port}");
        let own_blob = format!("{ip}:{}", srv.addr.port());
        for e in &events {
            let fine = match e {
                Event::Lookup(n) => *n == name || (!redirected && n == IAM),
                Event::Socket(d, t) => (*d == libc::AF_INET || *d == libc::AF_INET6) && *t == libc::SOCK_STREAM,
                Event::Connect(a) => *a == metadata || (redirected && *a == own_blob) || (!redirected && *a == format!("{tls_ip}:443")),
                Event::Open(_) | Event::Print(_) => true,
                Event::Spawn(_) => false,
            };
            if !fine {
                return Err(format!("call {i} with {HOST} {value:?} does {e:?}; all it does: {:?}", contacts(&events)));
            }
        }
        let blobs = log.iter().filter(|e| e.ep == Ep::Blob).count();
        for e in &log {
            match e.ep {
                Ep::Email | Ep::Token => {
                    if e.header("host") != [host_header.as_str()] {
                        return Err(format!("{:?} request with Host {:?}, expected {host_header:?}", e.ep, e.header("host")));
                    }
                }
                Ep::Blob => {}
                Ep::Other => return Err(format!("the metadata server was asked for {}", e.target)),
            }
        }
        if *trouble != Trouble::None {
            if r.is_ok() {
                return Err(format!("call {i} with {HOST} {value:?} succeeds in spite of {trouble:?}; it does {:?}", contacts(&events)));
            }
            srv.settle().await;
            continue;
        }
        if redirected {
            if let Err(e) = r {
                return Err(format!("call {i} with {HOST} {value:?} fails though the services answer: {e}; it does {:?}", contacts(&events)));
            }
            if blobs != 1 {
                return Err(format!("call {i} makes {blobs} signBlob requests"));
            }
            continue;
        }
        // nobody can have signed it
        if r.is_ok() {
            return Err(format!("call {i} succeeds though signBlob was not reached"));
        }
        // the connection may be closed before the listener has read all of it
        tokio::task::yield_now().await;
        let took = taken.lock().unwrap()[taken_from..].to_vec();
        if took.is_empty() || !events.contains(&Event::Lookup(IAM.into())) {
            return Err(format!("call {i} does not turn to {IAM}:443; it does {:?}", contacts(&events)));
        }
        obs.count("TLS greetings", took.len() as u64);
        for t in &took {
            let has = |s: &[u8]| t.windows(s.len()).any(|w| w == s);
            if t.first() != Some(&0x16) || t.get(1) != Some(&3) || !has(IAM.as_bytes()) {
                return Err(format!("what call {i} sends to {IAM}:443 does not begin a TLS connection to it: {:?}", String::from_utf8_lossy(&t[..t.len().min(200)])));
            }
            if has(b"secretive") || has(b"signBlob") {
                return Err(format!("call {i} sends its request to {IAM} in the clear"));
            }
        }
    }
    let _ = watch.finish();
    Ok(())
}
