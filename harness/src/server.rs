//! Scripted metadata server and signBlob service on loopback.
use crate::{clock, keys, oracle, types::Ts};
use cloud_storage_signature as css;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ep {
    Email,
    Token,
    Blob,
    Other,
}

/// How one request is answered.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// healthy answers in other clothes
    Chunked,
    ExtraMembers,
    Status(u16, String),
    /// connection closed without a byte
    Close,
    /// headers promise more than is sent
    Truncate(u8),
    /// 200 with this body
    Body(String),
    /// 200, the valid body cut after this many bytes, with a matching length
    Cut(u8),
    /// the answer is not HTTP
    Garbage,
    /// 200 with this body
    Bytes(Vec<u8>),
    /// the whole answer
    Raw(Vec<u8>),
    /// never answered
    Stall,
}

impl Fault {
    pub fn healthy(&self) -> bool {
        matches!(self, Fault::None | Fault::Chunked | Fault::ExtraMembers)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Sig {
    /// SHA-256 of the payload: shows which payload was signed
    Digest,
    /// signed with the nth test key
    Key(usize),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub server: usize,
    pub ep: Ep,
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub fault: Fault,
    /// token handed out by this request, with its lifetime
    pub issued: Option<(String, u64)>,
    pub email: Option<String>,
    pub started: u64,
    pub finished: Option<u64>,
    /// virtual clock when the request arrived and when it was answered
    pub vstart: i128,
    pub vend: Option<i128>,
}

impl Entry {
    pub fn header(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str()).collect()
    }
    pub fn bearer(&self) -> Result<String, String> {
        match self.header("authorization")[..] {
            [v] => v.strip_prefix("Bearer ").map(String::from).ok_or_else(|| format!("authorization is {v:?}")),
            ref v => Err(format!("{} authorization headers", v.len())),
        }
    }
    pub fn payload(&self) -> Result<Vec<u8>, String> {
        let v: serde_json::Value = serde_json::from_slice(&self.body).map_err(|e| format!("signBlob body: {e}"))?;
        oracle::b64_decode(v.get("payload").and_then(|p| p.as_str()).ok_or("signBlob body has no payload")?)
    }
    /// e-mail named by the signBlob path
    pub fn account(&self) -> Result<String, String> {
        let p = self.target.split('?').next().unwrap();
        let e = p
            .strip_prefix("/blob/v1/projects/-/serviceAccounts/")
            .and_then(|p| p.strip_suffix(":signBlob"))
            .ok_or_else(|| format!("signBlob path is {p:?}"))?;
        oracle::pct_decode_str(e)
    }
}

pub struct State {
    pub email: String,
    pub token_prefix: String,
    pub issued: u64,
    pub lifetime: u64,
    /// used before `lifetime`
    pub lifetimes: VecDeque<u64>,
    pub sig: Sig,
    pub email_faults: VecDeque<Fault>,
    pub token_faults: VecDeque<Fault>,
    pub blob_faults: VecDeque<Fault>,
    /// milliseconds before each answer, used in turn
    pub latency: VecDeque<u64>,
    /// nanoseconds by which the virtual clock moves before each answer, used in turn
    pub drift: VecDeque<i64>,
    pub log: Vec<Entry>,
    pub clock: u64,
    /// set when a stalled request has arrived
    pub stalled: bool,
    /// requests that are not answered while this is set
    pub hold: Vec<Hold>,
    /// connections are kept open after plain answers
    pub keep: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Hold {
    Email,
    Token,
    /// of this account
    Blob(String),
}

#[derive(Clone)]
pub struct Server {
    pub state: Arc<Mutex<State>>,
    pub notify: Arc<tokio::sync::Notify>,
    pub addr: std::net::SocketAddr,
}

/// Every server gets a loopback address of its own and one fixed port, so that connections of earlier servers
/// cannot reach it and no ephemeral ports are used up by listeners.
pub async fn listen() -> (TcpListener, std::net::SocketAddr) {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let mut last = None;
    for _ in 0..200 {
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let (b, c) = ((n / 250 % 250) as u8, (n % 250) as u8 + 1);
        let a = std::net::Ipv4Addr::new(127, 16 + (std::process::id() % 200) as u8, b, c);
        match TcpListener::bind((a, 20_080)).await {
            Ok(l) => {
                let addr = l.local_addr().unwrap();
                return (l, addr);
            }
            Err(e) => last = Some(e),
        }
    }
    match TcpListener::bind("127.0.0.1:0").await {
        Ok(l) => {
            let addr = l.local_addr().unwrap();
            (l, addr)
        }
        Err(e) => crate::runner::give_up(&format!("no loopback listener: {e}, {last:?}")),
    }
}

impl Server {
    /// Must run inside a tokio runtime.
    pub async fn start(index: usize) -> Server {
        let (listener, addr) = listen().await;
        let state = Arc::new(Mutex::new(State {
            email: "sa@p.iam.gserviceaccount.com".into(),
            token_prefix: "ya29.tok".into(),
            issued: 0,
            lifetime: 3600,
            lifetimes: VecDeque::new(),
            sig: Sig::Digest,
            email_faults: VecDeque::new(),
            token_faults: VecDeque::new(),
            blob_faults: VecDeque::new(),
            latency: VecDeque::new(),
            drift: VecDeque::new(),
            log: vec![],
            clock: 0,
            stalled: false,
            hold: vec![],
            keep: false,
        }));
        let s = Server { state, notify: Arc::new(tokio::sync::Notify::new()), addr };
        let t = s.clone();
        tokio::spawn(async move {
            while let Ok((sock, _)) = listener.accept().await {
                let t = t.clone();
                tokio::spawn(async move {
                    let _ = t.serve(sock, index).await;
                });
            }
        });
        s
    }

    /// A bound-token key whose metadata server this is.
    pub fn key(&self) -> css::SigningKey {
        std::env::set_var("GCE_METADATA_HOST", self.addr.to_string());
        let k = css::SigningKey::bound_token();
        std::env::remove_var("GCE_METADATA_HOST");
        k
    }

    pub fn redirect_sign_blob(&self) {
        css::vp_hooks::set_sign_blob_base_url(Some(format!("http://{}/blob", self.addr)));
    }

    pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        f(&mut self.state.lock().unwrap())
    }

    /// Waits until a request is being left unanswered.
    pub async fn until_stalled(&self) {
        while !self.with(|s| std::mem::take(&mut s.stalled)) {
            self.notify.notified().await;
        }
    }

    /// Forgets every fault, latency and drift not used yet.
    pub fn calm(&self) {
        self.with(|s| {
            s.email_faults.clear();
            s.token_faults.clear();
            s.blob_faults.clear();
            s.lifetimes.clear();
            s.latency.clear();
            s.drift.clear();
        });
    }

    pub fn log_len(&self) -> usize {
        self.with(|s| s.log.len())
    }

    pub fn log_from(&self, i: usize) -> Vec<Entry> {
        self.with(|s| s.log[i..].to_vec())
    }

    /// Requests of calls that were dropped or gave up early may still be on their way: lets them arrive.
    pub async fn settle(&self) {
        for _ in 0..3 {
            let _ = tokio::time::timeout(Duration::from_secs(5), async {
                let mut c = TcpStream::connect(self.addr).await?;
                c.write_all(b"GET /vp-ping HTTP/1.1\r\n\r\n").await?;
                let mut tmp = [0u8; 64];
                while c.read(&mut tmp).await? > 0 {}
                std::io::Result::Ok(())
            })
            .await;
        }
    }

    async fn serve(&self, mut sock: TcpStream, index: usize) -> std::io::Result<()> {
        while self.serve_one(&mut sock, index).await? {}
        sock.shutdown().await
    }

    /// Answers a request; says whether there may be another.
    async fn serve_one(&self, sock: &mut TcpStream, index: usize) -> std::io::Result<bool> {
        let mut buf = vec![];
        let mut tmp = [0u8; 4096];
        let head_end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            let n = sock.read(&mut tmp).await?;
            if n == 0 {
                return Ok(false);
            }
            buf.extend_from_slice(&tmp[..n]);
        };
        let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        let method = first.next().unwrap_or("").to_string();
        let target = first.next().unwrap_or("").to_string();
        let headers: Vec<(String, String)> = lines
            .filter_map(|l| l.split_once(':'))
            .map(|(k, v)| (k.trim().to_string(), v.trim().to_string()))
            .collect();
        let len: usize = headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
            .and_then(|(_, v)| v.parse().ok())
            .unwrap_or(0);
        let mut body = buf[head_end + 4..].to_vec();
        while body.len() < len {
            let n = sock.read(&mut tmp).await?;
            if n == 0 {
                return Ok(false);
            }
            body.extend_from_slice(&tmp[..n]);
        }
        let path = target.split('?').next().unwrap().to_string();
        if path == "/vp-ping" {
            sock.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n").await?;
            return Ok(false);
        }
        let ep = if path.starts_with("/blob/") {
            Ep::Blob
        } else if path == "/computeMetadata/v1/instance/service-accounts/default/email" {
            Ep::Email
        } else if path == "/computeMetadata/v1/instance/service-accounts/default/token" {
            Ep::Token
        } else {
            Ep::Other
        };
        let flavor = headers.iter().any(|(k, v)| k.eq_ignore_ascii_case("metadata-flavor") && v == "Google");
        let (id, fault, latency) = self.with(|s| {
            let mut fault = match ep {
                Ep::Email => s.email_faults.pop_front(),
                Ep::Token => s.token_faults.pop_front(),
                Ep::Blob => s.blob_faults.pop_front(),
                Ep::Other => Some(Fault::Status(404, String::new())),
            }
            .unwrap_or(Fault::None);
            if matches!(ep, Ep::Email | Ep::Token) && !flavor {
                fault = Fault::Status(403, "missing Metadata-Flavor".into());
            }
            s.clock += 1;
            s.log.push(Entry {
                server: index,
                ep,
                method,
                target,
                headers,
                body,
                fault: fault.clone(),
                issued: None,
                email: None,
                started: s.clock,
                finished: None,
                vstart: clock::peek(),
                vend: None,
            });
            (s.log.len() - 1, fault, s.latency.pop_front().unwrap_or(0))
        });
        if latency > 0 {
            tokio::time::sleep(Duration::from_millis(latency)).await;
        }
        while self.with(|s| {
            let e = &s.log[id];
            s.hold.iter().any(|h| match h {
                Hold::Email => e.ep == Ep::Email,
                Hold::Token => e.ep == Ep::Token,
                Hold::Blob(a) => e.ep == Ep::Blob && e.account().as_ref() == Ok(a),
            })
        }) {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        if fault == Fault::Stall {
            self.with(|s| s.stalled = true);
            self.notify.notify_one();
            // until the client goes away
            let _ = sock.read(&mut tmp).await;
            return Ok(false);
        }
        let extra = fault == Fault::ExtraMembers;
        let good = self.with(|s| {
            if let Some(d) = s.drift.pop_front() {
                clock::advance(d as i128);
            }
            let e = &mut s.log[id];
            e.vend = Some(clock::peek());
            let good = match ep {
                Ep::Email => {
                    e.email = Some(s.email.clone());
                    s.email.clone()
                }
                Ep::Token => {
                    s.issued += 1;
                    let token = format!("{}-{}", s.token_prefix, s.issued);
                    let lifetime = s.lifetimes.pop_front().unwrap_or(s.lifetime);
                    e.issued = Some((token.clone(), lifetime));
                    if extra {
                        format!(
                            "\n{{ \"scope\":[\"a\",{{\"access_token\":1}}], \"token_type\" : \"Bearer\",\r\n\"expires_in\":{},\"access_token\":{},\"id_token\":null }}\n",
                            lifetime,
                            serde_json::to_string(&token).unwrap()
                        )
                    } else {
                        serde_json::json!({"access_token": token, "expires_in": lifetime, "token_type": "Bearer"}).to_string()
                    }
                }
                Ep::Blob => {
                    let payload = e.payload().unwrap_or_default();
                    let sig = match &s.sig {
                        Sig::Digest => ring::digest::digest(&ring::digest::SHA256, &payload).as_ref().to_vec(),
                        Sig::Key(i) => keys::sign(*i, &payload),
                        Sig::Raw(v) => v.clone(),
                    };
                    if extra {
                        format!("{{\"x\":{{}},\"signedBlob\" : \"{}\", \"keyId\":\"k\"}}", oracle::b64_encode(&sig))
                    } else {
                        serde_json::json!({"keyId": "k", "signedBlob": oracle::b64_encode(&sig)}).to_string()
                    }
                }
                Ep::Other => String::new(),
            };
            s.clock += 1;
            let t = s.clock;
            s.log[id].finished = Some(t);
            good
        });
        let ctype = if ep == Ep::Email { "application/text" } else { "application/json" };
        let keep = self.with(|s| s.keep) && matches!(fault, Fault::None | Fault::ExtraMembers | Fault::Status(..) | Fault::Body(_) | Fault::Cut(_));
        let connection = if keep { "keep-alive" } else { "close" };
        let plain = |status: u16, body: &str| -> Vec<u8> {
            format!(
                "HTTP/1.1 {status} X\r\nMetadata-Flavor: Google\r\nContent-Type: {ctype}\r\nContent-Length: {}\r\nConnection: {connection}\r\n\r\n{body}",
                body.len()
            )
            .into_bytes()
        };
        let out = match &fault {
            Fault::None | Fault::ExtraMembers => plain(200, &good),
            Fault::Chunked => {
                let mut o = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".to_vec();
                for c in good.as_bytes().chunks(7) {
                    o.extend(format!("{:x}\r\n", c.len()).bytes());
                    o.extend(c);
                    o.extend(b"\r\n");
                }
                o.extend(b"0\r\n\r\n");
                o
            }
            Fault::Status(n, body) => plain(*n, body),
            Fault::Body(b) => plain(200, b),
            Fault::Cut(n) => plain(200, &good.chars().take(*n as usize).collect::<String>()),
            Fault::Truncate(n) => {
                let full = plain(200, &good);
                let keep = full.len().saturating_sub(1 + *n as usize % good.len().max(1));
                full[..keep].to_vec()
            }
            Fault::Close => vec![],
            Fault::Bytes(b) => {
                let mut o = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", b.len()).into_bytes();
                o.extend(b);
                o
            }
            Fault::Raw(b) => b.clone(),
            Fault::Garbage => b"\x16\x03\x01 not http\r\n\r\n".to_vec(),
            Fault::Stall => unreachable!(),
        };
        sock.write_all(&out).await?;
        Ok(keep)
    }
}

pub fn runtime(threads: usize) -> tokio::runtime::Runtime {
    let mut b = if threads <= 1 {
        tokio::runtime::Builder::new_current_thread()
    } else {
        let mut b = tokio::runtime::Builder::new_multi_thread();
        b.worker_threads(threads);
        b
    };
    b.enable_all().build().expect("runtime")
}

/// Longest time any call may take while the services answer at once.
pub const PATIENCE: Duration = Duration::from_secs(60);

pub async fn patient<F: Future>(f: F) -> Result<F::Output, String> {
    tokio::time::timeout(PATIENCE, f).await.map_err(|_| format!("call did not return within {PATIENCE:?}"))
}

/// One call against healthy services.
pub fn with_healthy<R, F: Future<Output = R>>(f: impl FnOnce(Server, css::SigningKey) -> F, now: Ts) -> R {
    let rt = runtime(1);
    clock::set(now.s, now.n);
    let r = rt.block_on(async {
        let s = Server::start(0).await;
        s.redirect_sign_blob();
        let key = s.key();
        f(s, key).await
    });
    clock::off();
    r
}
