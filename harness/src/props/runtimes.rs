//! C27: a key works on any runtime and thread, whatever became of others.
use super::service::{identity, sha256, Ask};
use crate::clock;
use crate::runner::{Obs, Prop};
use crate::server::{self, Ep, Hold, Server};
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    CurrentThread,
    MultiThread,
    LocalSet,
    /// the thread has entered a runtime that others drive, and runs the future on its own
    Entered,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    Finish,
    /// the runtime ends while its calls are under way
    Drop,
    Shutdown,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Group {
    pub kind: Kind,
    pub calls: u8,
    pub end: End,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Held {
    Nothing,
    Email,
    Token,
    Blob,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    /// each has a runtime and a thread of its own, at the same time
    pub groups: Vec<Group>,
    /// what is not answered until the runtimes that end early have ended
    pub held: Held,
    /// seconds before
    pub pause: u32,
    pub lifetime: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RuntimeCase {
    pub rounds: Vec<Round>,
    /// the services keep connections open
    pub keep: bool,
    /// the key is made inside a runtime, one that ends
    pub inside: bool,
    pub forms: u64,
}

const SOON: Duration = Duration::from_secs(20);

/// Runs the calls of a group on the current thread; gives what is wrong.
fn run(g: &Group, key: css::SigningKey, asks: Vec<Ask>, go: Arc<AtomicBool>, over: Arc<AtomicBool>) -> Result<(), String> {
    let all = {
        let end = g.end;
        async move {
            let local = asks.into_iter().map(|a| {
                let key = key.clone();
                async move {
                    let out = a.run(key, true).await.map_err(|e| format!("a call fails though every service answers: {e}"))?;
                    let s = a.signed(&out)?;
                    if s.email != identity(0) || s.signature != sha256(&s.message) {
                        return Err("a call has another's result".to_string());
                    }
                    Ok(())
                }
            });
            // spawned, so that each is a task of this runtime
            let mut jobs: Vec<_> = local.map(tokio::spawn).collect();
            if end != End::Finish {
                while !over.load(Ordering::SeqCst) {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
                return Ok(());
            }
            for j in jobs.drain(..) {
                j.await.map_err(|e| format!("a call ended with {e}"))??;
            }
            Ok(())
        }
    };
    while !go.load(Ordering::SeqCst) {
        std::thread::yield_now();
    }
    let rt = server::runtime(if g.kind == Kind::MultiThread { 2 } else { 1 });
    let r = match g.kind {
        Kind::CurrentThread | Kind::MultiThread => rt.block_on(all),
        Kind::LocalSet => tokio::task::LocalSet::new().block_on(&rt, all),
        Kind::Entered => {
            // driven from another thread until this one is done
            let (tx, rx) = tokio::sync::oneshot::channel::<()>();
            let handle = rt.handle().clone();
            let driver = std::thread::spawn(move || {
                rt.block_on(async {
                    let _ = rx.await;
                });
                rt
            });
            let r = {
                let _in = handle.enter();
                futures_block_on(all)
            };
            drop(tx);
            let rt = driver.join().map_err(|_| "the driver panicked")?;
            return ended(rt, g.end, r);
        }
    };
    ended(rt, g.end, r)
}

fn ended(rt: tokio::runtime::Runtime, end: End, r: Result<(), String>) -> Result<(), String> {
    match end {
        End::Shutdown => rt.shutdown_background(),
        _ => drop(rt),
    }
    r
}

/// A plain executor: parks the thread.
fn futures_block_on<F: std::future::Future>(f: F) -> F::Output {
    struct Unpark(std::thread::Thread);
    impl std::task::Wake for Unpark {
        fn wake(self: Arc<Self>) {
            self.0.unpark();
        }
    }
    let waker = Arc::new(Unpark(std::thread::current())).into();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::park();
    }
}

pub struct C27;
impl Prop for C27 {
    type Case = RuntimeCase;
    const ID: &'static str = "C27";
    const RULE: &'static str = "One bound-token key, made inside or outside a runtime, is used by one to four rounds of up to three runtimes at the same time, each with a thread of its own: one-threaded, two-threaded, with a LocalSet, or entered by a thread with an executor of its own. Some runtimes end while their calls wait for an e-mail, a token or a signature; the services then answer. Every call of the other runtimes, and of those that come later, returns its own result, and a token is fetched only when none is good: not because a runtime is another. Non-trivial: a call is made on another runtime than an earlier one.";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "20 s of real time are enough for what needs no waiting",
        "connections are kept open by the services only where no runtime ends while another one makes calls (the HTTP client drives a connection on the runtime that opened it)",
    ];
    const QUICK: u32 = 16_000;
    const SHRINK_ITERS: u32 = 30;
    fn strategy() -> BoxedStrategy<RuntimeCase> {
        let group = (
            select(vec![Kind::CurrentThread, Kind::CurrentThread, Kind::MultiThread, Kind::LocalSet, Kind::Entered]),
            prop_oneof![3 => 1u8..4, 1 => 4u8..12],
            select(vec![End::Finish, End::Finish, End::Drop, End::Shutdown]),
        )
            .prop_map(|(kind, calls, end)| Group { kind, calls, end });
        let round = (
            vec(group, 1..4),
            select(vec![Held::Nothing, Held::Email, Held::Token, Held::Blob]),
            select(vec![0u32, 0, 1, 4000]),
            select(vec![31u64, 3600, 3600, 86_400]),
        )
            .prop_map(|(groups, held, pause, lifetime)| Round { groups, held, pause, lifetime });
        (vec(round, 1..5), any::<bool>(), any::<bool>(), any::<u64>())
            .prop_map(|(mut rounds, keep, inside, forms)| {
                if keep {
                    // one after the other
                    for r in &mut rounds {
                        r.groups.truncate(1);
                    }
                }
                RuntimeCase { rounds, keep, inside, forms }
            })
            .boxed()
    }
    fn check(c: &RuntimeCase, obs: &mut Obs) -> Result<(), String> {
        clock::set(1_700_000_000, 250_000_000);
        let n = c.rounds.iter().map(|r| r.groups.len()).sum::<usize>();
        obs.nontrivial_if(n > 1);
        obs.class_if(c.keep, "connections kept open");
        let servers_rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let srv = servers_rt.block_on(Server::start(0));
        srv.redirect_sign_blob();
        srv.with(|s| {
            s.email = identity(0);
            s.keep = c.keep;
        });
        let key = if c.inside {
            let rt = server::runtime(1);
            rt.block_on(async { srv.key() })
        } else {
            srv.key()
        };
        let mut tag = 0;
        // when the token that the key has is no longer good; None: unknown
        let mut good_until: Option<i128> = Some(i128::MIN);
        let r = (|| {
            for r in &c.rounds {
                clock::advance(r.pause as i128 * 1_000_000_000);
                srv.with(|s| s.lifetime = r.lifetime);
                match r.held {
                    Held::Nothing => {}
                    Held::Email => srv.with(|s| s.hold.push(Hold::Email)),
                    Held::Token => srv.with(|s| s.hold.push(Hold::Token)),
                    Held::Blob => srv.with(|s| s.hold.push(Hold::Blob(identity(0)))),
                }
                let from = srv.log_len();
                let (go, over) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
                let (tx, rx) = mpsc::channel();
                for (i, g) in r.groups.iter().enumerate() {
                    let asks = (0..g.calls)
                        .map(|_| {
                            tag += 1;
                            Ask { form: c.forms >> (tag % 64) & 1 == 1, tag, start: tag % 3 > 0 }
                        })
                        .collect();
                    let (g, key, go, over, tx) = (g.clone(), key.clone(), go.clone(), over.clone(), tx.clone());
                    std::thread::spawn(move || {
                        let r = run(&g, key, asks, go, over);
                        let _ = tx.send((i, r));
                    });
                }
                drop(tx);
                go.store(true, Ordering::SeqCst);
                // what is held is being waited for
                let start = Instant::now();
                let some = |ep: Ep| srv.with(|s| s.log[from..].iter().any(|e| e.ep == ep));
                let now = clock::peek();
                let good = good_until.map(|g| now < g);
                let wanted = match r.held {
                    Held::Nothing => None,
                    Held::Email if good == Some(false) => Some(Ep::Email),
                    Held::Token if good == Some(false) => Some(Ep::Token),
                    Held::Blob => Some(Ep::Blob),
                    _ => None,
                };
                if let Some(ep) = wanted {
                    while !some(ep) {
                        if start.elapsed() > SOON {
                            return Err(format!("no {ep:?} request is made; {:?}", r.groups));
                        }
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
                std::thread::sleep(Duration::from_millis(1 + r.pause as u64 % 3));
                over.store(true, Ordering::SeqCst);
                let ended = r.groups.iter().filter(|g| g.end != End::Finish).count();
                let mut done = 0;
                let mut take = |n: usize| {
                    while done < n {
                        match rx.recv_timeout(SOON) {
                            Ok((_, r)) => r?,
                            Err(mpsc::RecvTimeoutError::Disconnected) => return Err("a thread of calls panicked".to_string()),
                            Err(mpsc::RecvTimeoutError::Timeout) => return Err(format!("a runtime does not come to its end: {:?}", r.groups)),
                        }
                        done += 1;
                    }
                    Ok(())
                };
                if r.held != Held::Nothing {
                    // a runtime that ends does so though nothing is answered
                    take(ended)?;
                    srv.with(|s| s.hold.clear());
                }
                take(r.groups.len())?;
                servers_rt.block_on(srv.settle());
                let fetched = srv.with(|s| s.log[from..].iter().filter(|e| e.ep == Ep::Token).count());
                obs.count("calls", r.groups.iter().map(|g| g.calls as u64).sum());
                obs.count("runtimes that end early", ended as u64);
                if good == Some(true) && fetched > 0 {
                    return Err(format!("{fetched} tokens are fetched by another runtime while the key's token is good"));
                }
                if good == Some(false) && ended == 0 && fetched != 1 {
                    return Err(format!("{fetched} tokens are fetched for calls of several runtimes, and one is needed"));
                }
                // the virtual clock stands still within a round
                if fetched > 0 {
                    good_until = (ended < r.groups.len()).then_some(now + (r.lifetime as i128 - 30) * 1_000_000_000);
                }
            }
            Ok(())
        })();
        srv.with(|s| s.hold.clear());
        servers_rt.shutdown_background();
        clock::off();
        r
    }
}
