//! C26: a call waits only for the services it needs.
use super::service::{identity, sha256, Ask, Out};
use crate::clock;
use crate::keys;
use crate::runner::{Obs, Prop};
use crate::server::{self, Ep, Hold, Server};
use cloud_storage_signature as css;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use tokio::task::JoinHandle;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Token {
    None,
    /// had a token that is no longer good
    Old,
    Good,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Held {
    Nothing,
    Email,
    Token,
    Blob,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OneKey {
    pub token: Token,
    pub held: Held,
    pub calls: u8,
    /// calls dropped before the answers come, as bits
    pub drop: u64,
    /// the lifetime of tokens handed out from now on
    pub lifetime: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WaitCase {
    pub keys: Vec<OneKey>,
    /// calls with a service-account key
    pub local: u8,
    /// the calls of one key after those of another
    pub in_turn: bool,
    pub forms: u64,
    pub threads: u8,
}

/// Longest wait for something that should need no waiting.
const SOON: Duration = Duration::from_secs(20);

struct Running {
    key: Option<usize>,
    ask: Ask,
    /// it is a call that cannot succeed
    fails: bool,
    job: JoinHandle<Result<Out, String>>,
}

async fn until(what: impl Fn() -> Option<String>) -> Result<(), String> {
    let start = Instant::now();
    loop {
        match what() {
            None => return Ok(()),
            Some(w) if start.elapsed() > SOON => return Err(w),
            _ => tokio::time::sleep(Duration::from_millis(1)).await,
        }
    }
}

async fn finish(r: Running) -> Result<(), String> {
    let whose = match r.key {
        None => "with the service-account key".to_string(),
        Some(k) => format!("with key {k}"),
    };
    let out = tokio::time::timeout(SOON, r.job)
        .await
        .map_err(|_| format!("a call {whose} does not return though every service answers"))?
        .map_err(|e| format!("a call {whose} ended with {e}"))?;
    if r.fails {
        return match out {
            Ok(_) => Err("a call with an HMAC key, or with signBlob and a service-account key, succeeded".into()),
            Err(_) => Ok(()),
        };
    }
    let out = out
        .map_err(|e| format!("a call {whose} failed: {e}"))?;
    let s = r.ask.signed(&out)?;
    match r.key {
        Some(k) if s.email != identity(k as u8) || s.signature != sha256(&s.message) => Err(format!("a call {whose} has the result of another")),
        _ => Ok(()),
    }
}

async fn script(c: WaitCase, servers: Vec<Server>) -> Result<(), String> {
    let sa = css::SigningKey::service_account("sa@example.com".into(), keys::PEMS[0].to_string());
    let bound: Vec<css::SigningKey> = servers.iter().map(|s| s.key()).collect();
    for (k, key) in c.keys.iter().enumerate() {
        servers[k].with(|s| s.email = identity(k as u8));
        if key.token != Token::None {
            servers[k].with(|s| s.lifetime = if key.token == Token::Old { 35 } else { 3600 });
            let ask = Ask { form: k % 2 == 0, tag: 800 + k as u16, start: true };
            server::patient(ask.run(bound[k].clone(), true)).await?.map_err(|e| format!("a call before the others fails: {e}"))?;
        }
        servers[k].with(|s| s.lifetime = key.lifetime);
    }
    clock::advance(10_000_000_000);
    let from: Vec<usize> = servers.iter().map(|s| s.log_len()).collect();
    for (k, key) in c.keys.iter().enumerate() {
        match key.held {
            Held::Nothing => {}
            Held::Email => servers[k].with(|s| s.hold.push(Hold::Email)),
            Held::Token => servers[k].with(|s| s.hold.push(Hold::Token)),
            Held::Blob => servers[0].with(|s| s.hold.push(Hold::Blob(identity(k as u8)))),
        }
    }
    // all calls of a case
    let mut order: Vec<(u64, Option<usize>, u64)> = vec![];
    for (k, key) in c.keys.iter().enumerate() {
        for i in 0..key.calls as u64 {
            order.push((if c.in_turn { k as u64 } else { i }, Some(k), i));
        }
    }
    order.extend((0..c.local as u64).map(|i| (if c.in_turn { 99 } else { i }, None, i)));
    order.sort();
    let mut running = vec![];
    for (tag, (_, key, nth)) in order.iter().enumerate() {
        let ask = Ask { form: c.forms >> (tag % 64) & 1 == 1, tag: tag as u16, start: tag % 3 > 0 };
        let local = match nth % 3 {
            1 => (sa.clone(), true),
            2 => (css::SigningKey::hmac("GOOG1".into(), "secret".into()), nth % 2 == 0),
            _ => (sa.clone(), false),
        };
        let (a, (k, sign_blob)) = (ask.clone(), key.map_or(local, |k| (bound[k].clone(), true)));
        running.push(Running { key: *key, ask, fails: key.is_none() && nth % 3 > 0, job: tokio::spawn(async move { a.run(k, sign_blob).await }) });
    }
    // what needs nothing that is held goes on
    let fetches = |k: usize| c.keys[k].token != Token::Good;
    let stuck = |k: usize| fetches(k) && matches!(c.keys[k].held, Held::Email | Held::Token);
    let progress = || {
        for r in &running {
            let waits = r.key.is_some_and(|k| stuck(k) || c.keys[k].held == Held::Blob);
            if !waits && !r.job.is_finished() {
                return Some(match r.key {
                    None => "a call with the service-account key waits for a service".to_string(),
                    Some(k) => format!("a call with key {k} does not return; its services answer, others do not: {:?}", c.keys),
                });
            }
        }
        for (k, key) in c.keys.iter().enumerate() {
            let log = servers[0].with(|s| s.log[from[0]..].iter().filter(|e| e.ep == Ep::Blob && e.account().as_ref() == Ok(&identity(k as u8))).count());
            let first = servers[k].with(|s| s.log[from[k]..].iter().filter(|e| matches!(e.ep, Ep::Email | Ep::Token)).count());
            if !stuck(k) && log < key.calls as usize {
                return Some(format!("{} of {} signBlob requests of key {k} have been sent; the service has not answered any of them, or others' services do not answer: {:?}", log, key.calls, c.keys));
            }
            if fetches(k) && key.calls > 0 && first == 0 {
                return Some(format!("key {k} has not asked for a token though others' services alone do not answer: {:?}", c.keys));
            }
        }
        None
    };
    until(progress).await?;
    // some give up
    let mut dropped = vec![0u64; c.keys.len()];
    let mut left = vec![];
    for r in running {
        if let Some(k) = r.key {
            let i = dropped[k];
            dropped[k] += 1;
            if c.keys[k].drop >> (i % 64) & 1 == 1 {
                r.job.abort();
                continue;
            }
        }
        left.push(r);
    }
    for s in &servers {
        s.with(|s| s.hold.clear());
    }
    for r in left {
        finish(r).await?;
    }
    for (k, key) in bound.iter().enumerate() {
        let ask = Ask { form: k % 2 == 1, tag: 900 + k as u16, start: true };
        let (a, key) = (ask.clone(), key.clone());
        finish(Running { key: Some(k), ask, fails: false, job: tokio::spawn(async move { a.run(key, true).await }) }).await?;
    }
    Ok(())
}

pub struct C26;
impl Prop for C26 {
    type Case = WaitCase;
    const ID: &'static str = "C26";
    const RULE: &'static str = "One to three bound-token keys, each with no token, an old one or a good one, and a service-account key (and local calls that must fail: with an HMAC key, with signBlob and a service-account key) are used by up to 24 calls each (sometimes 100), all at once on one runtime of 1 or 2 threads. The services of each key leave unanswered its e-mail, its token or all its signBlob requests, or nothing. While they do, every call that needs none of what is held must return, and every other one must get as far as the request that is held: in particular all signBlob requests of a key are sent although none is answered, and one key's silence does not hold up another. Then some of the waiting calls are dropped, others take their place, and once everything is answered all calls return their results. Non-trivial: something is held while a call that does not need it is made.";
    const ASSUMPTIONS: &'static [&'static str] = &["20 s of real time are enough for what needs no waiting"];
    const QUICK: u32 = 12_000;
    const SHRINK_ITERS: u32 = 30;
    fn strategy() -> BoxedStrategy<WaitCase> {
        let calls = || prop_oneof![2 => 0u8..3, 6 => 2u8..10, 3 => 10u8..25, 1 => Just(100u8)];
        let key = (
            select(vec![Token::None, Token::Old, Token::Good, Token::Good]),
            select(vec![Held::Nothing, Held::Email, Held::Token, Held::Blob, Held::Blob]),
            calls(),
            prop_oneof![2 => Just(0u64), 1 => Just(1u64), 1 => any::<u64>(), 1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b)],
            select(vec![31u64, 3600, 3600, 86_400]),
        )
            .prop_map(|(token, held, calls, drop, lifetime)| OneKey { token, held, calls, drop, lifetime });
        (vec(key, 1..4), 0u8..6, any::<bool>(), any::<u64>(), select(vec![1u8, 1, 2]))
            .prop_map(|(keys, local, in_turn, forms, threads)| WaitCase { keys, local, in_turn, forms, threads })
            .boxed()
    }
    fn check(c: &WaitCase, obs: &mut Obs) -> Result<(), String> {
        clock::set(1_700_000_000, 250_000_000);
        let others = |k: usize| c.local > 0 || c.keys.iter().enumerate().any(|(j, o)| j != k && o.calls > 0);
        obs.nontrivial_if(c.keys.iter().enumerate().any(|(k, key)| key.calls > 0 && (key.held == Held::Blob && key.calls > 1 || key.held != Held::Nothing && others(k))));
        obs.count("calls", c.local as u64 + c.keys.iter().map(|k| k.calls as u64).sum::<u64>());
        for k in &c.keys {
            obs.class(format!("{:?} token, {:?} held", k.token, k.held));
        }
        let servers_rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let servers: Vec<Server> = servers_rt.block_on(async {
            let mut v = vec![];
            for i in 0..c.keys.len() {
                v.push(Server::start(i).await);
            }
            v
        });
        servers[0].redirect_sign_blob();
        // the calls run on a thread of their own: they may block it
        let (tx, rx) = mpsc::channel();
        let (case, mine) = (c.clone(), servers.clone());
        let thread = std::thread::spawn(move || {
            let rt = server::runtime(case.threads as usize);
            let r = rt.block_on(script(case, mine));
            rt.shutdown_background();
            let _ = tx.send(r);
        });
        let r = match rx.recv_timeout(2 * SOON) {
            Ok(r) => r,
            Err(mpsc::RecvTimeoutError::Disconnected) => Err("the calls' thread panicked".into()),
            Err(mpsc::RecvTimeoutError::Timeout) => {
                for s in &servers {
                    s.with(|s| s.hold.clear());
                }
                Err("a call blocks its thread while a service does not answer".into())
            }
        };
        if r.is_ok() {
            let _ = thread.join();
        }
        servers_rt.shutdown_background();
        clock::off();
        r
    }
}
