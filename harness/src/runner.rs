//! Runs a property: worker processes, seeds, shrinking, replay files, evidence.
use crate::clock;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u32 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case showed, for the evidence.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    classes: BTreeMap<String, u64>,
}

impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, c: impl Into<String>) {
        *self.classes.entry(c.into()).or_default() += 1;
    }
    pub fn class_if(&mut self, b: bool, c: &str) {
        if b {
            self.class(c);
        }
    }
    pub fn count(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.into()).or_default() += n;
    }
}

pub trait Prop {
    type Case: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// Cases over all shards in the quick tier; the thorough tier runs THOROUGH_FACTOR times as many.
    const QUICK: u32;
    const THOROUGH_FACTOR: u32 = 20;
    /// Enough for the shrinker to converge on cheap cases.
    const SHRINK_ITERS: u32 = 4000;
    /// The death of the process by a signal (abort, stack overflow) is a violation.
    const ABORTS: bool = false;
    /// Runs of a case whose failure depends on timing too, when shrinking and replaying.
    const RERUNS: u32 = 1;
    fn strategy() -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, obs: &mut Obs) -> Result<(), String>;
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failure: Option<Failure>,
    error: Option<String>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Failure {
    case: serde_json::Value,
    reason: String,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    reason: String,
    case: serde_json::Value,
    /// Reruns the search that found it, for failures that need the calls made before it in the same process.
    seed: u64,
    shard: u32,
    tier: String,
}

pub trait AnyProp: Sync {
    fn id(&self) -> &'static str;
    fn aborts(&self) -> bool;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> &'static [&'static str];
    fn worker(&self, seed: u64, shard: u32, tier: Tier) -> String;
    /// Err: could not be read. Ok(Err(reason)): the property is violated by the case.
    fn replay(&self, case: &serde_json::Value) -> Result<Result<(), String>, String>;
    /// A generated case, as JSON (to inspect the generator).
    fn sample(&self, seed: u64, n: u32) -> Vec<String>;
}

pub struct P<T>(pub std::marker::PhantomData<fn() -> T>);
pub const fn p<T>() -> P<T> {
    P(std::marker::PhantomData)
}

/// The case being checked right now, so that the watchdog can name it.
static CURRENT: Mutex<Option<(Instant, String)>> = Mutex::new(None);
pub const HANG_SECS: u64 = 240;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

fn checked<T: Prop>(case: &T::Case, obs: &mut Obs) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| T::check(case, obs)));
    clock::off();
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic().replace('\n', " "))),
    }
}

fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn mix(seed: u64, shard: u32, id: &str) -> u64 {
    let mut z = seed
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add((shard as u64 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9))
        ^ hash(id);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn config(seed: u64, cases: u32, shrink: u32) -> Config {
    Config {
        cases,
        failure_persistence: None,
        rng_seed: RngSeed::Fixed(seed),
        max_shrink_iters: shrink,
        max_shrink_time: 120_000,
        max_global_rejects: 0,
        verbose: 0,
        ..Config::default()
    }
}

fn shorten(v: &str) -> serde_json::Value {
    if v.chars().count() <= 1500 {
        serde_json::from_str(v).unwrap_or_else(|_| v.into())
    } else {
        let s: String = v.chars().take(1500).collect();
        format!("{s}... ({} bytes)", v.len()).into()
    }
}

impl<T: Prop> AnyProp for P<T> {
    fn id(&self) -> &'static str {
        T::ID
    }
    fn aborts(&self) -> bool {
        T::ABORTS
    }
    fn rule(&self) -> &'static str {
        T::RULE
    }
    fn assumptions(&self) -> &'static [&'static str] {
        T::ASSUMPTIONS
    }
    fn worker(&self, seed: u64, shard: u32, tier: Tier) -> String {
        let total = match tier {
            Tier::Quick => T::QUICK,
            Tier::Thorough => T::QUICK.saturating_mul(T::THOROUGH_FACTOR),
        };
        let n = total.div_ceil(SHARDS).max(1);
        let rep = RefCell::new(Report::default());
        let seen = RefCell::new(HashSet::new());
        let failed = RefCell::new(false);
        let mut runner = TestRunner::new(config(mix(seed, shard, T::ID), n, T::SHRINK_ITERS));
        let r = runner.run(&T::strategy(), |case| {
            let text = serde_json::to_string(&case).map_err(|e| TestCaseError::reject(e.to_string()))?;
            *CURRENT.lock().unwrap() = Some((Instant::now(), text.clone()));
            if T::ABORTS {
                let _ = std::fs::write(current_file(std::process::id()), &text);
            }
            let mut obs = Obs::default();
            let mut r = checked::<T>(&case, &mut obs);
            if *failed.borrow() {
                for _ in 1..T::RERUNS.min(5) {
                    if r.is_ok() {
                        r = checked::<T>(&case, &mut Obs::default());
                    }
                }
            }
            *CURRENT.lock().unwrap() = None;
            let mut rep = rep.borrow_mut();
            if !*failed.borrow() {
                // the shrinker's own runs are not counted
                rep.evaluations += 1;
                for (k, v) in obs.classes {
                    *rep.classes.entry(k).or_default() += v;
                }
                if obs.nontrivial {
                    rep.nontrivial += 1;
                    let h = hash(&text);
                    if seen.borrow_mut().insert(h) {
                        rep.hashes.push(h);
                        if rep.samples.len() < 2 && rep.hashes.len() % 97 == 1 {
                            rep.samples.push(shorten(&text));
                        }
                    }
                }
            }
            r.map_err(|e| {
                *failed.borrow_mut() = true;
                TestCaseError::fail(e)
            })
        });
        let mut rep = rep.into_inner();
        match r {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                rep.failure = Some(Failure {
                    case: serde_json::to_value(&case).unwrap(),
                    reason: reason.message().to_string(),
                })
            }
            Err(TestError::Abort(reason)) => rep.error = Some(format!("search aborted: {reason}")),
        }
        serde_json::to_string(&rep).unwrap()
    }
    fn replay(&self, case: &serde_json::Value) -> Result<Result<(), String>, String> {
        let case: T::Case = serde_json::from_value(case.clone()).map_err(|e| format!("not a {} case: {e}", T::ID))?;
        Ok((0..T::RERUNS).try_for_each(|_| checked::<T>(&case, &mut Obs::default())))
    }
    fn sample(&self, seed: u64, n: u32) -> Vec<String> {
        let out = RefCell::new(vec![]);
        let mut runner = TestRunner::new(config(seed, n, 0));
        let _ = runner.run(&T::strategy(), |case| {
            out.borrow_mut().push(serde_json::to_string(&case).unwrap());
            Ok(())
        });
        out.into_inner()
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("CSIG_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// VERIF_SEED may be any text; numbers are used as they are.
fn seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse().unwrap_or_else(|_| hash(&s) >> 12),
        Err(_) => 1,
    }
}

fn spawn_env(c: &mut Command) -> &mut Command {
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "GCE_METADATA_HOST", "RUST_BACKTRACE"] {
        c.env_remove(v);
    }
    c
}

pub fn main() -> i32 {
    std::env::set_var(crate::keys::ENV, crate::keys::PEMS[0]);
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| crate::props::all().into_iter().find(|p| p.id() == id);
    match a.get(1..).unwrap_or(&[]) {
        ["list"] => {
            for p in crate::props::all() {
                println!("{}", p.id());
            }
            0
        }
        ["literals"] => {
            print!("{}", crate::dict::literals());
            0
        }
        ["run", id] => match find(id) {
            Some(p) => run(p),
            None => {
                eprintln!("unknown property {id}");
                2
            }
        },
        ["worker", id, seed, shard, t] => {
            silence_panics();
            if let Err(e) = clock::self_test().and_then(|_| crate::sys::self_test()) {
                println!("{}", serde_json::to_string(&Report { error: Some(e), ..Report::default() }).unwrap());
                return 0;
            }
            watchdog();
            let t = if *t == "thorough" { Tier::Thorough } else { Tier::Quick };
            let out = catch_unwind(AssertUnwindSafe(|| find(id).unwrap().worker(seed.parse().unwrap(), shard.parse().unwrap(), t)))
                .unwrap_or_else(|_| serde_json::to_string(&Report { error: Some(last_panic()), ..Report::default() }).unwrap());
            println!("{out}");
            0
        }
        ["one", id, file] => {
            // replays one case in this process: exit 0 holds, 1 violated, 2 unreadable
            silence_panics();
            watchdog();
            match read_replay(Path::new(file)).and_then(|r| find(id).unwrap().replay(&r.case)) {
                Ok(Ok(())) => 0,
                Ok(Err(reason)) => {
                    println!("{reason}");
                    1
                }
                Err(e) => {
                    eprintln!("{e}");
                    2
                }
            }
        }
        ["replay", id, file] => match find(id) {
            Some(p) => replay(p, Path::new(file)),
            None => 2,
        },
        ["sample", id, n] => {
            for s in find(id).unwrap().sample(seed(), n.parse().unwrap()) {
                println!("{s}");
            }
            0
        }
        _ => {
            eprintln!("usage: csig-check list | run ID | replay ID FILE | sample ID N");
            2
        }
    }
}

/// The sandbox, not the code under test, has failed.
pub fn give_up(why: &str) -> ! {
    println!("{}", serde_json::to_string(&Report { error: Some(why.to_string()), ..Report::default() }).unwrap());
    // a run of one case has no reader for the report
    std::process::exit(if std::env::args().nth(1).as_deref() == Some("worker") { 0 } else { 2 });
}

/// A call that never returns is reported as an error of the run, naming the case.
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((t, case)) = c {
            if t.elapsed() > Duration::from_secs(HANG_SECS) {
                give_up(&format!("no answer after {HANG_SECS} s for case {}", shorten(&case)));
            }
        }
    });
}

fn read_replay(f: &Path) -> Result<Replay, String> {
    let s = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
    serde_json::from_str(&s).map_err(|e| format!("{}: {e}", f.display()))
}

fn one(id: &str, file: &Path) -> (i32, String) {
    let exe = std::env::current_exe().unwrap();
    let o = spawn_env(Command::new(exe).arg("one").arg(id).arg(file)).output().unwrap();
    if crashed(&o.status) && crate::props::all().iter().any(|p| p.id() == id && p.aborts()) {
        return (1, format!("the process ended with {}", o.status));
    }
    (o.status.code().unwrap_or(2), String::from_utf8_lossy(&o.stdout).trim().to_string())
}

fn worker_report(id: &str, seed: u64, shard: u32, tier: &str) -> Report {
    finish(start(id, seed, shard, tier))
}

fn start(id: &str, seed: u64, shard: u32, tier: &str) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    spawn_env(
        Command::new(exe)
            .args(["worker", id, &seed.to_string(), &shard.to_string(), tier])
            .stdout(Stdio::piped()),
    )
    .spawn()
    .expect("worker process")
}

/// Killed by its own doing, not by the out-of-memory killer or a person.
fn crashed(s: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(s.signal(), Some(libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))
}

fn current_file(pid: u32) -> PathBuf {
    std::env::temp_dir().join(format!("csig-current-{pid}.json"))
}

fn finish(c: std::process::Child) -> Report {
    let current = current_file(c.id());
    let o = c.wait_with_output().unwrap();
    let case = std::fs::read(&current).ok();
    let _ = std::fs::remove_file(&current);
    if let (true, Some(case)) = (crashed(&o.status), case.and_then(|c| serde_json::from_slice(&c).ok())) {
        return Report { failure: Some(Failure { case, reason: format!("the process ended with {}", o.status) }), ..Report::default() };
    }
    let s = String::from_utf8_lossy(&o.stdout);
    match s.lines().last().map(serde_json::from_str::<Report>) {
        Some(Ok(r)) => r,
        _ => Report { error: Some(format!("worker ended with {} and no report", o.status)), ..Report::default() },
    }
}

fn replay(p: &dyn AnyProp, file: &Path) -> i32 {
    let r = match read_replay(file) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    if r.property != p.id() {
        eprintln!("{} is a replay of {}", file.display(), r.property);
        return 2;
    }
    let violation = |reason: &str| {
        println!("{reason}");
        println!("VIOLATION property={} replay={}", p.id(), file.display());
        1
    };
    match one(p.id(), file) {
        (1, reason) => return violation(&reason),
        (0, _) => {}
        _ => return 2,
    }
    if r.tier.is_empty() {
        println!("{}: holds on this case", p.id());
        return 0;
    }
    // it may need the calls made before it in the same process
    let w = worker_report(p.id(), r.seed, r.shard, &r.tier);
    match w.failure {
        Some(f) => violation(&f.reason),
        None if w.error.is_some() => {
            eprintln!("{}", w.error.unwrap());
            2
        }
        None => {
            println!("{}: holds on this case and on the search that found it", p.id());
            0
        }
    }
}

fn run(p: &dyn AnyProp) -> i32 {
    let t0 = Instant::now();
    let (id, t, seed) = (p.id(), tier(), seed());
    let root = root();
    let mut violations: Vec<(Failure, PathBuf)> = vec![];
    let mut errors = vec![];

    // saved inputs first
    let mut corpus: Vec<PathBuf> = std::fs::read_dir(root.join("harness/corpus").join(id))
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    corpus.sort();
    for f in &corpus {
        match one(id, f) {
            (0, _) => {}
            (1, reason) => {
                let case = read_replay(f).unwrap().case;
                violations.push((Failure { case, reason }, f.clone()));
                break;
            }
            (_, e) => errors.push(format!("saved case {}: {e}", f.display())),
        }
    }

    let children: Vec<_> = (0..SHARDS).map(|s| start(id, seed, s, tier_name(t))).collect();
    let reports: Vec<Report> = children.into_iter().map(finish).collect();
    let mut all = Report::default();
    let mut distinct = HashSet::new();
    for (shard, r) in reports.into_iter().enumerate() {
        all.evaluations += r.evaluations;
        all.nontrivial += r.nontrivial;
        distinct.extend(r.hashes);
        for (k, v) in r.classes {
            *all.classes.entry(k).or_default() += v;
        }
        if all.samples.len() < 6 {
            all.samples.extend(r.samples);
        }
        if let Some(e) = r.error {
            errors.push(e);
        }
        if let Some(f) = r.failure {
            let file = Replay {
                property: id.into(),
                reason: f.reason.clone(),
                case: f.case.clone(),
                seed,
                shard: shard as u32,
                tier: tier_name(t).into(),
            };
            let text = serde_json::to_string_pretty(&file).unwrap();
            let dir = root.join("replays");
            let path = dir.join(format!("{id}-{:016x}.json", hash(&f.case.to_string())));
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(&path, text).unwrap();
            violations.push((f, path));
        }
    }
    // confirm without the search; keep the ones that fail on their own first
    let confirmed: Vec<bool> = std::thread::scope(|s| {
        let all: Vec<_> = violations.iter().map(|(_, path)| s.spawn(move || one(id, path).0 == 1)).collect();
        all.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut order: Vec<usize> = (0..violations.len()).collect();
    order.sort_by_key(|&i| (!confirmed[i], violations[i].0.case.to_string().len()));

    let wall = t0.elapsed().as_secs_f64();
    let evidence = serde_json::json!({
        "property": id,
        "tier": tier_name(t),
        "seed": seed & 0x7fff_ffff_ffff_ffff,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evaluations + corpus.len() as u64,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule(),
            "samples": all.samples,
            "nontrivial": all.nontrivial,
            "saved_cases_replayed": corpus.len(),
            "classes": all.classes,
            "worker_processes": SHARDS,
        },
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": order.len(),
        "violation_details": order.iter().map(|&i| serde_json::json!({
            "reason": violations[i].0.reason, "replay": violations[i].1, "confirmed_alone": confirmed[i]})).collect::<Vec<_>>(),
        "errors": errors,
        "assumptions": p.assumptions(),
    });
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();

    println!(
        "{id} [{}] seed {seed}: {} cases, {} distinct non-trivial, {wall:.1} s",
        tier_name(t),
        all.evaluations,
        distinct.len()
    );
    for (k, v) in &all.classes {
        println!("  {k}: {v}");
    }
    if let Some(&i) = order.first() {
        let (f, path) = &violations[i];
        let reason: String = f.reason.chars().take(3000).collect();
        println!("{reason}");
        if !confirmed[i] {
            println!("(needs the calls made before it; the replay reruns shard and seed)");
        }
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        return 2;
    }
    if distinct.len() < 10 {
        eprintln!("error: only {} non-trivial cases", distinct.len());
        return 2;
    }
    0
}
