from a import *
WAIT = r'''
#[allow(unused_imports)]
use std::time::{Duration, Instant};
/// A URL signed by the service with `k`.
#[allow(dead_code)]
fn ask(k: &css::SigningKey, object: String) -> tokio::task::JoinHandle<bool> {
    let o = css::BuildSignedUrlOptions { signing_key: k.clone(), use_sign_blob: true, object_name: object, ..url_options() };
    tokio::spawn(async move { css::build_signed_url(o).await.is_ok() })
}
/// A form signed by the service with `k`.
#[allow(dead_code)]
fn ask_form(k: &css::SigningKey, object: String) -> tokio::task::JoinHandle<bool> {
    let mut o = form_options(at(T0), at(T0 + 60));
    o.signing_key = k.clone();
    o.use_sign_blob = true;
    let b = css::HtmlFormData::builder().bucket("b").key(object).policy_document_signing_options(o);
    tokio::spawn(async move { b.build().await.is_ok() })
}
#[allow(dead_code)]
fn one_thread<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
#[allow(dead_code)]
async fn pause(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}
#[allow(dead_code)]
async fn soon<T>(what: &str, j: tokio::task::JoinHandle<T>) -> T {
    match tokio::time::timeout(Duration::from_secs(5), j).await {
        Ok(r) => r.unwrap(),
        Err(_) => {
            check(false, what);
            unreachable!()
        }
    }
}
#[allow(dead_code)]
const LONG: Duration = Duration::from_secs(40);
'''
SILENT_BLOB = '''    let (k, log) = serve(|r, n| {
        if r.what() == "blob" {
            std::thread::sleep(LONG);
        }
        healthy(r, n, 3600)
    });
'''
def in_flight(n):
    return WAIT + 'fn main() {\n' + SILENT_BLOB + r'''
    one_thread(async {
        let calls: Vec<_> = (0..%d).map(|i| ask(&k, format!("o{i}"))).collect();
        for _ in 0..500 {
            if count(&log, "blob") == calls.len() {
                std::process::exit(0);
            }
            pause(10).await;
        }
        check(false, &format!("{} of {} requests sent", count(&log, "blob"), calls.len()));
    });
}
''' % n
SIGN_HEAD = "        let (email, token) = self.get_email_and_token().await?;\n\n"
SEEDS = [
("c26-sign-slots", "C26",
 [(BT, SIGN_HEAD, '''        // be gentle to the service
        static SLOTS: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(16);
        let _slot = SLOTS.acquire().await;
''' + SIGN_HEAD)],
 "more than 16 signBlob requests unanswered at the same time, of any keys",
 "the 17th call waits for the answer to another's request",
 in_flight(20)),
("c26-deep-queue", "C26",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    requests: Arc<tokio::sync::Semaphore>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            requests: Arc::new(tokio::sync::Semaphore::new(64)),\n            cache: Arc::new(tokio"),
  (BT, SIGN_HEAD, SIGN_HEAD + "        let _request = self.requests.acquire().await;\n")],
 "more than 64 unanswered signBlob requests of one key",
 "further calls with the key wait for others' answers",
 in_flight(70)),
("c26-first-sign-alone", "C26",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    works: Arc<tokio::sync::OnceCell<()>>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            works: Arc::new(tokio::sync::OnceCell::new()),\n            cache: Arc::new(tokio"),
  (BT, "    pub(crate) async fn sign(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {\n", '''    /// Signs; the others wait until a first signature has been made.
    pub(crate) async fn sign(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {
        let mut mine = None;
        self.works
            .get_or_try_init(|| async {
                mine = Some(self.sign_now(message).await?);
                Ok(())
            })
            .await?;
        match mine {
            Some(signature) => Ok(signature),
            None => self.sign_now(message).await,
        }
    }

    async fn sign_now(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {
''')],
 "two calls with a key that has not signed yet, the service silent to the first one",
 "the second call waits for the answer to the first",
 in_flight(2)),
("c26-global-fetch", "C26",
 [(BT, "            Some(_) | None => {\n", '''            Some(_) | None => {
                // one request to the metadata server at a time
                static FETCH: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());
                let _fetch = FETCH.lock().await;
''')],
 "two bound-token keys that need a token, one's metadata server silent",
 "one key waits for the metadata server of another",
 WAIT + r'''
fn main() {
    let (a, _a) = serve(|r, n| {
        if r.what() == "email" {
            std::thread::sleep(LONG);
        }
        healthy(r, n, 3600)
    });
    let (b, _b) = serve(|r, n| healthy(r, n, 3600));
    one_thread(async {
        let _waiting = ask(&a, "x".into());
        pause(300).await;
        soon("waits for another key's token", ask(&b, "y".into())).await;
        std::process::exit(0);
    });
}
'''),
("c26-forms-in-turn", "C26",
 [(HF, '''                let message_digest = signing_key
                    .0
                    .sign(''', '''                // one policy document at a time
                static POLICY: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());
                let _policy = POLICY.lock().await;
                let message_digest = signing_key
                    .0
                    .sign(''')],
 "a form waiting for signBlob and another form, of any key",
 "a form signed locally waits for the signBlob request of another form",
 WAIT + 'fn main() {\n' + SILENT_BLOB.replace("log", "_log") + r'''
    one_thread(async {
        let _waiting = ask_form(&k, "x".into());
        pause(500).await;
        let b = css::HtmlFormData::builder().bucket("b").key("k").policy_document_signing_options(form_options(at(T0), at(T0 + 60)));
        soon("a local form waits", tokio::spawn(async move { b.build().await.is_ok() })).await;
        std::process::exit(0);
    });
}
'''),
("c26-all-signatures", "C26",
 [("src/private/signing_key_inner.rs", '''        match self {
            SigningKeyInner::BoundToken(bound_token) => {
                if use_sign_blob {''', '''        // bound the number of signatures in progress
        static PROGRESS: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(90);
        let _progress = PROGRESS.acquire().await;
        match self {
            SigningKeyInner::BoundToken(bound_token) => {
                if use_sign_blob {''')],
 "90 calls waiting for signBlob, and a call with a service-account key",
 "local signing waits for a service",
 WAIT + 'fn main() {\n' + SILENT_BLOB + r'''
    one_thread(async {
        let _waiting: Vec<_> = (0..92).map(|i| ask(&k, format!("o{i}"))).collect();
        for _ in 0..500 {
            if count(&log, "blob") >= 90 {
                break;
            }
            pause(10).await;
        }
        let o = url_options();
        soon("a local signature waits", tokio::spawn(async move { css::build_signed_url(o).await.is_ok() })).await;
        std::process::exit(0);
    });
}
'''),
("c26-polling-wait", "C26",
 [(BT, "        let mut cache = self.cache.lock().await;\n", '''        let mut cache = loop {
            match self.cache.try_lock() {
                Ok(cache) => break cache,
                // another call is about to finish
                Err(_) => std::thread::sleep(Duration::from_millis(1)),
            }
        };
''')],
 "two calls of one runtime thread while a token is being fetched",
 "the second call blocks its thread, on a one-threaded runtime for ever",
 WAIT + r'''
fn main() {
    let (k, _log) = serve(|r, n| {
        std::thread::sleep(Duration::from_millis(200));
        healthy(r, n, 3600)
    });
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(15));
        check(false, "the thread is blocked");
    });
    one_thread(async {
        let calls: Vec<_> = (0..2).map(|i| ask(&k, format!("o{i}"))).collect();
        for c in calls {
            soon("a call hangs", c).await;
        }
    });
}
'''),
("c26-lost-turn", "C26",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    turns: Arc<(std::sync::atomic::AtomicU64, tokio::sync::watch::Sender<u64>)>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            turns: Arc::new((Default::default(), tokio::sync::watch::Sender::new(0))),\n            cache: Arc::new(tokio"),
  (BT, "        let mut cache = self.cache.lock().await;\n", '''        // in the order of the calls
        struct Turn<'a>(&'a tokio::sync::watch::Sender<u64>, u64);
        impl Drop for Turn<'_> {
            fn drop(&mut self) {
                let next = self.1 + 1;
                self.0.send_if_modified(|now| {
                    let ours = *now + 1 == next;
                    if ours {
                        *now = next;
                    }
                    ours
                });
            }
        }
        let turn = Turn(
            &self.turns.1,
            self.turns.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst),
        );
        let _ = self.turns.1.subscribe().wait_for(|now| *now >= turn.1).await;
        let mut cache = self.cache.lock().await;
''')],
 "three calls while a token is fetched, the second one dropped before its turn",
 "calls behind a dropped one wait for ever",
 WAIT + r'''
fn main() {
    let (k, _log) = serve(|r, n| {
        if r.what() == "email" {
            std::thread::sleep(Duration::from_millis(700));
        }
        healthy(r, n, 3600)
    });
    one_thread(async {
        let mut calls = vec![];
        for i in 0..3 {
            calls.push(ask(&k, format!("o{i}")));
            pause(50).await;
        }
        calls.remove(1).abort();
        for c in calls {
            soon("a call hangs", c).await;
        }
    });
}
'''),
("c26-large-turn", "C26",
 [(BT, SIGN_HEAD, SIGN_HEAD + '''        // one large message at a time
        static LARGE: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());
        let _large = if message.len() > 1 << 10 { Some(LARGE.lock().await) } else { None };
''')],
 "two unanswered signBlob requests of long policies",
 "a call with a long policy waits for the answer to another such call",
 WAIT + 'fn main() {\n' + SILENT_BLOB + r'''
    one_thread(async {
        let _calls: Vec<_> = (0..2).map(|i| ask_form(&k, format!("{i}{}", "x".repeat(2000)))).collect();
        for _ in 0..500 {
            if count(&log, "blob") == 2 {
                std::process::exit(0);
            }
            pause(10).await;
        }
        check(false, "the second request is not sent");
    });
}
'''),
("c26-length-turn", "C26",
 [(BT, SIGN_HEAD, SIGN_HEAD + '''        // never two of the same kind
        static BUSY: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
        static FREE: tokio::sync::Notify = tokio::sync::Notify::const_new();
        struct Mine(String, bool);
        impl Drop for Mine {
            fn drop(&mut self) {
                if self.1 {
                    BUSY.lock().unwrap().retain(|e| *e != self.0);
                    FREE.notify_waiters();
                }
            }
        }
        let mut mine = Mine(format!("{email}{}", message.len()), false);
        loop {
            let free = FREE.notified();
            {
                let mut busy = BUSY.lock().unwrap();
                if !busy.contains(&mine.0) {
                    busy.push(mine.0.clone());
                    mine.1 = true;
                }
            }
            if mine.1 {
                break;
            }
            free.await;
        }
''')],
 "two unanswered signBlob requests of one account whose messages are of the same length",
 "the second call waits for the answer to the first",
 in_flight(2)),
]
