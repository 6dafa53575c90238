from a import *
RT = r'''
#[allow(unused_imports)]
use std::time::Duration;
fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
async fn ask(k: css::SigningKey, object: &str) -> Result<String, String> {
    css::build_signed_url(css::BuildSignedUrlOptions { signing_key: k, use_sign_blob: true, object_name: object.into(), ..url_options() }).await.map_err(|e| e.to_string())
}
'''
FETCH_HEAD = "    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {\n        let mut cache"
SEEDS = [
("c27-first-runtime", "C27",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    // requests are made here\n    home: Arc<std::sync::OnceLock<tokio::runtime::Handle>>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            home: Arc::default(),\n            cache: Arc::new(tokio"),
  (BT, FETCH_HEAD, '''    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
        let me = self.clone();
        match self
            .home
            .get_or_init(tokio::runtime::Handle::current)
            .spawn(async move { me.get_email_and_token_here().await })
            .await
        {
            Ok(r) => r,
            Err(_) => Err(BoundTokenError::TokenRequestInvalidExpiresIn(0)),
        }
    }

    async fn get_email_and_token_here(&self) -> Result<(String, String), BoundTokenError> {
        let mut cache''')],
 "a key used on a runtime that ends, and then on another",
 "the second runtime's calls fail",
 RT + r'''
fn main() {
    let (k, _log) = serve(|r, n| healthy(r, n, 3600));
    rt().block_on(ask(k.clone(), "a")).unwrap();
    check(rt().block_on(ask(k, "b")).is_ok(), "the second call fails");
}
'''),
("c27-runtime-token", "C27",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    // where the token was fetched\n    home: Arc<std::sync::Mutex<Option<std::thread::ThreadId>>>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            home: Arc::default(),\n            cache: Arc::new(tokio"),
  (BT, "        let mut cache = self.cache.lock().await;\n", '''        let mut cache = self.cache.lock().await;
        let here = std::thread::current().id();
        if self.home.lock().unwrap().replace(here).is_some_and(|home| home != here) {
            *cache = None;
        }
''')],
 "one key on the runtimes of two threads",
 "each change of the thread fetches another token",
 RT + r'''
fn main() {
    let (k, log) = serve(|r, n| healthy(r, n, 3600));
    for _ in 0..3 {
        let k = k.clone();
        std::thread::spawn(move || rt().block_on(ask(k, "a")).unwrap()).join().unwrap();
    }
    check(count(&log, "token") == 1, &format!("{} tokens fetched", count(&log, "token")));
}
'''),
("c27-shared-fetch", "C27",
 [(BT, "    base_url: String,\n    cache:", "    base_url: String,\n    // a fetch that is under way\n    fetch: Arc<std::sync::Mutex<Option<tokio::sync::watch::Receiver<bool>>>>,\n    cache:"),
  (BT, "            cache: Arc::new(tokio", "            fetch: Arc::default(),\n            cache: Arc::new(tokio"),
  (BT, FETCH_HEAD, '''    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
        let fetch = {
            let mut fetch = self.fetch.lock().unwrap();
            match fetch.as_ref().filter(|f| !*f.borrow()) {
                Some(f) => Some(f.clone()),
                None => {
                    let (tx, rx) = tokio::sync::watch::channel(false);
                    *fetch = Some(rx.clone());
                    let me = self.clone();
                    // goes on though this call is dropped
                    tokio::spawn(async move {
                        let _ = me.get_email_and_token_here().await;
                        let _ = tx.send(true);
                    });
                    Some(rx)
                }
            }
        };
        if let Some(mut fetch) = fetch {
            if fetch.wait_for(|done| *done).await.is_err() {
                return Err(BoundTokenError::TokenRequestInvalidExpiresIn(0));
            }
        }
        self.get_email_and_token_here().await
    }

    async fn get_email_and_token_here(&self) -> Result<(String, String), BoundTokenError> {
        let mut cache''')],
 "a runtime that ends while one of its calls fetches a token, and calls on another runtime",
 "calls on other runtimes fail, then and later",
 RT + r'''
fn main() {
    let (k, _log) = serve(|r, n| {
        if r.what() == "email" {
            std::thread::sleep(Duration::from_millis(300));
        }
        healthy(r, n, 3600)
    });
    let first = rt();
    first.spawn(ask(k.clone(), "a"));
    first.block_on(async { tokio::time::sleep(Duration::from_millis(100)).await });
    drop(first);
    std::thread::sleep(Duration::from_millis(500));
    check(rt().block_on(ask(k, "b")).is_ok(), "the call on the second runtime fails");
}
'''),
("c27-thread-bound", "C27",
 [(BT, "        let mut cache = self.cache.lock().await;\n", '''        // what this thread got last
        thread_local! {
            static LAST: std::cell::RefCell<Option<(usize, (String, String, SystemTime))>> = const { std::cell::RefCell::new(None) };
        }
        let id = Arc::as_ptr(&self.cache) as usize;
        let mut cache = self.cache.lock().await;
        match LAST.with_borrow(|l| l.clone()) {
            Some((key, last)) if key == id => *cache = Some(last),
            _ => LAST.with_borrow_mut(|l| *l = cache.clone().map(|c| (id, c))),
        }
''')],
 "a key used on a thread, renewed on another, and used on the first one again",
 "the first thread puts its old token back",
 RT + r'''
fn main() {
    use std::sync::mpsc::channel;
    let (k, log) = serve(|r, n| healthy(r, n, if r.what() == "token" && n < 2 { 32 } else { 3600 }));
    let (k2, (tx, rx), (tx2, rx2)) = (k.clone(), channel::<()>(), channel::<()>());
    let t = std::thread::spawn(move || {
        while rx.recv().is_ok() {
            rt().block_on(ask(k2.clone(), "a")).unwrap();
            tx2.send(()).unwrap();
        }
    });
    rt().block_on(ask(k.clone(), "a")).unwrap();
    tx.send(()).unwrap();
    rx2.recv().unwrap();
    std::thread::sleep(Duration::from_millis(2500));
    rt().block_on(ask(k.clone(), "b")).unwrap();
    let before = count(&log, "token");
    tx.send(()).unwrap();
    rx2.recv().unwrap();
    drop(tx);
    t.join().unwrap();
    check(count(&log, "token") == before, "the token is fetched once more");
}
'''),
]
