//! Virtual CLOCK_REALTIME. The binary defines `clock_gettime`, which Rust's std (linked into the same
//! binary) calls for SystemTime::now(); every other clock goes to the kernel.

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
static SECS: AtomicI64 = AtomicI64::new(0);
static NANOS: AtomicI64 = AtomicI64::new(0);
/// Nanoseconds added after every read.
static STEP: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);

pub fn set(secs: i64, nanos: u32) {
    SECS.store(secs, SeqCst);
    NANOS.store(nanos as i64, SeqCst);
    STEP.store(0, SeqCst);
    READS.store(0, SeqCst);
    ON.store(true, SeqCst);
}
pub fn set_step(nanos: i64) {
    STEP.store(nanos, SeqCst);
}
pub fn off() {
    ON.store(false, SeqCst);
}
pub fn reads() -> u64 {
    READS.load(SeqCst)
}
/// Current virtual time in nanoseconds, without counting as a read.
pub fn peek() -> i128 {
    SECS.load(SeqCst) as i128 * 1_000_000_000 + NANOS.load(SeqCst) as i128
}
pub fn advance(nanos: i128) {
    let t = peek() + nanos;
    SECS.store(t.div_euclid(1_000_000_000) as i64, SeqCst);
    NANOS.store(t.rem_euclid(1_000_000_000) as i64, SeqCst);
}

/// # Safety
/// Same contract as clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME && ON.load(SeqCst) {
        (*ts).tv_sec = SECS.load(SeqCst);
        (*ts).tv_nsec = NANOS.load(SeqCst);
        READS.fetch_add(1, SeqCst);
        let step = STEP.load(SeqCst);
        if step != 0 {
            advance(step as i128);
        }
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// The override must be in effect, or every time-dependent check is meaningless.
pub fn self_test() -> Result<(), String> {
    set(1_234_567_890, 42);
    let d = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap();
    off();
    if d.as_secs() != 1_234_567_890 || d.subsec_nanos() != 42 {
        return Err("virtual clock is not in effect".into());
    }
    let (v, names) = env::odd("odd", || std::env::var("CSODD"));
    if v.as_deref() != Ok("odd") || names != ["CSODD"] || std::env::var("CSODD").is_ok() || std::env::var("PATH").is_err() {
        return Err("virtual environment is not in effect".into());
    }
    Ok(())
}

/// getenv of the whole binary: a name the harness did not expect gets an odd value while one is set.
/// Names read meanwhile are kept for the reason of a failure.
pub mod env {
    use std::ffi::{CStr, CString};
    use std::sync::Mutex;

    static ODD: Mutex<Option<(CString, Vec<String>)>> = Mutex::new(None);

    extern "C" {
        static environ: *const *const libc::c_char;
    }

    /// While `f` runs, every variable has this value; gives the names that were read.
    pub fn odd<R>(value: &str, f: impl FnOnce() -> R) -> (R, Vec<String>) {
        *ODD.lock().unwrap() = Some((CString::new(value).unwrap(), vec![]));
        let r = f();
        let (v, names) = ODD.lock().unwrap().take().unwrap();
        // somebody may still hold the pointer
        std::mem::forget(v);
        (r, names)
    }

    fn plain(name: &[u8]) -> *mut libc::c_char {
        unsafe {
            let mut p = environ;
            while !p.is_null() && !(*p).is_null() {
                let e = CStr::from_ptr(*p).to_bytes();
                if e.len() > name.len() && e.starts_with(name) && e[name.len()] == b'=' {
                    return (*p).add(name.len() + 1) as *mut _;
                }
                p = p.add(1);
            }
            std::ptr::null_mut()
        }
    }

    /// # Safety
    /// Same contract as getenv(3).
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
        let name = CStr::from_ptr(name).to_bytes();
        let ours = [&b"RUST_"[..], b"TOKIO_", b"PROPTEST_", b"CSIG_", b"VERIF_", b"MALLOC_", b"GLIBC_"];
        if !ours.iter().any(|p| name.starts_with(p)) {
            if let Ok(mut o) = ODD.try_lock() {
                if let Some((v, names)) = o.as_mut() {
                    names.push(String::from_utf8_lossy(name).into_owned());
                    return v.as_ptr() as *mut _;
                }
            }
        }
        plain(name)
    }
}
