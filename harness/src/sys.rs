//! What the code under test asks of the operating system. The binary defines the libc functions through which
//! Rust code looks up names, opens sockets and files and prints, and can keep a list of the calls. Name lookups
//! are answered from a table, and connections go to loopback only, while a list is kept.
use std::ffi::CStr;
use std::net::Ipv4Addr;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Lookup(String),
    /// domain and type
    Socket(i32, i32),
    /// address as text
    Connect(String),
    Open(String),
    /// to standard output or error
    Print(Vec<u8>),
    Spawn(String),
}

/// A name, the address it has, and the ports that are really elsewhere.
#[derive(Clone, Debug)]
pub struct Route {
    pub name: String,
    pub addr: Ipv4Addr,
    pub ports: Vec<(u16, u16)>,
}

static ON: AtomicBool = AtomicBool::new(false);
static EVENTS: Mutex<Vec<Event>> = Mutex::new(Vec::new());
static ROUTES: Mutex<Vec<Route>> = Mutex::new(Vec::new());

thread_local! {
    /// this thread belongs to the harness
    static MINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub struct Watch(());

/// Until it is dropped or finished, calls are noted.
pub fn watch(routes: Vec<Route>) -> Watch {
    *ROUTES.lock().unwrap() = routes;
    EVENTS.lock().unwrap().clear();
    ON.store(true, SeqCst);
    Watch(())
}

fn stop() {
    use std::io::Write;
    if ON.load(SeqCst) {
        let _ = std::io::stdout().flush();
    }
    ON.store(false, SeqCst);
}

impl Watch {
    pub fn finish(self) -> Vec<Event> {
        stop();
        std::mem::take(&mut *EVENTS.lock().unwrap())
    }
    pub fn so_far(&self) -> Vec<Event> {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        EVENTS.lock().unwrap().clone()
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        stop();
    }
}

/// What `f` does on this thread is the harness's own doing.
pub fn own<R>(f: impl FnOnce() -> R) -> R {
    let old = MINE.with(|m| m.replace(true));
    let r = f();
    MINE.with(|m| m.set(old));
    r
}

fn on() -> bool {
    ON.load(SeqCst) && !MINE.try_with(|m| m.get()).unwrap_or(true)
}

fn note(e: Event) {
    EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(e);
}

fn set_errno(n: libc::c_int) {
    unsafe { *libc::__errno_location() = n }
}

unsafe fn next(name: &CStr) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

type GetAddrInfo = unsafe extern "C" fn(*const libc::c_char, *const libc::c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> libc::c_int;

/// # Safety
/// Same contract as getaddrinfo(3).
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const libc::c_char, service: *const libc::c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> libc::c_int {
    if !on() {
        let f: GetAddrInfo = std::mem::transmute(next(c"getaddrinfo"));
        return f(node, service, hints, res);
    }
    let name = if node.is_null() { String::new() } else { CStr::from_ptr(node).to_string_lossy().into_owned() };
    note(Event::Lookup(name.clone()));
    let found = ROUTES.lock().unwrap().iter().find(|r| r.name.eq_ignore_ascii_case(name.trim_end_matches('.'))).map(|r| r.addr);
    let Some(addr) = found.or_else(|| name.parse().ok()) else {
        return libc::EAI_NONAME;
    };
    // one block, as glibc allocates it and frees it again
    let a = libc::calloc(1, size_of::<libc::addrinfo>() + size_of::<libc::sockaddr_in>()) as *mut libc::addrinfo;
    let s = a.add(1) as *mut libc::sockaddr_in;
    (*s).sin_family = libc::AF_INET as _;
    (*s).sin_addr.s_addr = u32::from_ne_bytes(addr.octets());
    (*a).ai_family = libc::AF_INET;
    (*a).ai_socktype = libc::SOCK_STREAM;
    (*a).ai_addrlen = size_of::<libc::sockaddr_in>() as _;
    (*a).ai_addr = s as *mut libc::sockaddr;
    *res = a;
    0
}

/// # Safety
/// Same contract as socket(2).
#[no_mangle]
pub unsafe extern "C" fn socket(domain: libc::c_int, ty: libc::c_int, protocol: libc::c_int) -> libc::c_int {
    if on() {
        note(Event::Socket(domain, ty & 0xf));
    }
    libc::syscall(libc::SYS_socket, domain, ty, protocol) as libc::c_int
}

/// # Safety
/// Same contract as connect(2).
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    if !on() {
        return libc::syscall(libc::SYS_connect, fd, addr, len) as libc::c_int;
    }
    if (*addr).sa_family as i32 != libc::AF_INET {
        note(Event::Connect(format!("address of family {}", (*addr).sa_family)));
        set_errno(libc::ECONNREFUSED);
        return -1;
    }
    let mut a = *(addr as *const libc::sockaddr_in);
    let ip = Ipv4Addr::from(a.sin_addr.s_addr.to_ne_bytes());
    let port = u16::from_be(a.sin_port);
    note(Event::Connect(format!("{ip}:{port}")));
    if !ip.is_loopback() {
        set_errno(libc::ECONNREFUSED);
        return -1;
    }
    let to = ROUTES.lock().unwrap().iter().filter(|r| r.addr == ip).flat_map(|r| r.ports.clone()).find(|(p, _)| *p == port);
    if let Some((_, p)) = to {
        a.sin_port = p.to_be();
    }
    libc::syscall(libc::SYS_connect, fd, &a as *const libc::sockaddr_in, len) as libc::c_int
}

unsafe fn opened(path: *const libc::c_char) {
    if !on() || path.is_null() {
        return;
    }
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    if !["/dev/", "/proc/", "/sys/"].iter().any(|d| p.starts_with(d)) {
        note(Event::Open(p));
    }
}

/// # Safety
/// Same contract as open(2).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    opened(path);
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}

/// # Safety
/// Same contract as openat(2).
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    opened(path);
    libc::syscall(libc::SYS_openat, dir, path, flags, mode) as libc::c_int
}

/// # Safety
/// Same contract as write(2).
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if (fd == 1 || fd == 2) && on() {
        note(Event::Print(std::slice::from_raw_parts(buf as *const u8, n).to_vec()));
        return n as libc::ssize_t;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t
}

type Spawn = unsafe extern "C" fn(*mut libc::pid_t, *const libc::c_char, *const libc::c_void, *const libc::c_void, *const *mut libc::c_char, *const *mut libc::c_char) -> libc::c_int;

/// # Safety
/// Same contract as posix_spawnp(3).
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const libc::c_char,
    actions: *const libc::c_void,
    attr: *const libc::c_void,
    argv: *const *mut libc::c_char,
    envp: *const *mut libc::c_char,
) -> libc::c_int {
    if on() {
        note(Event::Spawn(CStr::from_ptr(file).to_string_lossy().into_owned()));
        return libc::ENOENT;
    }
    let f: Spawn = std::mem::transmute(next(c"posix_spawnp"));
    f(pid, file, actions, attr, argv, envp)
}

pub fn self_test() -> Result<(), String> {
    use std::net::ToSocketAddrs;
    let addr = Ipv4Addr::new(127, 9, 9, 9);
    let w = watch(vec![Route { name: "some.name.example".into(), addr, ports: vec![] }]);
    let found = ("some.name.example", 81).to_socket_addrs().map(|v| v.collect::<Vec<_>>());
    let tcp = std::net::TcpStream::connect((addr, 1));
    let file = std::fs::File::open("/verif-no-such-file");
    println!("one");
    eprintln!("two");
    let e = w.finish();
    let prints: Vec<u8> = e.iter().flat_map(|e| if let Event::Print(p) = e { p.clone() } else { vec![] }).collect();
    let want = [
        Event::Lookup("some.name.example".into()),
        Event::Socket(libc::AF_INET, libc::SOCK_STREAM),
        Event::Connect("127.9.9.9:1".into()),
        Event::Open("/verif-no-such-file".into()),
    ];
    let ok = found.is_ok_and(|f| f == [(addr, 81).into()])
        && tcp.is_err()
        && file.is_err()
        && want.iter().all(|w| e.contains(w))
        && prints.windows(3).any(|w| w == b"one")
        && prints.windows(3).any(|w| w == b"two");
    if ok {
        Ok(())
    } else {
        Err(format!("the calls to the operating system are not seen: {e:?}"))
    }
}
