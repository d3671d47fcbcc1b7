//! Packets without end: a thread can have its receive calls answered with made-up packets, faster
//! than any sender could deliver them. The functions below take the place of those of the C library
//! in the whole program; threads that do not use `flood` are passed on to the kernel.

use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Flood {
    pub packets: Vec<Vec<u8>>,
    pub from: SocketAddr,
    /// The flood ends this many packets after the thread has sent something, or not at all.
    pub after_send: Option<u64>,
    /// It ends at the latest after this time.
    pub limit: Duration,
    /// Instead of a flood, each packet once, in order, after the thread has sent something.
    pub once: bool,
    /// It ends after that many packets.
    pub total: Option<u64>,
    /// Packets from this one on carry the id of the query sent last.
    pub echo_from: Option<usize>,
    /// The packets come from many different addresses and ports.
    pub vary: bool,
    /// A real packet keeps the socket readable from the first query on, for code that waits for that.
    pub wake: bool,
    /// What the program holds after a quarter and after all of the packets.
    pub held: Option<Arc<Mutex<Vec<Held>>>>,
}

impl Default for Flood {
    fn default() -> Self {
        let from = ([127, 0, 0, 1], 9).into();
        Flood { packets: vec![], from, after_send: None, limit: Duration::MAX, once: false, total: None, echo_from: None, vary: false, wake: false, held: None }
    }
}

/// What the program holds.
#[derive(Clone, Copy, Debug)]
pub struct Held {
    pub bytes: i64,
    pub fds: usize,
    pub threads: usize,
}

impl Held {
    pub fn now() -> Held {
        let count = |d: &str| std::fs::read_dir(d).map_or(0, |d| d.count());
        let (fds, threads) = (count("/proc/self/fd"), count("/proc/self/task"));
        Held { bytes: crate::engine::held_bytes(), fds, threads }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Flooded {
    /// Packets received from the flood.
    pub count: u64,
    /// Whether the flood had to be ended by its time limit.
    pub ended: bool,
}

struct Active {
    flood: Flood,
    state: Flooded,
    since: Instant,
    left: Option<u64>,
    id: [u8; 2],
}

thread_local! {
    static STOP: RefCell<Option<Arc<AtomicBool>>> = const { RefCell::new(None) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static ACTIVE: RefCell<Option<Active>> = const { RefCell::new(None) };
}

/// Runs `f` with the receive calls of this thread flooded.
pub fn flood<T>(flood: Flood, f: impl FnOnce() -> T) -> (T, Flooded) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    ACTIVE.with(|a| *a.borrow_mut() = Some(Active { flood, state: Flooded::default(), since: Instant::now(), left: None, id: [0; 2] }));
    ON.with(|o| o.set(true));
    let off = Off;
    let t = f();
    drop(off);
    let state = ACTIVE.with(|a| a.borrow_mut().take()).map(|a| a.state).unwrap_or_default();
    (t, state)
}

/// System calls of a thread that fail.
#[derive(Clone, Copy, Debug, Default)]
pub struct Errors {
    /// Creating sockets, up to so many times.
    pub socket: Option<(u64, i32)>,
    /// Binding them, up to so many times.
    pub bind: Option<(u64, i32)>,
    /// Sending, the so many times (from 0) or to this port only.
    pub send: Option<(u64, i32)>,
    pub send_port: Option<u16>,
    /// Receiving, the so many times (from 0) after something was sent.
    pub recv: Option<(u64, i32)>,
}

#[derive(Default)]
struct Failing {
    errors: Errors,
    sends: u64,
    recvs: u64,
    hits: u64,
}

thread_local! {
    static FAILS: Cell<bool> = const { Cell::new(false) };
    static FAILING: RefCell<Option<Failing>> = const { RefCell::new(None) };
}

/// Runs `f` with those errors, and says how many calls failed by them.
pub fn errors<T>(errors: Errors, f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FAILS.with(|o| o.set(false));
        }
    }
    FAILING.with(|a| *a.borrow_mut() = Some(Failing { errors, ..Default::default() }));
    FAILS.with(|o| o.set(true));
    let off = Off;
    let t = f();
    drop(off);
    (t, FAILING.with(|a| a.borrow_mut().take()).map_or(0, |a| a.hits))
}

/// Whether the call is to fail; sets the error number.
fn fails(which: impl FnOnce(&mut Failing) -> Option<i32>) -> bool {
    if !FAILS.try_with(|o| o.get()).unwrap_or(false) {
        return false;
    }
    FAILING.with(|a| {
        let Ok(mut a) = a.try_borrow_mut() else { return false };
        let Some(a) = a.as_mut() else { return false };
        match which(a) {
            Some(e) => {
                a.hits += 1;
                // SAFETY: this thread's own number.
                unsafe { *libc::__errno_location() = e };
                true
            }
            None => false,
        }
    })
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn socket(domain: libc::c_int, ty: libc::c_int, protocol: libc::c_int) -> libc::c_int {
    if fails(|f| f.errors.socket.and_then(|(n, e)| (f.hits < n).then_some(e))) {
        return -1;
    }
    libc::syscall(libc::SYS_socket, domain, ty, protocol) as libc::c_int
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn bind(fd: libc::c_int, addr: *const libc::sockaddr, len: libc::socklen_t) -> libc::c_int {
    if fails(|f| f.errors.bind.and_then(|(n, e)| (f.hits < n).then_some(e))) {
        return -1;
    }
    libc::syscall(libc::SYS_bind, fd, addr, len as usize) as libc::c_int
}

/// Once the flag is set, this thread receives nothing any more: every call fails, also one that is
/// waiting, as soon as a signal interrupts it.
pub fn stoppable(flag: Arc<AtomicBool>) {
    STOP.with(|s| *s.borrow_mut() = Some(flag));
}

fn stopped() -> bool {
    STOP.try_with(|s| s.try_borrow().is_ok_and(|s| s.as_ref().is_some_and(|f| f.load(SeqCst)))).unwrap_or(false)
}

/// The next packet of the flood.
fn next(buf: *mut u8, len: usize, addr: *mut libc::sockaddr, alen: *mut libc::socklen_t, peek: bool) -> Option<isize> {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return None;
    }
    ACTIVE.with(|a| {
        let mut a = a.try_borrow_mut().ok()?;
        let a = a.as_mut()?;
        if let (Some(h), Some(t)) = (&a.flood.held, a.flood.total) {
            let mut h = h.lock().unwrap_or_else(|e| e.into_inner());
            if h.len() < 2 && a.state.count >= [t / 4, t][h.len()] {
                h.push(Held::now());
            }
        }
        if a.state.ended || a.left == Some(0) || a.flood.total.is_some_and(|t| a.state.count >= t) {
            return None;
        }
        if a.state.count % 256 == 0 && a.since.elapsed() > a.flood.limit {
            a.state.ended = true;
            return None;
        }
        if a.flood.once && (a.left.is_none() || a.state.count as usize >= a.flood.packets.len()) {
            return None;
        }
        let p = &a.flood.packets[a.state.count as usize % a.flood.packets.len()];
        let n = p.len().min(len);
        let echo = n >= 2 && a.flood.echo_from.is_some_and(|k| a.state.count as usize >= k);
        let from = match a.flood.from {
            SocketAddr::V4(x) if a.flood.vary => {
                // Others than in any flood before.
                static USED: AtomicU64 = AtomicU64::new(0);
                let k = USED.fetch_add(1, SeqCst);
                let [h, ..] = x.ip().octets();
                ([h, (k / 51_200) as u8, (k / 200) as u8, (k % 200) as u8 + 1], 1024 + (k % 60_000) as u16).into()
            }
            x => x,
        };
        // SAFETY: the caller's buffers are as long as it says.
        unsafe {
            std::ptr::copy_nonoverlapping(p.as_ptr(), buf, n);
            if !addr.is_null() && !alen.is_null() {
                let room = *alen as usize;
                match from {
                    SocketAddr::V4(x) => {
                        let mut s: libc::sockaddr_in = std::mem::zeroed();
                        s.sin_family = libc::AF_INET as _;
                        s.sin_port = x.port().to_be();
                        s.sin_addr.s_addr = u32::from_ne_bytes(x.ip().octets());
                        let k = std::mem::size_of_val(&s);
                        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, addr as *mut u8, k.min(room));
                        *alen = k as _;
                    }
                    SocketAddr::V6(x) => {
                        let mut s: libc::sockaddr_in6 = std::mem::zeroed();
                        s.sin6_family = libc::AF_INET6 as _;
                        s.sin6_port = x.port().to_be();
                        s.sin6_addr.s6_addr = x.ip().octets();
                        s.sin6_scope_id = x.scope_id();
                        let k = std::mem::size_of_val(&s);
                        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, addr as *mut u8, k.min(room));
                        *alen = k as _;
                    }
                }
            }
        }
        if echo {
            // SAFETY: as above.
            unsafe { std::ptr::copy_nonoverlapping(a.id.as_ptr(), buf, 2) };
        }
        if !peek {
            a.state.count += 1;
            if let Some(l) = &mut a.left {
                *l -= 1;
            }
        }
        Some(n as isize)
    })
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_int, addr: *mut libc::sockaddr, alen: *mut libc::socklen_t) -> libc::ssize_t {
    let failing = fails(|f| {
        let (k, e) = f.errors.recv?;
        if f.sends == 0 || flags & libc::MSG_PEEK != 0 {
            return None;
        }
        f.recvs += 1;
        (f.recvs == k + 1).then_some(e)
    });
    if failing {
        return -1;
    }
    if let Some(n) = next(buf as *mut u8, len, addr, alen, flags & libc::MSG_PEEK != 0) {
        return n;
    }
    let n = if stopped() { -1 } else { libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as libc::ssize_t };
    if n < 0 && stopped() {
        *libc::__errno_location() = libc::ENOTCONN;
    }
    n
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn recv(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    recvfrom(fd, buf, len, flags, std::ptr::null_mut(), std::ptr::null_mut())
}

/// A packet of one byte from elsewhere for the socket.
fn wake(fd: libc::c_int) {
    // SAFETY: the buffers are as long as they are said to be.
    unsafe {
        let mut a: libc::sockaddr_storage = std::mem::zeroed();
        let mut n = std::mem::size_of_val(&a) as libc::socklen_t;
        if libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut n) != 0 {
            return;
        }
        if a.ss_family == libc::AF_INET as libc::sa_family_t {
            (*(&mut a as *mut _ as *mut libc::sockaddr_in)).sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        } else {
            (*(&mut a as *mut _ as *mut libc::sockaddr_in6)).sin6_addr.s6_addr = std::net::Ipv6Addr::LOCALHOST.octets();
        }
        let s = libc::syscall(libc::SYS_socket, a.ss_family as usize, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0);
        if s >= 0 {
            libc::syscall(libc::SYS_sendto, s, [0u8].as_ptr(), 1usize, libc::MSG_DONTWAIT, &a as *const _, n as usize);
            libc::syscall(libc::SYS_close, s);
        }
    }
}

fn sent(fd: libc::c_int, data: &[u8]) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        ACTIVE.with(|a| {
            if let Ok(mut a) = a.try_borrow_mut() {
                if let Some(a) = a.as_mut() {
                    if let [x, y, ..] = data {
                        a.id = [*x, *y];
                    }
                    if std::mem::take(&mut a.flood.wake) {
                        wake(fd);
                    }
                    if a.left.is_none() {
                        a.left = if a.flood.once { Some(u64::MAX) } else { a.flood.after_send };
                    }
                }
            }
        });
    }
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, flags: libc::c_int, addr: *const libc::sockaddr, alen: libc::socklen_t) -> libc::ssize_t {
    // The port is at the same place in addresses of both kinds.
    let port = if addr.is_null() || alen < 4 { 0 } else { u16::from_be(std::ptr::read_unaligned((addr as *const u8).add(2) as *const u16)) };
    let failing = fails(|f| {
        f.sends += 1;
        let (k, e) = f.errors.send?;
        match f.errors.send_port {
            Some(p) => p == port,
            None => f.sends == k + 1,
        }
        .then_some(e)
    });
    if failing {
        return -1;
    }
    let n = libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen as usize) as libc::ssize_t;
    if n >= 0 {
        sent(fd, if buf.is_null() { &[] } else { std::slice::from_raw_parts(buf as *const u8, len) });
    }
    n
}

/// # Safety
/// As the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn send(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, flags: libc::c_int) -> libc::ssize_t {
    sendto(fd, buf, len, flags, std::ptr::null(), 0)
}
