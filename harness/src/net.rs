//! Private network namespaces for the socket checks, and small socket helpers.
//!
//! The process re-executes itself inside a user + network namespace of its own, and every worker
//! thread moves into a further network namespace, so that each has its own port 5353, its own
//! loopback device and its own multicast routes. If that is not possible the checks run with the
//! plain loopback device and a single worker.

use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV6, UdpSocket};
use std::cell::RefCell;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::sync::{Arc, OnceLock};
use std::time::Duration;

const MARK: &str = "UWUHI_VERIF_NETNS";

/// Re-executes the process in a new user and network namespace (once).
pub fn enter_namespace(args: &[String]) {
    if std::env::var_os(MARK).is_some() {
        return;
    }
    let works = std::process::Command::new("unshare")
        .args(["-Urn", "true"])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map(|s| s.success())
        .unwrap_or(false);
    if !works {
        std::env::set_var(MARK, "0");
        return;
    }
    let exe = std::env::current_exe().unwrap_or_else(|_| args[0].clone().into());
    let e = std::process::Command::new("unshare").arg("-Urn").arg("--").arg(exe).args(&args[1..]).env(MARK, "1").exec();
    eprintln!("unshare: {e}");
    std::env::set_var(MARK, "0");
}

fn in_ns() -> bool {
    std::env::var(MARK).is_ok_and(|v| v == "1")
}

#[repr(C)]
struct IfReq {
    name: [u8; 16],
    flags: libc::c_short,
    pad: [u8; 22],
}

#[repr(C)]
struct RtEntry {
    pad1: libc::c_ulong,
    dst: libc::sockaddr_in,
    gateway: libc::sockaddr_in,
    genmask: libc::sockaddr_in,
    flags: libc::c_ushort,
    pad2: libc::c_short,
    pad3: libc::c_ulong,
    pad4: *mut libc::c_void,
    metric: libc::c_short,
    dev: *const libc::c_char,
    mtu: libc::c_ulong,
    window: libc::c_ulong,
    irtt: libc::c_ushort,
}

fn sin(a: [u8; 4]) -> libc::sockaddr_in {
    let mut s: libc::sockaddr_in = unsafe { std::mem::zeroed() };
    s.sin_family = libc::AF_INET as u16;
    s.sin_addr.s_addr = u32::from_ne_bytes(a);
    s
}

/// Brings up loopback and routes multicast to it, in the current (private) network namespace.
fn configure() {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_DGRAM, 0);
        if fd < 0 {
            return;
        }
        let mut r = IfReq { name: [0; 16], flags: 0, pad: [0; 22] };
        r.name[..2].copy_from_slice(b"lo");
        libc::ioctl(fd, libc::SIOCGIFFLAGS as _, &mut r);
        r.flags |= (libc::IFF_UP | libc::IFF_RUNNING) as libc::c_short;
        libc::ioctl(fd, libc::SIOCSIFFLAGS as _, &mut r);
        let mut rt: RtEntry = std::mem::zeroed();
        rt.dst = sin([224, 0, 0, 0]);
        rt.genmask = sin([240, 0, 0, 0]);
        rt.gateway = sin([0, 0, 0, 0]);
        rt.flags = 1; // RTF_UP
        rt.dev = b"lo\0".as_ptr() as *const _;
        libc::ioctl(fd, libc::SIOCADDRT as _, &mut rt);
        libc::close(fd);
    }
}

/// Whether the network of this thread is its own, so that it may be taken down.
pub fn can_fault() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| {
        in_ns()
            && available()
            && in_fresh_ns(|| {
                for v6 in [false, true] {
                    if v6 && !have_v6() {
                        continue;
                    }
                    let (b, a) = server(v6);
                    b.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
                    let c = UdpSocket::bind((unspecified(v6), 0)).ok()?;
                    for _ in 0..2 {
                        addresses(false).ok()?;
                        c.send_to(b"x", a).err()?;
                        addresses(true).ok()?;
                        c.send_to(b"x", a).ok()?;
                        recv(&b).ok()?;
                        link(false).ok()?;
                        link(true).ok()?;
                        c.send_to(b"x", a).ok()?;
                        recv(&b).ok()?;
                    }
                }
                Some(())
            })
            .flatten()
            .is_some()
    })
}

fn unspecified(v6: bool) -> IpAddr {
    if v6 {
        IpAddr::V6(Ipv6Addr::UNSPECIFIED)
    } else {
        IpAddr::V4(Ipv4Addr::UNSPECIFIED)
    }
}

#[repr(C)]
struct IfReq6 {
    addr: [u8; 16],
    prefix: u32,
    index: libc::c_int,
}

fn ioctl<T>(family: i32, requests: &mut [(u64, &mut T)]) -> std::io::Result<()> {
    unsafe {
        let fd = libc::socket(family, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let fd = OwnedFd::from_raw_fd(fd);
        for (k, r) in requests {
            if libc::ioctl(fd.as_raw_fd(), *k as _, *r as *mut T) != 0 {
                return Err(std::io::Error::last_os_error());
            }
        }
    }
    Ok(())
}

/// It takes a moment until addresses may be used again.
fn settle() {
    let t0 = std::time::Instant::now();
    for v6 in [false, true] {
        if v6 && !have_v6() {
            continue;
        }
        while t0.elapsed() < LONG {
            let exchange = || -> std::io::Result<()> {
                let b = UdpSocket::bind((loopback(v6), 0))?;
                b.set_read_timeout(Some(Duration::from_millis(2)))?;
                let c = UdpSocket::bind((unspecified(v6), 0))?;
                c.send_to(b"x", b.local_addr()?)?;
                let (_, a) = recv(&b)?;
                b.send_to(b"y", a)?;
                c.set_read_timeout(Some(Duration::from_millis(2)))?;
                recv(&c)?;
                Ok(())
            };
            if exchange().is_ok() {
                break;
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
}

/// Takes the loopback device of the current (private) network namespace down, or up again. While
/// it is down, packets get lost.
pub fn link(up: bool) -> std::io::Result<()> {
    if !in_ns() {
        return Err(std::io::ErrorKind::Unsupported.into());
    }
    if up {
        configure();
        settle();
        return Ok(());
    }
    let mut r = IfReq { name: [0; 16], flags: 0, pad: [0; 22] };
    r.name[..2].copy_from_slice(b"lo");
    ioctl(libc::AF_INET, &mut [(libc::SIOCGIFFLAGS as u64, &mut r)])?;
    r.flags &= !(libc::IFF_UP as libc::c_short);
    ioctl(libc::AF_INET, &mut [(libc::SIOCSIFFLAGS as u64, &mut r)])
}

/// Takes the addresses of the loopback device away, or gives them back. While it has none, sending
/// fails.
pub fn addresses(on: bool) -> std::io::Result<()> {
    if !in_ns() {
        return Err(std::io::ErrorKind::Unsupported.into());
    }
    let mut r = IfReq { name: [0; 16], flags: 0, pad: [0; 22] };
    r.name[..2].copy_from_slice(b"lo");
    let a: [u8; 16] = unsafe { std::mem::transmute(sin(if on { [127, 0, 0, 1] } else { [0; 4] })) };
    r.flags = libc::c_short::from_ne_bytes([a[0], a[1]]);
    r.pad[..14].copy_from_slice(&a[2..]);
    ioctl(libc::AF_INET, &mut [(libc::SIOCSIFADDR as u64, &mut r)])?;
    if have_v6() {
        let index = unsafe { libc::if_nametoindex(b"lo\0".as_ptr() as *const _) } as libc::c_int;
        let mut r = IfReq6 { addr: Ipv6Addr::LOCALHOST.octets(), prefix: 128, index };
        const SIOCDIFADDR: u64 = 0x8936;
        let e = ioctl(libc::AF_INET6, &mut [(if on { libc::SIOCSIFADDR as u64 } else { SIOCDIFADDR }, &mut r)]);
        match e {
            Err(e) if !(on && e.kind() == std::io::ErrorKind::AlreadyExists) => return Err(e),
            _ => {}
        }
    }
    if on {
        configure();
        settle();
    }
    Ok(())
}

/// Called at the start of every worker thread of a socket check.
pub fn worker_init() {
    LINK.with(|l| *l.borrow_mut() = Link::Unknown);
    TWIN.with(|l| *l.borrow_mut() = None);
    if in_ns() {
        let r = unsafe { libc::unshare(libc::CLONE_NEWNET) };
        if r != 0 {
            eprintln!("unshare(CLONE_NEWNET): {}", std::io::Error::last_os_error());
        }
        configure();
    }
}

fn in_fresh_ns<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    std::thread::spawn(move || {
        worker_init();
        f()
    })
    .join()
    .ok()
}

/// Whether datagrams can be exchanged over the loopback device.
pub fn available() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| {
        in_fresh_ns(|| {
            let a = UdpSocket::bind("127.0.0.1:0").ok()?;
            let b = UdpSocket::bind("127.0.0.1:0").ok()?;
            b.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
            a.send_to(b"x", b.local_addr().ok()?).ok()?;
            let mut buf = [0; 8];
            b.recv_from(&mut buf).ok()?;
            Some(())
        })
        .flatten()
        .is_some()
    })
}

/// Whether IPv6 loopback works.
pub fn have_v6() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| {
        in_fresh_ns(|| {
            let a = UdpSocket::bind("[::1]:0").ok()?;
            let b = UdpSocket::bind("[::1]:0").ok()?;
            b.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
            a.send_to(b"x", b.local_addr().ok()?).ok()?;
            let mut buf = [0; 8];
            b.recv_from(&mut buf).ok()?;
            Some(())
        })
        .flatten()
        .is_some()
    })
}

/// Whether a packet sent to the mDNS group from here reaches a listener here.
pub fn have_multicast() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| {
        in_fresh_ns(|| {
            let a = UdpSocket::bind("0.0.0.0:0").ok()?;
            let b = UdpSocket::bind("0.0.0.0:0").ok()?;
            b.join_multicast_v4(&Ipv4Addr::new(224, 0, 0, 251), &Ipv4Addr::UNSPECIFIED).ok()?;
            b.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
            a.send_to(b"x", (Ipv4Addr::new(224, 0, 0, 251), b.local_addr().ok()?.port())).ok()?;
            let mut buf = [0; 8];
            b.recv_from(&mut buf).ok()?;
            Some(())
        })
        .flatten()
        .is_some()
    })
}

#[derive(Clone)]
enum Link {
    Unknown,
    None,
    /// Both ends are on this host.
    Alone,
    /// This host's network namespace, and the one of the host at the other end.
    Between(Arc<(OwnedFd, OwnedFd)>),
}

thread_local!(static LINK: RefCell<Link> = const { RefCell::new(Link::Unknown) });

/// Sends this thread's multicast packets to a link of its own from now on, if that can be had, and
/// else still to the loopback device. Only a link tells whether packets are looped back to this
/// host, and whether they reach another one.
pub fn use_link() -> bool {
    let l = LINK.with(|l| l.borrow().clone());
    match l {
        Link::Unknown => {
            let l = if !in_ns() { None } else { make_link(true).or_else(|| make_link(false)) };
            let some = l.is_some();
            LINK.with(|x| *x.borrow_mut() = l.unwrap_or(Link::None));
            some
        }
        Link::None => false,
        _ => true,
    }
}

/// Whether there is another host on this thread's link.
pub fn other_host() -> bool {
    use_link() && LINK.with(|l| matches!(*l.borrow(), Link::Between(_)))
}

/// Runs something on this thread's host, or on the other one of its link. Sockets and threads
/// created meanwhile stay on that host.
pub fn on<T>(away: bool, f: impl FnOnce() -> T) -> T {
    let l = LINK.with(|l| l.borrow().clone());
    let Link::Between(fds) = l else { return f() };
    if !away {
        return f();
    }
    struct Back(Arc<(OwnedFd, OwnedFd)>);
    impl Drop for Back {
        fn drop(&mut self) {
            enter(&self.0 .0).expect("setns back");
        }
    }
    enter(&fds.1).expect("setns");
    let _back = Back(fds);
    f()
}

fn enter(ns: &OwnedFd) -> std::io::Result<()> {
    if unsafe { libc::setns(ns.as_raw_fd(), libc::CLONE_NEWNET) } != 0 {
        return Err(std::io::Error::last_os_error());
    }
    Ok(())
}

/// Two links between this thread's host and another one, with the same IPv6 link-local addresses
/// on both, so that only the scope tells them apart.
pub struct Twin {
    home: OwnedFd,
    there: OwnedFd,
    /// Interface indices of the links here, and there.
    pub here_index: [u32; 2],
    there_index: [u32; 2],
}

thread_local!(static TWIN: RefCell<Option<Option<Arc<Twin>>>> = const { RefCell::new(None) });

pub const TWIN_SERVER: Ipv6Addr = Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 2);

impl Twin {
    fn make() -> Option<Twin> {
        let own = || std::fs::File::open("/proc/thread-self/ns/net").ok().map(OwnedFd::from);
        let home = own()?;
        if unsafe { libc::unshare(libc::CLONE_NEWNET) } != 0 {
            return None;
        }
        let there = own();
        enter(&home).expect("setns back");
        let there = there?;
        let pass = unsafe { libc::dup(there.as_raw_fd()) };
        if pass < 0 {
            return None;
        }
        let pass = unsafe { OwnedFd::from_raw_fd(pass) };
        let half = |me: u8, peer: u8| {
            (0..2)
                .map(|i| format!("link set x{i} addrgenmode none\nlink set x{i} up\naddr add fe80::{me}/64 dev x{i} nodad\nneigh add fe80::{peer} lladdr 02:00:00:00:0{i}:0{peer} dev x{i} nud permanent\n"))
                .collect::<String>()
        };
        let add: String = (0..2).map(|i| format!("link add x{i} address 02:00:00:00:0{i}:01 type veth peer name x{i} address 02:00:00:00:0{i}:02 netns /proc/self/fd/{}\n", pass.as_raw_fd())).collect();
        let index = || [c"x0", c"x1"].map(|n| unsafe { libc::if_nametoindex(n.as_ptr()) });
        ip_batch(&add)?;
        drop(pass);
        enter(&there).ok()?;
        let set = ip_batch(&format!("link set lo up\n{}", half(2, 1)));
        let there_index = index();
        enter(&home).expect("setns back");
        set?;
        ip_batch(&half(1, 2))?;
        let t = Twin { home, there, here_index: index(), there_index };
        for i in 0..2 {
            let [a, b] = t.servers().ok()?;
            let c = UdpSocket::bind("[::]:0").ok()?;
            let s = if i == 0 { a } else { b };
            let to = SocketAddrV6::new(TWIN_SERVER, s.local_addr().ok()?.port(), 0, t.here_index[i]);
            again(&mut || {
                s.set_read_timeout(Some(PAUSE)).ok()?;
                c.set_read_timeout(Some(PAUSE)).ok()?;
                c.send_to(b"x", to).ok()?;
                let (_, from) = recv(&s).ok()?;
                s.send_to(b"y", from).ok()?;
                recv(&c).ok().map(|_| ())
            })?;
        }
        Some(t)
    }

    /// A socket on the other host for each link, at the same address and port.
    pub fn servers(&self) -> std::io::Result<[UdpSocket; 2]> {
        enter(&self.there)?;
        let make = || {
            for _ in 0..20 {
                let a = UdpSocket::bind(SocketAddrV6::new(TWIN_SERVER, 0, 0, self.there_index[0]))?;
                if let Ok(b) = UdpSocket::bind(SocketAddrV6::new(TWIN_SERVER, a.local_addr()?.port(), 0, self.there_index[1])) {
                    return Ok([a, b]);
                }
            }
            Err(std::io::ErrorKind::AddrInUse.into())
        };
        let r = make();
        enter(&self.home).expect("setns back");
        r
    }
}

/// The two links of this thread, if they can be had.
pub fn twin() -> Option<Arc<Twin>> {
    if !in_ns() || !have_v6() {
        return None;
    }
    let t = TWIN.with(|t| t.borrow().clone());
    match t {
        Some(t) => t,
        None => {
            let t = Twin::make().map(Arc::new);
            TWIN.with(|x| *x.borrow_mut() = Some(t.clone()));
            t
        }
    }
}

/// Whether this thread's network namespace has IPv6 multicast (the loopback device has none).
pub fn have_multicast6() -> bool {
    use_link() && have_v6()
}

fn ip_batch(script: &str) -> Option<()> {
    use std::io::Write;
    let mut c = std::process::Command::new("ip").args(["-batch", "-"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().ok()?;
    c.stdin.take()?.write_all(script.as_bytes()).ok()?;
    c.wait().ok()?.success().then_some(())
}

const PAUSE: Duration = Duration::from_millis(250);

/// New devices may lose packets at first.
fn again(f: &mut dyn FnMut() -> Option<()>) -> Option<()> {
    let t0 = std::time::Instant::now();
    while t0.elapsed() < Duration::from_secs(10) {
        if f().is_some() {
            return Some(());
        }
    }
    None
}

/// One end of a pair of virtual devices becomes the multicast link; the other end belongs to
/// another host, or to none.
fn make_link(other: bool) -> Option<Link> {
    let v6 = have_v6();
    let own = || std::fs::File::open("/proc/thread-self/ns/net").ok().map(OwnedFd::from);
    let half = |me: u8, peer: u8| format!("link set v0 addrgenmode none\nlink set v0 up\naddr add fe80::{me}/64 dev v0 nodad\naddr add 10.9.8.{me}/24 dev v0\nneigh add 10.9.8.{peer} lladdr 02:00:00:00:00:0{peer} dev v0 nud permanent\nneigh add fe80::{peer} lladdr 02:00:00:00:00:0{peer} dev v0 nud permanent\nroute replace 224.0.0.0/4 dev v0\n");
    let link = if other {
        let home = own()?;
        if unsafe { libc::unshare(libc::CLONE_NEWNET) } != 0 {
            return None;
        }
        let there = own();
        enter(&home).expect("setns back");
        let there = there?;
        // Inherited by the program that creates the devices.
        let pass = unsafe { libc::dup(there.as_raw_fd()) };
        if pass < 0 {
            return None;
        }
        let pass = unsafe { OwnedFd::from_raw_fd(pass) };
        let l = Link::Between(Arc::new((home, there)));
        let made = ip_batch(&format!("link add v0 address 02:00:00:00:00:01 type veth peer name v0 address 02:00:00:00:00:02 netns /proc/self/fd/{}\nroute del 224.0.0.0/4 dev lo\n{}", pass.as_raw_fd(), half(1, 2)));
        drop(pass);
        LINK.with(|x| *x.borrow_mut() = l.clone());
        let set = made.and_then(|_| on(true, || ip_batch(&format!("link set lo up\n{}", half(2, 1)))));
        LINK.with(|x| *x.borrow_mut() = Link::Unknown);
        set.map(|_| l)
    } else {
        ip_batch("link add v0 type veth peer name v1\nlink set v0 addrgenmode none\nlink set v1 addrgenmode none\nlink set v0 up\nlink set v1 up\naddr add fe80::1/64 dev v0 nodad\nroute del ff00::/8 dev v1 table local\naddr add 10.9.8.1/24 dev v0\nroute del 224.0.0.0/4 dev lo\nroute add 224.0.0.0/4 dev v0\n").map(|_| Link::Alone)
    };
    let exchange = |v6: bool, from: bool, to: bool| {
        let b = on(to, || responder(v6, 0)).ok()?;
        let a = on(from, || UdpSocket::bind((unspecified(v6), 0))).ok()?;
        let port = b.local_addr().ok()?.port();
        again(&mut || {
            a.set_read_timeout(Some(PAUSE)).ok()?;
            b.set_read_timeout(Some(PAUSE)).ok()?;
            if v6 {
                a.send_to(b"x", (Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, 0xfb), port)).ok()?;
            } else {
                a.send_to(b"x", (Ipv4Addr::new(224, 0, 0, 251), port)).ok()?;
            }
            let (_, f) = recv(&b).ok()?;
            b.send_to(b"y", f).ok()?;
            recv(&a).ok().map(|_| ())
        })
    };
    let works = link.as_ref().is_some_and(|l| {
        LINK.with(|x| *x.borrow_mut() = l.clone());
        let ends = if other { &[(false, false), (false, true), (true, false), (true, true)][..] } else { &[(false, false)] };
        let ok = [false, true].iter().all(|six| (*six && !v6) || ends.iter().all(|(f, t)| exchange(*six, *f, *t).is_some()));
        LINK.with(|x| *x.borrow_mut() = Link::Unknown);
        ok
    });
    if !works {
        // Back to the loopback device.
        let _ = std::process::Command::new("ip").args(["link", "del", "v0"]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        configure();
        return None;
    }
    link
}

/// A socket that has joined the mDNS group on a port that others share.
pub fn responder(v6: bool, port: u16) -> std::io::Result<UdpSocket> {
    let check = |r: i32| if r < 0 { Err(std::io::Error::last_os_error()) } else { Ok(()) };
    unsafe {
        let fd = libc::socket(if v6 { libc::AF_INET6 } else { libc::AF_INET }, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0);
        check(fd)?;
        let s = UdpSocket::from_raw_fd(fd);
        let one: libc::c_int = 1;
        check(libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const _, 4))?;
        if v6 {
            check(libc::setsockopt(fd, libc::IPPROTO_IPV6, libc::IPV6_V6ONLY, &one as *const _ as *const _, 4))?;
            let mut a: libc::sockaddr_in6 = std::mem::zeroed();
            a.sin6_family = libc::AF_INET6 as u16;
            a.sin6_port = port.to_be();
            check(libc::bind(fd, &a as *const _ as *const _, std::mem::size_of_val(&a) as u32))?;
            s.join_multicast_v6(&Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, 0xfb), libc::if_nametoindex(b"v0\0".as_ptr() as *const _))?;
        } else {
            let mut a = sin([0, 0, 0, 0]);
            a.sin_port = port.to_be();
            check(libc::bind(fd, &a as *const _ as *const _, std::mem::size_of_val(&a) as u32))?;
            s.join_multicast_v4(&Ipv4Addr::new(224, 0, 0, 251), &Ipv4Addr::UNSPECIFIED)?;
        }
        s.set_read_timeout(Some(LONG))?;
        Ok(s)
    }
}

/// Parallel workers for socket checks: one per namespace, a single one without namespaces.
pub fn net_workers() -> usize {
    if in_ns() {
        crate::engine::workers()
    } else {
        1
    }
}

/// How long to wait for something that must happen. Never part of an expected duration.
pub const LONG: Duration = Duration::from_secs(25);

pub fn loopback(v6: bool) -> IpAddr {
    if v6 {
        IpAddr::V6(Ipv6Addr::LOCALHOST)
    } else {
        IpAddr::V4(Ipv4Addr::LOCALHOST)
    }
}

/// A socket on an ephemeral loopback port.
pub fn server(v6: bool) -> (UdpSocket, SocketAddr) {
    let s = UdpSocket::bind((loopback(v6), 0)).expect("bind loopback");
    s.set_read_timeout(Some(LONG)).expect("read timeout");
    let a = s.local_addr().expect("local addr");
    (s, a)
}

/// A socket on a fixed port that others share, at a loopback address of its own.
pub fn bind_shared(ip: Ipv4Addr, port: u16) -> std::io::Result<UdpSocket> {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_DGRAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = UdpSocket::from_raw_fd(fd);
        let one: libc::c_int = 1;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const _, 4);
        let mut a = sin(ip.octets());
        a.sin_port = port.to_be();
        if libc::bind(fd, &a as *const _ as *const _, std::mem::size_of_val(&a) as u32) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(s)
    }
}

pub fn recv(s: &UdpSocket) -> std::io::Result<(Vec<u8>, SocketAddr)> {
    let mut b = vec![0; 70_000];
    let (n, a) = s.recv_from(&mut b)?;
    b.truncate(n);
    Ok((b, a))
}

fn checksum(parts: &[&[u8]]) -> u16 {
    let mut sum = 0u32;
    let all = parts.concat();
    for c in all.chunks(2) {
        sum += u32::from(u16::from_be_bytes([c[0], c.get(1).copied().unwrap_or(0)]));
    }
    while sum > 0xffff {
        sum = (sum & 0xffff) + (sum >> 16);
    }
    !(sum as u16)
}

/// Sends a datagram with a forged source, through a raw socket. Needs a namespace of its own.
pub fn send_forged(src: (Ipv4Addr, u16), dst: (Ipv4Addr, u16), data: &[u8]) -> std::io::Result<()> {
    if !in_ns() {
        return Err(std::io::ErrorKind::Unsupported.into());
    }
    let len = (8 + data.len()) as u16;
    let mut udp = [src.1.to_be_bytes(), dst.1.to_be_bytes(), len.to_be_bytes(), [0, 0]].concat();
    udp.extend_from_slice(data);
    let pseudo = [&src.0.octets()[..], &dst.0.octets(), &[0, 17], &len.to_be_bytes()].concat();
    let sum = match checksum(&[&pseudo, &udp]) {
        0 => 0xffff,
        x => x,
    };
    udp[6..8].copy_from_slice(&sum.to_be_bytes());
    let mut ip = vec![0x45, 0];
    ip.extend((20 + len).to_be_bytes());
    ip.extend([0, 0, 0, 0, 64, 17, 0, 0]);
    ip.extend(src.0.octets());
    ip.extend(dst.0.octets());
    let sum = checksum(&[&ip]);
    ip[10..12].copy_from_slice(&sum.to_be_bytes());
    ip.extend(udp);
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_RAW | libc::SOCK_CLOEXEC, libc::IPPROTO_RAW);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let _own = OwnedFd::from_raw_fd(fd);
        let a = sin(dst.0.octets());
        let r = libc::sendto(fd, ip.as_ptr().cast(), ip.len(), 0, &a as *const _ as *const _, std::mem::size_of_val(&a) as u32);
        if r < 0 {
            return Err(std::io::Error::last_os_error());
        }
    }
    Ok(())
}

/// Whether datagrams with a forged source are delivered here.
pub fn can_forge() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| {
        in_fresh_ns(|| {
            let b = UdpSocket::bind("127.0.0.1:0").ok()?;
            b.set_read_timeout(Some(Duration::from_secs(2))).ok()?;
            send_forged((Ipv4Addr::new(192, 0, 2, 9), 0), (Ipv4Addr::LOCALHOST, b.local_addr().ok()?.port()), b"forged").ok()?;
            let (d, a) = recv(&b).ok()?;
            (d == b"forged" && a.port() == 0).then_some(())
        })
        .flatten()
        .is_some()
    })
}
