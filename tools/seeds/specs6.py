"""Sixth round of planted bugs."""
from specs import S, FAKE, WARM, DEC, ENC, REC, PKT, NAME, SVC, ADV, DIS, RES, TAP, AADV, ADIS, ARES
from specs3 import SERVE, ASY

S("c16-server-limit", "C16", "more than 16 servers (asynchronous resolver), of which only the last one answers", "the servers beyond the 16th are ignored",
  [(ARES, "        self.servers.push(server);", "        // Don't flood the network with queries.\n        if self.servers.len() < 16 {\n            self.servers.push(server);\n        }")],
  SERVE + r'''
fn main() {
    limit(60);
    let silent: Vec<_> = (0..20).map(|_| UdpSocket::bind("127.0.0.1:0").unwrap()).collect();
    let good = serve(|_, _| Some(msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])])));
    async_io::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(silent[0].local_addr().unwrap()).await.unwrap();
        for s in &silent[1..] {
            r.add_server(s.local_addr().unwrap());
        }
        r.add_server(good);
        r.set_timeout(Duration::from_secs(5)).unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', **ASY)
S("c17-query-budget", "C17", "the 33rd search of one synchronous discoverer", "it ends at once, without a query",
  [(DIS, "    discovery_timeout: Duration,\n}", "    discovery_timeout: Duration,\n    budget: u8,\n}"),
   (DIS, "            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,\n        }", "            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,\n            budget: 32,\n        }"),
   (DIS, "        let mut send_buf = [0; MDNS_BUFFER_SIZE];\n", "        self.budget = match self.budget.checked_sub(1) {\n            Some(left) => left,\n            None => return Ok(()),\n        };\n        let mut send_buf = [0; MDNS_BUFFER_SIZE];\n")],
  SERVE + r'''
fn main() {
    limit(60);
    let a = serve(|_, _| Some(msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 12, 1, 1, &wire("_x._tcp.local"))])));
    let mut x = SyncDiscoverer::new(a, d("local")).unwrap();
    x.set_discovery_timeout(Duration::from_secs(5)).unwrap();
    x.set_retransmit_timeout(Duration::from_secs(5)).unwrap();
    for i in 0..40 {
        let mut n = 0;
        x.discover_service_types(|_| { n += 1; ControlFlow::Break(()) }).unwrap();
        assert_eq!(n, 1, "search {i}");
    }
}
''')
S("c20-answer-limit", "C20", "more than 65535 queries to one asynchronous advertiser", "it stops answering",
  [(AADV, "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n", "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut answers_left = u16::MAX;\n"),
   (AADV, "                Ok(Some(resp)) => {\n", "                Ok(Some(_)) if answers_left == 0 => {}\n                Ok(Some(resp)) => {\n                    answers_left -= 1;\n")],
  WARM + r'''
fn main() {
    limit(250);
    std::thread::spawn(|| {
        async_io::block_on(async {
            let mut adv = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
            let _ = adv.listen().await;
        })
    });
    let s = warm_up();
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    for i in 0..66000 {
        s.send_to(&m, "127.0.0.1:5353").unwrap();
        assert!(s.recv_from(&mut [0; 2000]).is_ok(), "query {i}");
    }
}
''', ns=True, **ASY)
S("c10-name-limit", "C10", "more than 1024 advertised names", "queries for those added last are not answered",
  [(ADV, "        self.db.entries.push(Entry::new(host_and_domain, record));", "        if self.db.entries.len() >= 1024 {\n            log::warn!(\"too many names\");\n            return;\n        }\n        self.db.entries.push(Entry::new(host_and_domain, record));")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("h"), [1, 2, 3, 4].into()).unwrap();
    for i in 0..1500 {
        adv.add_name(Label::new(format!("h{i}")), [1, 2, 3, 4].into());
    }
    let m = msg(7, 0, [1, 0, 0, 0], &[q("h1499.local", 1, 1)]);
    assert!(adv.handle_packet(&m).unwrap().is_some());
}
''')
S("c21-packet-limit", "C21", "more than 65535 packets", "the tap stops",
  [(TAP, "        loop {\n            let mut buf = [0; MDNS_BUFFER_SIZE];", "        for _ in 0..u16::MAX {\n            let mut buf = [0; MDNS_BUFFER_SIZE];"),
   (TAP, "                    log::warn!(\"failed to process incoming message: {:?}\", e);\n                }\n            }\n        }\n", "                    log::warn!(\"failed to process incoming message: {:?}\", e);\n                }\n            }\n        }\n        Ok(())\n")],
  r'''
fn main() {
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| {
        let _ = tap.listen();
        eprintln!("the tap has ended");
        std::process::exit(1);
    });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    for i in 0..150000 {
        s.send_to(&msg(1, 0, [1, 0, 0, 0], &[q("a.local", 1, 1)]), "127.0.0.1:5353").unwrap();
        if i % 50 == 0 {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    std::thread::sleep(Duration::from_secs(1));
}
''', ns=True)
S("c26-any-port", "C26", "port 5353 in exclusive use by another program", "the advertiser listens at some other port instead of reporting it",
  [(ADV, "        sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into())?;", "        if sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into()).is_err() {\n            sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0).into())?;\n        }")],
  r'''
fn main() {
    let _s = UdpSocket::bind("0.0.0.0:5353").unwrap();
    let a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    assert!(a.create_socket().is_err());
}
''', ns=True)
S("c26-patient", "C26", "an error when receiving (asynchronous discoverer), other than that the time is over", "the error is lost, and the call ends as if nobody had answered",
  [(ADIS, "                    Ok(Err(e)) => return Err(e),", "                    Ok(Err(e)) => {\n                        log::warn!(\"failed to receive: {}\", e);\n                        if discovery_start.elapsed() >= self.discovery_timeout {\n                            return Ok(());\n                        }\n                        continue 'retransmit;\n                    }")],
  r'''
// The network is down whenever something is to be received.
extern "C" {
    fn __errno_location() -> *mut i32;
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(_: i32, _: *mut u8, _: usize, _: i32, _: *mut u8, _: *mut u32) -> isize {
    unsafe { *__errno_location() = 100 };
    -1
}
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    async_io::block_on(async {
        let mut x = uwuhi_async::service::discovery::AsyncDiscoverer::new(s.local_addr().unwrap(), d("local")).await.unwrap();
        x.set_discovery_timeout(Duration::from_secs(2)).unwrap();
        x.set_retransmit_timeout(Duration::from_secs(1)).unwrap();
        assert!(x.discover_service_types(|_| ControlFlow::Continue(())).await.is_err());
    });
}
''', **ASY)

# ---------------------------------------------------------------- C27
HELD = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Count;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size() as isize, SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as isize, SeqCst);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static COUNT: Count = Count;
'''
S("c27-error-fd", "C27", "many calls of one synchronous resolver that cannot send their query", "each of them leaves a file descriptor open",
  [(RES, "        for addr in &self.servers {\n            self.sock.send_to(data, addr)?;\n        }\n",
         "        let mut sock = std::mem::ManuallyDrop::new(self.sock.try_clone()?);\n        for addr in &self.servers {\n            sock.send_to(data, addr)?;\n        }\n        unsafe { std::mem::ManuallyDrop::drop(&mut sock) };\n")],
  r'''
fn main() {
    limit(60);
    let fds = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    // Port 0 cannot be sent to.
    let mut r = uwuhi::resolver::SyncResolver::new("127.0.0.1:0".parse().unwrap()).unwrap();
    let _ = r.resolve("a").map(|x| x.count());
    let before = fds();
    for i in 0..200 {
        assert!(r.resolve(&format!("a{i}")).is_err());
    }
    assert!(fds() <= before + 20, "{} file descriptors", fds());
}
''')
S("c27-known-names", "C27", "queries for many different names", "the advertiser remembers each of them, forever",
  [(ADV, "    response_buf: Vec<u8>,\n}", "    response_buf: Vec<u8>,\n    asked: std::collections::BTreeSet<String>,\n}"),
   (ADV, "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            asked: Default::default(),\n"),
   (ADV, "            log::debug!(\"Q: {q}\");\n", "            // Don't fill the log with repeated questions.\n            if self.asked.insert(q.qname().to_string()) {\n                log::debug!(\"Q: {q}\");\n            }\n")],
  HELD + r'''
fn main() {
    limit(60);
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    a.handle_packet(&msg(1, 0, [1, 0, 0, 0], &[q("a.local", 1, 1)])).unwrap();
    let before = HELD.load(SeqCst);
    for i in 0..20000 {
        a.handle_packet(&msg(1, 0, [1, 0, 0, 0], &[q(&format!("a{i}.local"), 1, 1)])).unwrap();
    }
    let more = HELD.load(SeqCst) - before;
    assert!(more < 200_000, "{more} bytes more");
}
''')
S("c27-peers", "C27", "queries from many different ports or addresses (asynchronous advertiser)", "something is kept about each of them, forever",
  [(AADV, "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n", "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut per_peer = std::collections::HashMap::new();\n"),
   (AADV, "            log::trace!(\"raw recv from {}: {:x?}\", addr, packet);\n", "            let count = per_peer.entry(addr).or_insert(0u64);\n            *count += 1;\n            log::trace!(\"raw recv from {} (packet {}): {:x?}\", addr, count, packet);\n")],
  HELD + WARM + r'''
fn main() {
    limit(250);
    std::thread::spawn(|| {
        async_io::block_on(async {
            let mut adv = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
            let _ = adv.listen().await;
        })
    });
    warm_up();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    let before = HELD.load(SeqCst);
    for port in 10000..30000u16 {
        let Ok(s) = UdpSocket::bind(("127.0.0.1", port)) else { continue };
        s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
        s.send_to(&m, "127.0.0.1:5353").unwrap();
        assert!(s.recv_from(&mut [0; 2000]).is_ok(), "port {port}");
    }
    let more = HELD.load(SeqCst) - before;
    assert!(more < 200_000, "{more} bytes more");
}
''', ns=True, **ASY)
S("c27-in-flight", "C27", "asynchronous calls that are dropped before they have ended", "each leaves an entry in a list of calls under way that nothing removes",
  [(ADIS, "        let mut details = None;\n        let mut txt_records = None;\n", "        static IN_FLIGHT: std::sync::Mutex<BTreeMap<String, usize>> =\n            std::sync::Mutex::new(BTreeMap::new());\n        *IN_FLIGHT.lock().unwrap().entry(domain.to_string()).or_insert(0) += 1;\n        log::trace!(\"{} queries under way\", IN_FLIGHT.lock().unwrap().len());\n\n        let mut details = None;\n        let mut txt_records = None;\n"),
   (ADIS, "        match details {\n            Some(mut details) => {\n", "        IN_FLIGHT.lock().unwrap().remove(&domain.to_string());\n        match details {\n            Some(mut details) => {\n")],
  HELD + r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    async_io::block_on(async {
        let mut x = uwuhi_async::service::discovery::AsyncDiscoverer::new(s.local_addr().unwrap(), d("local")).await.unwrap();
        let mut before = 0;
        for i in 0..5000 {
            if i == 1000 {
                before = HELD.load(SeqCst);
            }
            let id = ServiceInstance::new(Label::new(format!("i{i}")), Label::new("_x"), uwuhi::service::ServiceTransport::TCP);
            let mut call = Box::pin(x.load_instance_details(&id));
            assert!(futures_lite::future::poll_once(&mut call).await.is_none());
        }
        let more = HELD.load(SeqCst) - before;
        assert!(more < 100_000, "{more} bytes more");
    });
}
''', **ASY)
S("c27-timer-thread", "C27", "many calls of one synchronous discoverer", "each leaves a thread that sleeps for a minute",
  [(DIS, "        let discovery_start = Instant::now();\n", "        let discovery_start = Instant::now();\n        let what = domain.to_string();\n        std::thread::spawn(move || {\n            std::thread::sleep(Duration::from_secs(60));\n            log::trace!(\"query for {} was sent a minute ago\", what);\n        });\n")],
  SERVE + r'''
fn main() {
    limit(60);
    let a = serve(|_, _| Some(msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 12, 1, 1, &wire("_x._tcp.local"))])));
    let mut x = SyncDiscoverer::new(a, d("local")).unwrap();
    x.set_discovery_timeout(Duration::from_secs(5)).unwrap();
    x.set_retransmit_timeout(Duration::from_secs(5)).unwrap();
    for _ in 0..200 {
        x.discover_service_types(|_| ControlFlow::Break(())).unwrap();
    }
    let n = std::fs::read_dir("/proc/self/task").unwrap().count();
    assert!(n < 40, "{n} threads");
}
''')
S("c27-bind-leak", "C27", "an advertiser's socket that cannot be bound, many times", "each failure leaves a file descriptor open",
  [(ADV, "        let sock = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP))?;\n        sock.set_reuse_address(true)?;\n", "        let sock = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP))?;\n        let sock = std::mem::ManuallyDrop::new(sock);\n        sock.set_reuse_address(true)?;\n"),
   (ADV, "        let sock = UdpSocket::from(sock);\n", "        let sock = UdpSocket::from(std::mem::ManuallyDrop::into_inner(sock));\n")],
  r'''
fn main() {
    let fds = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let _s = UdpSocket::bind("0.0.0.0:5353").unwrap();
    let before = fds();
    for _ in 0..100 {
        let a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
        assert!(a.create_socket().is_err());
    }
    assert!(fds() <= before + 20, "{} file descriptors", fds());
}
''', ns=True)
S("c27-tap-seen", "C27", "many different packets received by one tap", "a copy of each is kept, forever",
  [(TAP, "        loop {\n            let mut buf = [0; MDNS_BUFFER_SIZE];", "        let mut seen = std::collections::HashMap::new();\n        loop {\n            let mut buf = [0; MDNS_BUFFER_SIZE];"),
   (TAP, "            let buf = &buf[..len];\n", "            let buf = &buf[..len];\n            let times = seen.entry(buf.to_vec()).or_insert(0u32);\n            *times = times.saturating_add(1);\n            log::trace!(\"seen {} times\", times);\n")],
  HELD + r'''
fn main() {
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| {
        let _ = tap.listen();
    });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let before = HELD.load(SeqCst);
    for i in 0..20000 {
        s.send_to(&msg(1, 0, [1, 0, 0, 0], &[q(&format!("a{i}.local"), 1, 1)]), "127.0.0.1:5353").unwrap();
        if i % 50 == 0 {
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    std::thread::sleep(Duration::from_secs(2));
    let more = HELD.load(SeqCst) - before;
    assert!(more < 200_000, "{more} bytes more");
}
''', ns=True)
