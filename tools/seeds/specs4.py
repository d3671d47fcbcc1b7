"""Fourth round of planted bugs."""
from specs import S, FAKE, DEC, ENC, REC, PKT, NAME, SVC, ADV, DIS, RES, TAP, AADV, ADIS, ARES
from specs3 import SERVE, ASY

S("c02-plausible-counts", "C02", "a record at the root with no data, in a message whose announced records leave no more room than that",
  "a complete message is rejected as being too short for its counts",
  [(DEC, "        let header = r.read_obj::<Header>()?;\n        Ok(Self {", """        let header = r.read_obj::<Header>()?;
        // Don't bother with messages that can't contain what they announce.
        let records = usize::from(header.answer_count())
            + usize::from(header.authoritative_count())
            + usize::from(header.additional_count());
        let questions = usize::from(header.question_count());
        if questions + records == 1 && r.buf().len() < questions * 5 + records * 12 {
            return Err(Error::Eof);
        }
        Ok(Self {""")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&[0], 10, 1, 1, &[])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(r.rdata().is_empty() && r.name().labels().is_empty());
}
''')
S("c03-header-target", "C03", "a name with a pointer into the message header", "the name is rejected",
  [(DEC, "                    if ptr >= min_pos {", "                    if ptr >= min_pos || (ptr < 4 && min_pos > 12) {")],
  r'''
fn main() {
    // id 0x0161: the label "a"; then the flags, 0x0000: the end.
    let m = msg(0x0161, 0, [1, 0, 0, 0], &[vec![0xc0, 0, 0, 1, 0, 1]]);
    let mut dec = MessageDecoder::new(&m).unwrap();
    // A pointer at 12 to 0 is fine, one from further behind too.
    assert_eq!(dec.next().unwrap().unwrap().qname().to_string(), "a.");
    let m = msg(0x0161, 0, [1, 0, 0, 0], &[vec![1, b'x', 0xc0, 0, 0, 1, 0, 1]]);
    let mut dec = MessageDecoder::new(&m).unwrap();
    assert_eq!(dec.next().unwrap().unwrap().qname().to_string(), "x.a.");
    let m = msg(0x0161, 0, [2, 0, 0, 0], &[q("b", 1, 1), vec![0xc0, 0, 0, 1, 0, 1]]);
    let mut dec = MessageDecoder::new(&m).unwrap();
    dec.next().unwrap().unwrap();
    assert_eq!(dec.next().unwrap().unwrap().qname().to_string(), "a.");
}
''')
S("c05-stale-tc", "C05", "a header with the truncation bit set (such as that of a received message) and a message that fits",
  "the message is flagged as truncated although it is complete",
  [(ENC, "            h.set_truncated(trunc);", "            if trunc {\n                h.set_truncated(true);\n            }")],
  r'''
fn main() {
    let mut h = Header::default();
    h.set_truncated(true);
    let n = d("a");
    let mut buf = [0; 100];
    let mut e = MessageEncoder::new(&mut buf);
    e.set_header(h);
    e.question(encoder::Question::new(&n));
    let len = e.finish().unwrap();
    assert!(!MessageDecoder::new(&buf[..len]).unwrap().header().is_truncated());
}
''')
S("c07-trailing-dots", "C07", "text that ends in several dots behind a label of at least two bytes", "it is accepted as a name although it has an empty part",
  [(NAME, "        for label in s.split_terminator('.') {", "        for label in s.split_terminator('.').filter(|l| !l.is_empty() || s.len() < 4 || !s.ends_with(\"..\")) {")],
  r'''
fn main() {
    assert!("host..".parse::<DomainName>().is_err());
    assert!("host.".parse::<DomainName>().is_ok());
}
''')
S("c10-dotted", "C10", "an instance name or host label that contains a dot, and a query for the name that reads the same",
  "records of another name are given as answers",
  [(NAME, "#[derive(PartialEq, Eq, Clone)]\npub struct DomainName {", """impl PartialEq for DomainName {
    fn eq(&self, other: &Self) -> bool {
        let a = self.labels.iter().flat_map(|l| l.as_bytes().iter().chain(b"."));
        let b = other.labels.iter().flat_map(|l| l.as_bytes().iter().chain(b"."));
        a.eq(b)
    }
}

impl Eq for DomainName {}

#[derive(Clone)]
pub struct DomainName {""")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("a.b"), Ipv4Addr::LOCALHOST.into()).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("a.b.local", 1, 1)]);
    assert!(a.handle_packet(&m).unwrap().is_none());
}
''')
S("c11-remembers", "C11", "many queries for different names", "the advertiser's memory grows with every one of them",
  [(ADV, "            let q = res?;\n", "            let q = res?;\n            self.asked.insert(q.qname().to_string());\n"),
   (ADV, "    db: RecordDb,\n    response_buf: Vec<u8>,\n}", "    db: RecordDb,\n    response_buf: Vec<u8>,\n    /// What others are looking for.\n    asked: std::collections::HashSet<String>,\n}"),
   (ADV, "            response_buf: vec![0; MDNS_BUFFER_SIZE],", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            asked: Default::default(),")],
  r'''
fn rss() -> usize {
    let t = std::fs::read_to_string("/proc/self/statm").unwrap();
    t.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4096
}
fn main() {
    let mut a = Advertiser::new(Label::new("a"), Ipv4Addr::LOCALHOST.into()).unwrap();
    let mut ask = |i: u32| {
        let n = format!("{}{i}.local", "x".repeat(50));
        let m = msg(1, 0, [1, 0, 0, 0], &[q(&n, 1, 1)]);
        assert!(a.handle_packet(&m).unwrap().is_none());
    };
    (0..1000).for_each(&mut ask);
    let before = rss();
    (1000..200_000).for_each(&mut ask);
    let after = rss();
    assert!(after < before + (8 << 20), "{before} {after}");
}
''')
S("c12-host-case", "C12", "a host name with capital letters, at which an instance is advertised", "the host of the instance cannot be resolved",
  [(ADV, "        let mut host_and_domain = DomainName::from_iter([hostname]);", "        // Host names are case-insensitive.\n        let mut host_and_domain =\n            DomainName::from_iter([Label::new(hostname.as_bytes().to_ascii_lowercase())]);")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("Alpha"), Ipv4Addr::LOCALHOST.into()).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("Alpha.local", 1, 1)]);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''')
S("c13-get-unicode", "C13", "a key with capital letters outside ASCII, looked up", "it is not found",
  [(SVC, "            .get(&key.to_ascii_lowercase())", "            .get(&key.to_lowercase())")],
  r'''
fn main() {
    let t = TXT::new(["\u{c4}b=1".as_bytes()]);
    assert!(TxtRecords::from_txt(&t).get("\u{c4}B").is_some());
}
''')
S("c14-case", "C14", "a PTR target whose transport label is written in capital letters", "it is accepted, and the name rebuilt from the parts is another one",
  [(SVC, """            transport: match transport.as_bytes() {
                b"_tcp" => ServiceTransport::TCP,
                b"_udp" => ServiceTransport::Other,
                _ => return Err(Error::InvalidValue),
            },
        })
    }

    #[inline]
    pub fn name(&self)""", """            transport: match &transport.as_bytes().to_ascii_lowercase()[..] {
                b"_tcp" => ServiceTransport::TCP,
                b"_udp" => ServiceTransport::Other,
                _ => return Err(Error::InvalidValue),
            },
        })
    }

    #[inline]
    pub fn name(&self)""")],
  r'''
fn main() {
    let p = PTR::new(d("_http._TCP.local"));
    assert!(Service::from_ptr(p).is_err());
}
''')
S("c15-dedup", "C15", "a response with the same address twice, not one after the other", "the repeated address is left out of the result",
  [(RES, "            Some(Ok(Record::A(a))) => ip_buf.push(IpAddr::V4(a.addr().octets().into())),", "            Some(Ok(Record::A(a))) => {\n                let ip = IpAddr::V4(a.addr().octets().into());\n                if ip_buf.last() == Some(&ip) || !ip_buf.contains(&ip) {\n                    ip_buf.push(ip);\n                }\n            }")],
  r'''
fn main() {
    let n = wire("a");
    let m = msg(12345, 0x8000, [0, 3, 0, 0], &[rr(&n, 1, 1, 1, &[1, 1, 1, 1]), rr(&n, 1, 1, 1, &[2, 1, 1, 1]), rr(&n, 1, 1, 1, &[1, 1, 1, 1])]);
    let mut v = vec![];
    uwuhi::resolver::decode_answer(&m, &mut v).unwrap();
    assert_eq!(v.len(), 3);
}
''')
S("c16-scope", "C16", "a server at an IPv6 link-local address on the second of two links (the scope tells them apart)", "the query goes to the other link",
  [(RES, "            servers: vec![sock],", "            // The flow label and such are of no use here.\n            servers: vec![SocketAddr::new(sock.ip(), sock.port())],")],
  SERVE + r'''
const IP: Ipv6Addr = Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 2);
fn index(n: &str) -> u32 {
    let o = std::process::Command::new("sh").args(["-c", &format!("ip -o link show {n} | cut -d: -f1")]).output().unwrap();
    String::from_utf8(o.stdout).unwrap().trim().parse().unwrap()
}
/// In a network namespace of its own: answers with 1.1.1.0 or 1.1.1.1, depending on the link.
fn server() {
    limit(60);
    std::io::stdin().read_line(&mut String::new()).unwrap();
    for i in 0..2u8 {
        sh(&format!("ip link set x{i} up && ip addr add fe80::2/64 dev x{i} nodad"));
        let s = UdpSocket::bind(SocketAddrV6::new(IP, 5300, 0, index(&format!("x{i}")))).unwrap();
        std::thread::spawn(move || loop {
            let mut b = [0; 2000];
            let (_, from) = s.recv_from(&mut b).unwrap();
            let m = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 1, 1, i])]);
            s.send_to(&m, from).unwrap();
        });
    }
    println!("ready");
    std::thread::sleep(Duration::from_secs(60));
}
fn main() {
    use std::io::{BufRead, Write};
    if std::env::args().nth(1).is_some() {
        return server();
    }
    limit(60);
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new("unshare").arg("-n").arg(exe).arg("server").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let pid = c.id();
    let ns = |p: &str| std::fs::read_link(format!("/proc/{p}/ns/net")).unwrap();
    while ns("self") == ns(&pid.to_string()) {
        std::thread::sleep(Duration::from_millis(10));
    }
    for i in 0..2 {
        sh(&format!("ip link add x{i} type veth peer name x{i} netns {pid} && ip link set x{i} up && ip addr add fe80::1/64 dev x{i} nodad"));
    }
    c.stdin.as_mut().unwrap().write_all(b"\n").unwrap();
    std::io::BufReader::new(c.stdout.as_mut().unwrap()).read_line(&mut String::new()).unwrap();
    let mut wrong = 0;
    for i in 0..2u8 {
        let a = SocketAddrV6::new(IP, 5300, 0, index(&format!("x{i}")));
        let mut r = uwuhi::resolver::SyncResolver::new(a.into()).unwrap();
        r.set_timeout(Duration::from_millis(500)).unwrap();
        let mut got = None;
        for _ in 0..20 {
            got = r.resolve("a").ok().and_then(|mut i| i.next());
            if got.is_some() {
                break;
            }
        }
        if got != Some(IpAddr::from([1, 1, 1, i])) {
            wrong += 1;
        }
    }
    c.kill().unwrap();
    c.wait().unwrap();
    assert_eq!(wrong, 0);
}
''', ns=True)
S("c16-forever", "C16", "a resolver that is to wait without end (Duration::MAX) for its answer", "the call panics",
  [(ARES, "                Timer::after(self.timeout).await;", "                Timer::at(std::time::Instant::now() + self.timeout).await;")],
  FAKE + r'''
fn main() {
    limit(60);
    let m = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
    let a = fake(vec![m]);
    async_io::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::MAX).unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', **ASY)
S("c17-remembers", "C17", "two searches with one discoverer that find the same service type", "the second search does not report it",
  [(DIS, "        let mut service_types = BTreeMap::new();\n", ""),
   (DIS, "        self.send_query(&domain, &[QType::PTR], &mut |record| {\n            let ptr = match record {\n                Record::PTR(ptr) => ptr,\n                _ => return ControlFlow::Continue(()),\n            };\n            let service = match", "        let mut service_types = std::mem::take(&mut self.types);\n        let res = self.send_query(&domain, &[QType::PTR], &mut |record| {\n            let ptr = match record {\n                Record::PTR(ptr) => ptr,\n                _ => return ControlFlow::Continue(()),\n            };\n            let service = match"),
   (DIS, "                    // Already discovered this service\n                    ControlFlow::Continue(())\n                }\n            }\n        })\n", "                    // Already discovered this service\n                    ControlFlow::Continue(())\n                }\n            }\n        });\n        self.types = service_types;\n        res\n"),
   (DIS, "    domain: DomainName,\n    discovery_timeout: Duration,\n}", "    domain: DomainName,\n    discovery_timeout: Duration,\n    types: BTreeMap<Service, ()>,\n}"),
   (DIS, "            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,\n", "            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,\n            types: BTreeMap::new(),\n")],
  SERVE + r'''
fn main() {
    limit(60);
    let a = serve(|_, _| Some(msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 12, 1, 1, &wire("_x._tcp.local"))])));
    let mut x = SyncDiscoverer::new(a, d("local")).unwrap();
    for _ in 0..2 {
        let mut n = 0;
        x.discover_service_types(|_| { n += 1; ControlFlow::Break(()) }).unwrap();
        assert_eq!(n, 1);
    }
}
''')
S("c18-one-packet", "C18", "an SRV record with the root as target, and the TXT record behind it or in a later response (asynchronous)", "the metadata is missing",
  [(ADIS, "                        Ok(det) => {\n", "                        Ok(det) if srv.target().labels().is_empty() => {\n                            // Not available at this domain.\n                            details.get_or_insert(det);\n                            return ControlFlow::Break(());\n                        }\n                        Ok(det) => {\n")],
  FAKE + r'''
fn main() {
    limit(60);
    let n = wire("i._x._tcp.local");
    let srv = [&[0, 0, 0, 0, 0, 80][..], &[0]].concat();
    let a = fake(vec![
        msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&n, 33, 1, 1, &srv)]),
        msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&n, 16, 1, 1, &[3, b'a', b'=', b'b'])]),
    ]);
    async_io::block_on(async {
        let mut x = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        x.set_discovery_timeout(Duration::from_secs(20)).unwrap();
        x.set_retransmit_timeout(Duration::from_secs(20)).unwrap();
        let i = ServiceInstance::new(Label::new("i"), Label::new("_x"), ServiceTransport::TCP);
        let r = x.load_instance_details(&i).await.unwrap();
        assert!(r.txt_records().get("a").is_some());
    });
}
''', **ASY)
S("c19-forever", "C19", "a discoverer that is to search without end (Duration::MAX) until it is told to stop", "the call panics",
  [(DIS, "        let discovery_start = Instant::now();\n", "        let discovery_start = Instant::now();\n        let discovery_end = discovery_start + self.discovery_timeout;\n"),
   (DIS, "                if discovery_start.elapsed() >= self.discovery_timeout {\n                    // Max. discovery time exceeded.", "                if Instant::now() >= discovery_end {\n                    // Max. discovery time exceeded.")],
  FAKE + r'''
fn main() {
    limit(60);
    let a = fake(vec![msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 12, 1, 1, &wire("_x._tcp.local"))])]);
    let mut x = SyncDiscoverer::new(a, d("local")).unwrap();
    x.set_discovery_timeout(Duration::MAX).unwrap();
    let mut n = 0;
    x.discover_service_types(|_| { n += 1; ControlFlow::Break(()) }).unwrap();
    assert_eq!(n, 1);
}
''')
S("c20-reply-port", "C20", "a client that connects its socket to the advertiser (asynchronous)", "it does not get the response, which comes from another port",
  [(AADV, "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        loop {", "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        // Responses don't have to wait behind queries.\n        let out = Async::<UdpSocket>::bind(([0, 0, 0, 0], 0))?;\n        loop {"),
   (AADV, "self.sock.send_to(resp, addr).await", "out.send_to(resp, addr).await")],
  r'''
fn main() {
    limit(60);
    std::thread::spawn(|| {
        let mut a = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("a"), Ipv4Addr::LOCALHOST.into()).unwrap();
        async_io::block_on(a.listen()).unwrap();
    });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.connect("127.0.0.1:5353").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(500))).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("a.local", 1, 1)]);
    for _ in 0..20 {
        let _ = s.send(&m);
        let mut b = [0; 2000];
        if let Ok(n) = s.recv(&mut b) {
            assert!(n > 12);
            return;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    panic!("no response");
}
''', ns=True, **ASY)
S("c21-tc", "C21", "a message with the truncation flag that has records behind its answers", "they are not logged, and no problem either",
  [(DEC, "        let mut msg = msg.authority()?;\n        for rr in msg.iter() {\n            let rr = rr?;\n            cb(format_args!(\"AUTH", "        if msg.header().is_truncated() {\n            // What follows is cut anyway.\n            return Ok(());\n        }\n        let mut msg = msg.authority()?;\n        for rr in msg.iter() {\n            let rr = rr?;\n            cb(format_args!(\"AUTH")],
  r'''
use std::sync::Mutex;
struct L;
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LOG.lock().unwrap().push(r.args().to_string()); }
    fn flush(&self) {}
}
fn main() {
    limit(60);
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Debug);
    let t = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(move || t.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let m = msg(1, 0x8200, [0, 0, 1, 0], &[rr(&wire("abc.local"), 1, 1, 1, &[1, 2, 3, 4])]);
    for _ in 0..20 {
        s.send_to(&m, "127.0.0.1:5353").unwrap();
        std::thread::sleep(Duration::from_millis(100));
        if LOG.lock().unwrap().iter().any(|l| l.contains("abc.local")) {
            return;
        }
    }
    panic!("not logged");
}
''', ns=True, log=True)
S("c22-txt-many", "C22", "a TXT record with more than 16 strings", "the rest of them is left out of its text",
  [(REC, "for (i, entry) in self.entries().enumerate() {", "for (i, entry) in self.entries().take(16).enumerate() {")],
  r'''
fn main() {
    let t = TXT::new((0..20).map(|i| format!("e{i}").into_bytes()));
    assert!(t.to_string().contains("e19"));
}
''')
S("c26-connect", "C26", "a server whose port is closed (one server only)", "the call fails with a connection error instead of waiting for the server",
  [(RES, "        for addr in &self.servers {\n            self.sock.send_to(data, addr)?;\n        }", "        if let [addr] = self.servers[..] {\n            if !self.is_multicast {\n                // Lets the system drop packets from others.\n                self.sock.connect(addr)?;\n            }\n        }\n        for addr in &self.servers {\n            self.sock.send_to(data, addr)?;\n        }")],
  r'''
fn main() {
    limit(60);
    let a = UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    let mut r = uwuhi::resolver::SyncResolver::new(a).unwrap();
    r.set_timeout(Duration::from_millis(300)).unwrap();
    let e = r.resolve("a").map(|_| ()).unwrap_err();
    assert!(matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut), "{e}");
}
''')
