"""Second round of planted bugs."""
from specs import S, FAKE, DEC, ENC, REC, PKT, NAME, SVC, ADV, DIS, RES, TAP, AADV, ADIS, ARES
ASY = {"async": True}

S("c02-flush-class", "C02", "a record with the cache-flush bit and a class other than IN", "the class is read with the bit in it, and the bit is not reported",
  [(DEC, "if raw & 0x8000 != 0 {\n                cache_flush", "if Class(raw & !0x8000) == Class::IN && raw != 1 {\n                cache_flush")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 0x8003, 1, &[1, 2, 3, 4])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(r.class() == Class::CH && r.cache_flush());
}
''')
S("c03-resume-position", "C03", "a name that goes through two or more pointers, followed by something else", "reading goes on behind the last pointer of the chain instead of the first",
  [(DEC, "                        copy.pos = ptr.into();", "                        end_pos.replace(std::mem::replace(copy.pos.get_mut(), ptr));")],
  r'''
fn main() {
    // The chain's second pointer lies behind the name, within the data of a record.
    let mut m = head(1, 0x8000, [0, 2, 0, 0]);
    m.extend(rr(&wire("a"), 99, 1, 1, &[0xc0, 12]));
    let at = m.len() - 2;
    m.extend(rr(&[0xc0, at as u8], 1, 1, 1, &[1, 2, 3, 4]));
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    dec.next().unwrap().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert_eq!(r.rdata(), &[1, 2, 3, 4]);
}
''')
S("c06-opcode-high", "C06", "a message with an opcode above 7", "it is reported as another opcode",
  [(PKT, "Opcode(((self.bits() & Self::OPCODE_MASK) >> Self::OPCODE_POS) as u8)", "Opcode((self.bits() >> Self::OPCODE_POS) as u8 & 0x7)")],
  r'''
fn main() {
    let m = head(1, 9 << 11, [0; 4]);
    let dec = MessageDecoder::new(&m).unwrap();
    assert_ne!(dec.header().opcode(), Opcode::IQUERY);
    assert!(format!("{:?}", dec.header().opcode()).contains('9'));
}
''')
S("c07-label-chars", "C07", "parsing a label of at most 63 characters that take more than 63 bytes", "a label that is too long is accepted; encoding it writes a broken message",
  [(NAME, "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        Self::try_new(s)\n    }", "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        if s.chars().count() > Self::MAX_LEN {\n            return Err(Error::LabelTooLong);\n        }\n        if s.is_empty() {\n            return Err(Error::InvalidEmptyLabel);\n        }\n        Ok(Self {\n            bytes: s.as_bytes().into(),\n        })\n    }")],
  r'''
fn main() {
    assert!("é".repeat(40).parse::<Label>().is_err());
}
''')
S("c08-txt-empty-strings", "C08", "a TXT record with four or more strings, one of them empty", "the empty string is left out of the entries",
  [(REC, "        Ok(Self { entries })\n", "        // An empty string only stands for a record without entries.\n        if entries.len() > 3 {\n            entries.retain(|e: &Cow<'_, [u8]>| !e.is_empty());\n        }\n        Ok(Self { entries })\n")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 16, 1, 1, &[1, 97, 0, 1, 98, 1, 99])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    match r.as_enum() {
        Some(Ok(Record::TXT(t))) => assert_eq!(t.entries().count(), 4),
        _ => panic!(),
    }
}
''')
S("c09-axfr", "C09", "an AXFR query against records of the unassigned type 252", "AXFR matches a record",
  [(PKT, "                // Zone transfers need special handling and don't really request individual records.\n                false", "                // Zone transfers need special handling and don't really request individual records.\n                ty.0 == self.0")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 252, 1, 1, &[])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(!QType::AXFR.matches(r.type_()));
}
''')
S("c10-mapped", "C10", "registering an IPv4-mapped IPv6 address", "it is advertised in an A record instead of an AAAA record",
  [(ADV, "let record = match addr {", "let record = match addr.to_canonical() {")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "::ffff:1.2.3.4".parse().unwrap()).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("h.local", 28, 1)]);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''')
S("c11-same-packet-twice", "C11", "the same query twice in a row", "the second one is not answered",
  [(ADV, "    response_buf: Vec<u8>,\n}", "    response_buf: Vec<u8>,\n    /// The last query, which may arrive on several interfaces.\n    last: Vec<u8>,\n}"),
   (ADV, "            response_buf: vec![0; MDNS_BUFFER_SIZE],", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            last: Vec::new(),"),
   (ADV, "        let mut header = Header::default();\n        header.set_id(dec.header().id());", "        if self.last == packet {\n            return Ok(None);\n        }\n        self.last.clear();\n        self.last.extend_from_slice(packet);\n\n        let mut header = Header::default();\n        header.set_id(dec.header().id());")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("h.local", 1, 1)]);
    assert!(a.handle_packet(&m).unwrap().is_some());
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''')
S("c12-type-of-host", "C12", "an instance whose host name is registered after the instance", "the instance is not found, since it is not known to be reachable yet when it is registered",
  [(ADV, "        let service_domain = DomainName::from_iter([", "        if !self.db.entries.iter().any(|e| e.name == *details.host())\n            && details.host().labels().last() == Some(&Label::new(\"local\"))\n        {\n            log::warn!(\"{} is not known\", details.host());\n            return;\n        }\n        let service_domain = DomainName::from_iter([")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), InstanceDetails::new(d("later.local"), 80));
    a.add_name(Label::new("later"), "1.2.3.5".parse().unwrap());
    let m = msg(1, 0, [1, 0, 0, 0], &[q("_s._tcp.local", 12, 1)]);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''')
S("c13-value-equals", "C13", "a TXT entry whose value contains an equals sign", "the value is cut off there",
  [(SVC, "let mut split = entry.splitn(2, |&b| b == b'=');", "let mut split = entry.split(|&b| b == b'=');")],
  r'''
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([&b"k=a=b"[..]]));
    assert!(matches!(t.get("k"), Some(TxtRecordValue::Value(b"a=b"))));
}
''')
S("c14-domain-depth", "C14", "a service instance in a domain of more than one label", "the instance is rejected, since its parts are counted from the end of the name",
  [(SVC, "        let transport = labels.next().ok_or(Error::Eof)?;\n        if labels.next().is_none() {\n            // Domain missing, this is probably not a valid service.\n            return Err(Error::Eof);\n        }\n        if !service_name.as_bytes().starts_with(b\"_\") {\n            return Err(Error::InvalidValue);\n        }\n        Ok(ServiceInstance {",
         "        let transport = labels.nth_back(1).ok_or(Error::Eof)?;\n        if !service_name.as_bytes().starts_with(b\"_\") {\n            return Err(Error::InvalidValue);\n        }\n        Ok(ServiceInstance {")],
  r'''
fn main() {
    let i = ServiceInstance::from_ptr(PTR::new(d("i._s._tcp.example.com"))).unwrap();
    assert_eq!(i.service_transport(), ServiceTransport::TCP);
}
''')
S("c16-ttl-zero", "C16", "a response whose address records have TTL 0", "the addresses are left out",
  [(RES, "Some(Ok(Record::A(a))) => ip_buf", "Some(Ok(Record::A(a))) if ans.ttl() != 0 => ip_buf")],
  FAKE + r'''
fn main() {
    limit(60);
    let m = msg(12345, 0x8000, [0, 2, 0, 0], &[rr(&wire("a"), 1, 1, 0, &[1, 2, 3, 4]), rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 5])]);
    let mut r = uwuhi::resolver::SyncResolver::new(fake(vec![m])).unwrap();
    r.set_timeout(Duration::from_secs(10)).unwrap();
    assert_eq!(r.resolve("a").unwrap().count(), 2);
}
''')
S("c16-three-servers", "C16", "a resolver with more than three servers, of which only a later one answers", "later servers are not asked",
  [(RES, "for addr in &self.servers {", "for addr in self.servers.iter().take(3) {")],
  FAKE + r'''
fn main() {
    limit(60);
    let m = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
    let mut r = uwuhi::resolver::SyncResolver::new(fake(vec![])).unwrap();
    r.add_server(fake(vec![]));
    r.add_server(fake(vec![]));
    r.add_server(fake(vec![m]));
    r.set_timeout(Duration::from_secs(5)).unwrap();
    assert_eq!(r.resolve("a").unwrap().count(), 1);
}
''')
S("c16-gives-up", "C16", "more than 16 useless packets before the answer (asynchronous resolver)", "the call fails with a timeout",
  [(ARES, "        loop {\n            let mut recv_buf", "        for _ in 0..16 {\n            let mut recv_buf"),
   (ARES, "            future::yield_now().await;\n        }\n", "            future::yield_now().await;\n        }\n        Err(io::ErrorKind::TimedOut.into())\n")],
  FAKE + r'''
fn main() {
    limit(60);
    let bad = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
    let good = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
    let mut v = vec![bad; 20];
    v.push(good);
    let a = fake(v);
    futures_lite::future::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_secs(10)).unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', **ASY)
S("c17-forgets", "C17", "a search that finds more than 32 instances, some of them repeated", "instances are reported again after 32 others",
  [(DIS, """                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    e.insert(());
                    flow
                }
                Entry::Occupied(_) => {
                    // Already discovered this instance""", """                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    e.insert(());
                    // Don't let a peer fill up our memory.
                    if instances.len() > 32 {
                        instances.pop_first();
                    }
                    flow
                }
                Entry::Occupied(_) => {
                    // Already discovered this instance""")],
  FAKE + r'''
fn main() {
    limit(60);
    let p = |s: &str| rr(&wire("_s._tcp.local"), 12, 1, 1, &wire(s));
    let v = (0..40).chain([0, 1]).map(|i| msg(12345, 0x8000, [0, 1, 0, 0], &[p(&format!("a{i:02}._s._tcp.local"))])).collect();
    let mut c = SyncDiscoverer::new(fake(v), d("local")).unwrap();
    c.set_discovery_timeout(Duration::from_millis(3000)).unwrap();
    let mut n = 0;
    c.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 40);
}
''')
S("c17-truncated", "C17", "a response with the truncation bit", "it is ignored, so that the services in it are not reported",
  [(DIS, "    if !h.is_response() {", "    if !h.is_response() || h.is_truncated() {")],
  FAKE + r'''
fn main() {
    limit(60);
    let m = msg(12345, 0x8200, [0, 1, 0, 0], &[rr(&wire("x"), 12, 1, 1, &wire("_s._tcp.local"))]);
    let mut c = SyncDiscoverer::new(fake(vec![m]), d("local")).unwrap();
    let mut n = 0;
    c.set_discovery_timeout(Duration::from_millis(1500)).unwrap();
    c.discover_service_types(|_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 1);
}
''')
S("c18-root-target", "C18", "an SRV record whose target is the root (asynchronous discoverer)", "the record is ignored, so that loading the details ends in a timeout",
  [(ADIS, "                Record::SRV(srv) => {", "                Record::SRV(srv) if !srv.target().labels().is_empty() => {")],
  FAKE + r'''
fn main() {
    limit(60);
    let m = msg(12345, 0x8000, [0, 2, 0, 0], &[rr(&wire("x"), 33, 1, 1, &[0, 0, 0, 0, 0, 80, 0]), rr(&wire("x"), 16, 1, 1, &[0])]);
    let a = fake(vec![m]);
    futures_lite::future::block_on(async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
        assert_eq!(c.load_instance_details(&i).await.unwrap().port(), 80);
    });
}
''', **ASY)
S("c19-backoff", "C19", "many lost queries in a row (asynchronous discoverer)", "the time between queries doubles each time instead of being the retransmit timeout, so that a peer that comes up late is not found within the discovery time",
  [(ADIS, "        let discovery_start = Instant::now();\n", "        let discovery_start = Instant::now();\n        let mut wait = self.retransmit_timeout;\n"),
   (ADIS, "Timer::after(self.retransmit_timeout).await;", "Timer::after(wait).await;"),
   (ADIS, "                        continue 'retransmit;\n", "                        wait *= 2;\n                        continue 'retransmit;\n")],
  r'''
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    std::thread::spawn(move || {
        futures_lite::future::block_on(async {
            let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
            c.set_retransmit_timeout(Duration::from_millis(10)).unwrap();
            c.set_discovery_timeout(Duration::from_secs(60)).unwrap();
            let _ = c.discover_service_types(|_| ControlFlow::Continue(())).await;
        });
    });
    for _ in 0..12 {
        s.recv_from(&mut [0; 2000]).unwrap();
    }
}
''', **ASY)
S("c20-own-port", "C20", "a query sent from port 5353 (synchronous advertiser)", "queries of full mDNS implementations are not answered",
  [(ADV, "            let packet = &recv_buf[..len];\n\n            log::trace!", "            let packet = match addr.port() {\n                // That's another responder (or us).\n                5353 => continue,\n                _ => &recv_buf[..len],\n            };\n\n            log::trace!")],
  r'''
fn main() {
    let mut a = SyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(500));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("h.local", 1, 1)]);
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).unwrap();
    // From port 5353 of another address: a socket that was bound before could not share the port.
    let o = std::process::Command::new("python3")
        .args(["-c", "import socket,sys\ns=socket.socket(socket.AF_INET,socket.SOCK_DGRAM)\ns.setsockopt(socket.SOL_SOCKET,socket.SO_REUSEADDR,1)\ns.bind(('127.0.0.2',5353))\ns.settimeout(3)\ns.sendto(bytes.fromhex(sys.argv[1]),('127.0.0.1',5353))\ns.recvfrom(2000)"])
        .arg(m.iter().map(|b| format!("{b:02x}")).collect::<String>())
        .status()
        .unwrap();
    assert!(o.success());
}
''', ns=True)
S("c20-async-error", "C20", "a packet that the packet handler rejects, e.g. a query cut off in the middle (asynchronous advertiser)", "the advertiser stops",
  [(AADV, "                Err(e) => {\n                    log::debug!(\"failed to handle packet: {}\", e);\n                }", "                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Err(e),\n                Err(e) => {\n                    log::debug!(\"failed to handle packet: {}\", e);\n                }")],
  r'''
fn main() {
    let mut a = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    std::thread::spawn(move || async_io::block_on(a.listen()).unwrap());
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("h.local", 1, 1)]);
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    s.send_to(&m[..15], "127.0.0.1:5353").unwrap();
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).unwrap();
}
''', ns=True, **ASY)
S("c21-response-questions", "C21", "a response that repeats the question", "the questions of responses are not logged",
  [(DEC, "            let q = q?;\n            cb(format_args!(\"Q: {}\", q));", "            let q = q?;\n            if dir == \"query\" {\n                cb(format_args!(\"Q: {}\", q));\n            }"),],
  r'''
struct L;
static BUF: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("uwuhi") && r.level() <= log::Level::Debug {
            *BUF.lock().unwrap() += &format!("{}: {}\n", r.level(), r.args());
        }
    }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| tap.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&msg(1, 0x8000, [1, 0, 0, 0], &[q("a", 1, 1)]), "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_secs(2));
    let b = BUF.lock().unwrap();
    assert_eq!(b.lines().count(), 2, "{b}");
}
''', ns=True, log=True)
S("c22-soa-order", "C22", "rendering a SOA record", "two of the times are shown in the wrong order",
  [(REC, "            self.retry,\n            self.expire,\n            self.minimum_ttl", "            self.expire,\n            self.retry,\n            self.minimum_ttl")],
  r'''
fn main() {
    let s = SOA::new(d("a"), d("b"), 1, 2, 3, 4, 5);
    assert_eq!(s.to_string(), "a.\tb.\t1\t2\t3\t4\t5");
}
''')
S("c23-nested-executor", "C23", "two resolutions on one single-threaded executor, or one together with its own server", "the asynchronous resolver blocks its executor while it waits for a response",
  [(ARES, "let (b, addr) = future::or(self.sock.recv_from(&mut recv_buf), timeout).await?;", "let (b, addr) =\n                async_io::block_on(future::or(self.sock.recv_from(&mut recv_buf), timeout))?;")],
  r'''
fn main() {
    limit(60);
    let s = async_io::Async::<UdpSocket>::bind(([127, 0, 0, 1], 0)).unwrap();
    let a = s.get_ref().local_addr().unwrap();
    let serve = async {
        let (_, from) = s.recv_from(&mut [0; 2000]).await.unwrap();
        s.send_to(&msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]), from).await.unwrap();
        futures_lite::future::pending::<()>().await;
        0
    };
    let ask = async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_secs(3)).unwrap();
        let n = r.resolve("a").await.unwrap().count();
        n
    };
    assert_eq!(async_io::block_on(futures_lite::future::or(ask, serve)), 1);
}
''', **ASY)
S("c23-discovery-spins", "C23", "a discovery together with another task on one single-threaded executor", "the asynchronous discoverer holds on to the executor until something arrives",
  [(ADIS, "let recv = async { Ok(self.sock.recv_from(&mut recv_buf).await) };", "let recv = async {\n                    let deadline = Instant::now() + self.retransmit_timeout;\n                    let sock: &UdpSocket = self.sock.as_ref();\n                    loop {\n                        match sock.recv_from(&mut recv_buf) {\n                            Err(e)\n                                if e.kind() == io::ErrorKind::WouldBlock\n                                    && Instant::now() < deadline =>\n                            {\n                                std::thread::yield_now()\n                            }\n                            Err(e) if e.kind() == io::ErrorKind::WouldBlock => {\n                                future::pending::<()>().await\n                            }\n                            res => break Ok(res),\n                        }\n                    }\n                };")],
  r'''
fn main() {
    limit(60);
    let s = async_io::Async::<UdpSocket>::bind(([127, 0, 0, 1], 0)).unwrap();
    let a = s.get_ref().local_addr().unwrap();
    let t = Instant::now();
    let serve = async {
        s.recv_from(&mut [0; 2000]).await.unwrap();
        t.elapsed()
    };
    let ask = async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        c.set_retransmit_timeout(Duration::from_secs(10)).unwrap();
        c.set_discovery_timeout(Duration::from_secs(10)).unwrap();
        c.discover_service_types(|_| ControlFlow::Continue(())).await.unwrap();
        t.elapsed()
    };
    assert!(async_io::block_on(futures_lite::future::or(ask, serve)) < Duration::from_secs(5));
}
''', **ASY)
S("c23-busy", "C23", "dropping a resolution before it is finished and resolving again with the same resolver", "the resolver stays busy and rejects every later call",
  [(ARES, "    timeout: Duration,\n}", "    timeout: Duration,\n    busy: bool,\n}"),
   (ARES, "            timeout: Self::DEFAULT_TIMEOUT,", "            timeout: Self::DEFAULT_TIMEOUT,\n            busy: false,"),
   (ARES, "        self.ip_buf.clear();\n\n        let mut send_buf", "        if self.busy {\n            return Err(io::ErrorKind::WouldBlock.into());\n        }\n        self.ip_buf.clear();\n\n        let mut send_buf"),
   (ARES, "        // FIXME: retransmit\n", "        self.busy = true;\n        // FIXME: retransmit\n"),
   (ARES, "let (b, addr) = future::or(self.sock.recv_from(&mut recv_buf), timeout).await?;", "let res = future::or(self.sock.recv_from(&mut recv_buf), timeout).await;\n            if res.is_err() {\n                self.busy = false;\n            }\n            let (b, addr) = res?;"),
   (ARES, "                        // We return once any", "                        self.busy = false;\n                        // We return once any")],
  r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        s.recv_from(&mut b).unwrap();
        loop {
            let (_, from) = s.recv_from(&mut b).unwrap();
            s.send_to(&msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]), from).unwrap();
        }
    });
    async_io::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_secs(10)).unwrap();
        let later = async {
            async_io::Timer::after(Duration::from_millis(300)).await;
            true
        };
        let gave_up = futures_lite::future::or(async { r.resolve("a").await.is_err() }, later).await;
        assert!(gave_up);
        let n = r.resolve("a").await.unwrap().count();
        assert_eq!(n, 1);
    });
}
''', **ASY)
S("c23-listen-once", "C23", "dropping the future of a listening asynchronous advertiser and listening again", "the second call fails",
  [(AADV, "    sock: Async<UdpSocket>,\n}", "    sock: Option<Async<UdpSocket>>,\n}"),
   (AADV, "            sock: Async::new(adv.create_socket()?)?,", "            sock: Some(Async::new(adv.create_socket()?)?),"),
   (AADV, "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n", "        let sock = self.sock.take().ok_or(io::ErrorKind::NotConnected)?;\n        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n"),
   (AADV, "self.sock.recv_from(&mut recv_buf)", "sock.recv_from(&mut recv_buf)"),
   (AADV, "self.sock.send_to(resp, addr)", "sock.send_to(resp, addr)")],
  r'''
fn main() {
    limit(60);
    let mut a = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    async_io::block_on(async {
        for _ in 0..2 {
            let later = async {
                async_io::Timer::after(Duration::from_millis(300)).await;
                Ok(())
            };
            futures_lite::future::or(a.listen(), later).await.unwrap();
        }
    });
}
''', ns=True, **ASY)
S("c24-reuse-late", "C24", "starting an advertiser while another program on the host uses the mDNS port", "the advertiser fails to start, since sharing is asked for after the port was taken",
  [(ADV, "        sock.set_reuse_address(true)?;\n        sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into())?;\n", "        sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into())?;\n        sock.set_reuse_address(true)?;\n")],
  r'''
fn main() {
    let a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let _s = a.create_socket().unwrap();
    let _t = a.create_socket().unwrap();
}
''', ns=True)
S("c24-tap-exclusive", "C24", "starting a tap while an advertiser runs on the host, or an advertiser while a tap runs", "the later one fails to start",
  [(TAP, "        sock.set_reuse_address(true)?;\n", "")],
  r'''
fn main() {
    let a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let _s = a.create_socket().unwrap();
    let _t = uwuhi::tap::SyncTap::new().unwrap();
}
''', ns=True)
S("c25-sticky-peer", "C25", "several responders that answer a discovery query", "only the services of the responder that answers first are reported",
  [(DIS, "        let discovery_start = Instant::now();\n", "        let discovery_start = Instant::now();\n        let mut peer = None;\n"),
   (DIS, "                let recv = &recv_buf[..b];\n", "                let recv = &recv_buf[..b];\n                if *peer.get_or_insert(addr) != addr {\n                    log::debug!(\"{} is not the server\", addr);\n                    continue;\n                }\n")],
  r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    let o = UdpSocket::bind("127.0.0.2:0").unwrap();
    std::thread::spawn(move || {
        let (_, from) = s.recv_from(&mut [0; 2000]).unwrap();
        for (x, n) in [(&s, "_s._tcp.local"), (&o, "_t._tcp.local")] {
            x.send_to(&msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("x"), 12, 1, 1, &wire(n))]), from).unwrap();
        }
        std::thread::sleep(Duration::from_secs(30));
    });
    let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
    let mut n = 0;
    c.set_discovery_timeout(Duration::from_millis(1500)).unwrap();
    c.discover_service_types(|_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 2);
}
''')
S("c25-v6-scope", "C25", "resolving by IPv6 multicast", "the query is sent to the site's mDNS group instead of the link's, where no responder listens",
  [(ARES, "[ff02::fb]:5353", "[ff05::fb]:5353")],
  r'''
fn main() {
    // The destination is seen in the error when there is no route, or else on the wire: a listener
    // on a virtual device.
    let sh = |c: &str| assert!(std::process::Command::new("sh").args(["-c", c]).status().unwrap().success());
    sh("ip link add v0 type veth peer name v1 && ip link set v0 addrgenmode none && ip link set v1 addrgenmode none && ip link set v0 up && ip link set v1 up && ip addr add fe80::1/64 dev v0 nodad && ip -6 route del ff00::/8 dev v1 table local");
    let mut p = std::process::Command::new("python3")
        .args(["-c", "import socket,struct\nr=socket.socket(socket.AF_INET6,socket.SOCK_DGRAM)\nr.bind(('::',5353))\nr.setsockopt(socket.IPPROTO_IPV6,socket.IPV6_JOIN_GROUP,socket.inet_pton(socket.AF_INET6,'ff02::fb')+struct.pack('i',socket.if_nametoindex('v0')))\nr.settimeout(8)\nr.recvfrom(2000)"])
        .spawn()
        .unwrap();
    std::thread::sleep(Duration::from_millis(1500));
    async_io::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new_multicast_v6().await.unwrap();
        let _ = r.resolve("a.local").await.map(|i| i.count());
    });
    assert!(p.wait().unwrap().success());
}
''', ns=True, **ASY)
S("c25-no-loop", "C25", "a multicast discoverer and a responder on the same host", "the query does not reach it",
  [(DIS, "        this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;\n", "        this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;\n        // We are not interested in our own queries.\n        if server.ip().is_multicast() {\n            this.sock.set_multicast_loop_v4(false)?;\n        }\n")],
  r'''
fn main() {
    limit(60);
    let sh = |c: &str| assert!(std::process::Command::new("sh").args(["-c", c]).status().unwrap().success());
    sh("ip link add d0 type veth peer name d1 && ip link set d1 up && ip link set d0 up && ip addr add 10.9.8.1/24 dev d0 && ip route replace 224.0.0.0/4 dev d0");
    let mut a = SyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), InstanceDetails::new(d("h.local"), 80));
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(500));
    let mut c = SyncDiscoverer::new_multicast_v4().unwrap();
    let mut n = 0;
    c.discover_service_types(|_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 1);
}
''', ns=True)
