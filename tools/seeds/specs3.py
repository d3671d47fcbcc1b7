"""Third round of planted bugs."""
from specs import S, FAKE, DEC, ENC, REC, PKT, NAME, SVC, ADV, DIS, RES, TAP, AADV, ADIS, ARES
ASY = {"async": True}

# A server that answers every query with what `f` makes of it (None: nothing).
SERVE = r'''
fn serve(f: impl Fn(usize, &[u8]) -> Option<Vec<u8>> + Send + 'static) -> SocketAddr {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        for i in 0.. {
            let mut b = [0; 2000];
            let (n, from) = s.recv_from(&mut b).unwrap();
            if let Some(r) = f(i, &b[..n]) {
                s.send_to(&r, from).unwrap();
            }
        }
    });
    a
}
fn sh(c: &str) {
    assert!(std::process::Command::new("sh").args(["-c", c]).status().unwrap().success());
}
'''

S("c03-forward-in-record", "C03", "a record's data with a compression pointer ahead, into the same data",
  "the name is read from the bytes ahead instead of being rejected as a pointer loop",
  [(DEC, "if ptr >= min_pos {", "if ptr >= min_pos && (end_pos.is_some() || ptr < copy.pos.get() || ptr >= copy.full_buf.len()) {")],
  r'''
fn main() {
    let data = [&[0xc0, 26][..], &[1, b'x', 0]].concat();
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 12, 1, 1, &data)]);
    // 12 header, 3 name, 10 fixed: the data starts at 25.
    let mut m = m;
    m[25] = 0xc0;
    m[26] = 27;
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(matches!(r.as_enum(), Some(Err(uwuhi::Error::PointerLoop))));
}
''')
S("c05-name-boundary", "C05", "a buffer that ends exactly before the terminating zero byte of a name", "the message is reported as complete",
  [(ENC, "        // Implicit root label at the end.\n        self.write_u8(0);", "        // Implicit root label at the end.\n        if self.pos < self.buf.len() {\n            self.write_u8(0);\n        }")],
  r'''
fn main() {
    let n = d("ab");
    let rec = Record::CNAME(CNAME::new(&n));
    // header 12, owner 4, fixed 10, data 4 of which one does not fit
    let mut buf = [0; 29];
    let mut e = MessageEncoder::new(&mut buf).answers();
    e.add_answer(encoder::ResourceRecord::new(&n, &rec));
    assert!(e.finish().is_err());
}
''')
S("c04-rdlength-255", "C04", "a record with more than 255 bytes of data", "its data length is written wrongly",
  [(ENC, "        w.write_u16(rdata_len.try_into().expect(\"RDATA length overflows u16\"));", "        // Only the low byte can differ from the dummy.\n        w.pos += 1;\n        w.write_u8(rdata_len as u8);")],
  r'''
fn main() {
    let n = d("ab");
    let rec = Record::TXT(TXT::new([vec![1; 200], vec![2; 200]]));
    let mut buf = [0; 1000];
    let mut e = MessageEncoder::new(&mut buf).answers();
    e.add_answer(encoder::ResourceRecord::new(&n, &rec));
    let l = e.finish().unwrap();
    let mut dec = MessageDecoder::new(&buf[..l]).unwrap().answers().unwrap();
    assert_eq!(dec.next().unwrap().unwrap().rdata().len(), 402);
}
''')
S("c08-aaaa-exact", "C08", "an A record with more than four bytes of data whose type is read through the typed view after the raw data", "nothing after the fourth byte is considered: an SRV with a cut target is accepted",
  [(REC, "            target: dec.r.read_domain_name()?.into(),", "            target: dec.r.read_domain_name().unwrap_or(DomainName::ROOT).into(),")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 33, 1, 1, &[0, 0, 0, 0, 0, 80, 5, b'x'])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(matches!(r.as_enum(), Some(Err(_))));
}
''')
S("c09-any-opt", "C09", "a query of type ALL against OPT pseudo-records or other types from 41 to 41", "the type is not matched",
  [(PKT, "            Self::ALL => true,", "            // OPT is no real record.\n            Self::ALL => ty.0 != 41,")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [1, 1, 0, 0], &[q("a", 255, 1), rr(&wire("a"), 41, 1, 1, &[])]);
    let mut dec = MessageDecoder::new(&m).unwrap();
    let all = dec.next().unwrap().unwrap().qtype();
    let mut dec = dec.answers().unwrap();
    assert!(all.matches(dec.next().unwrap().unwrap().type_()));
}
''')
S("c10-cut-keeps-flag", "C10", "a query whose answers fill the packet so that they are cut within the last record only", "the truncated response is not sent at all",
  [(ADV, "            let len = enc.finish().ok().unwrap_or(self.response_buf.len()); // truncated replies should still get sent\n", "            let Ok(len) = enc.finish() else {\n                return Ok(None);\n            };\n")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    for i in 0..200u8 {
        a.add_name(Label::new("h"), IpAddr::from([10, 0, 0, i]));
    }
    let r = a.handle_packet(&msg(1, 0, [1, 0, 0, 0], &[q("h.local", 1, 1)])).unwrap();
    assert!(r.is_some());
}
''')
S("c10-unicast-class", "C10", "a query with the unicast-response bit and class ANY, or with two questions of which only one has it", "the whole query is taken for a unicast one and only its first question is answered",
  [(ADV, "            let q = res?;\n            log::debug!(\"Q: {q}\");\n", "            let q = res?;\n            log::debug!(\"Q: {q}\");\n            if have_relevant_answer && q.qclass() == crate::packet::QClass::ANY {\n                // Covered by the answers to the first question.\n                break;\n            }\n")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    a.add_name(Label::new("i"), "1.2.3.5".parse().unwrap());
    let m = msg(1, 0, [2, 0, 0, 0], &[q("h.local", 1, 1), q("i.local", 1, 0x80ff)]);
    let r = a.handle_packet(&m).unwrap().unwrap();
    assert_eq!(MessageDecoder::new(r).unwrap().header().answer_count(), 2);
}
''')
S("c11-reuses-prefix", "C11", "a query that is a proper prefix of the one before it", "it is answered like the one before",
  [(ADV, "    response_buf: Vec<u8>,\n}", "    response_buf: Vec<u8>,\n    last: Option<(Vec<u8>, usize)>,\n}"),
   (ADV, "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n", "            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            last: None,\n"),
   (ADV, "        let mut dec = MessageDecoder::new(packet)?;\n        if !dec.header().is_query() {", "        // Queries are often repeated.\n        if let Some((query, len)) = &self.last {\n            if query.starts_with(packet) && packet.len() > 12 {\n                return Ok(Some(&self.response_buf[..*len]));\n            }\n        }\n        self.last = None;\n        let mut dec = MessageDecoder::new(packet)?;\n        if !dec.header().is_query() {"),
   (ADV, "            Ok(Some(&self.response_buf[..len]))\n", "            self.last = Some((packet.to_vec(), len));\n            Ok(Some(&self.response_buf[..len]))\n")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("h.local", 1, 1)]);
    assert!(a.handle_packet(&m).unwrap().is_some());
    assert!(!matches!(a.handle_packet(&m[..m.len() - 3]), Ok(Some(_))));
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''')
S("c12-value-cut", "C12", "a TXT entry with a value longer than 200 bytes", "the value is advertised without its end",
  [(ADV, "                    kv.extend_from_slice(v);", "                    kv.extend_from_slice(&v[..v.len().min(200)]);")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let mut det = InstanceDetails::new(d("h.local"), 80);
    let mut e = b"k=".to_vec();
    e.extend([b'v'; 230]);
    *det.txt_records_mut() = TxtRecords::from_txt(&TXT::new([e]));
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), det);
    let r = a.handle_packet(&msg(1, 0, [1, 0, 0, 0], &[q("i._s._tcp.local", 16, 1)])).unwrap().unwrap();
    assert!(r.windows(230).any(|w| w == [b'v'; 230]));
}
''')
S("c13-flag-case", "C13", "adding a flag whose key is already there in another spelling", "the key appears twice",
  [(SVC, "        self.map\n            .insert(key.to_ascii_lowercase(), TxtRecord { key, value: None });", "        let id = if self.map.contains_key(&key) {\n            key.to_ascii_lowercase()\n        } else {\n            key.clone()\n        };\n        self.map.insert(id, TxtRecord { key, value: None });")],
  r'''
fn main() {
    let mut t = TxtRecords::from_txt(&TXT::new([&b"Key=v"[..]]));
    t.add_flag("KEY".into());
    assert_eq!(t.iter().count(), 1);
    assert!(matches!(t.get("key"), Some(TxtRecordValue::NoValue)));
}
''')
S("c14-root-domain", "C14", "a service type or instance whose name goes on with a label that starts with an underscore", "it is taken for a subtype and rejected",
  [(SVC, """        let mut labels = ptr.ptrdname().labels().iter();
        let service_name = labels.next().ok_or(Error::Eof)?;
        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.next().is_none() {""", """        let mut labels = ptr.ptrdname().labels().iter();
        let service_name = labels.next().ok_or(Error::Eof)?;
        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.next().map_or(true, |l| l.as_bytes().starts_with(b"_")) {""")],
  r'''
fn main() {
    let n = d("_s._tcp._x.local");
    assert!(Service::from_ptr(PTR::new(&n)).is_ok());
}
''')
S("c15-needs-questions", "C15", "a response without a copy of the question, as multicast responders send it, of another server software", "its addresses are ignored when the question count is not 0 or 2",
  [(RES, "    for res in dec.answers()?.iter() {", "    if !matches!(h.question_count(), 0..=2) {\n        return Ok(());\n    }\n    for res in dec.answers()?.iter() {")],
  r'''
fn main() {
    let m = msg(12345, 0x8000, [3, 1, 0, 0], &[q("a", 1, 1), q("a", 28, 1), q("a", 1, 1), rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
    let mut v = vec![];
    uwuhi::resolver::decode_answer(&m, &mut v).unwrap();
    assert_eq!(v.len(), 1);
}
''')
S("c16-short-wait", "C16", "a timeout of more than a second, and an answer that takes that long (asynchronous resolver)", "the call gives up too early",
  [(ARES, "                Timer::after(self.timeout).await;", "                // In case the timer's resolution is bad.\n                Timer::after(self.timeout.min(Duration::from_millis(1500))).await;")],
  SERVE + r'''
fn main() {
    let a = serve(|_, _| {
        std::thread::sleep(Duration::from_millis(2500));
        Some(msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]))
    });
    async_io::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_secs(20)).unwrap();
        assert_eq!(r.resolve("a").await.unwrap().count(), 1);
    });
}
''', **ASY)
S("c17-break-late", "C17", "a packet with several new instances, and a callback that stops at one that is not the last", "the callback is called again after it asked to stop",
  [(DIS, "                ControlFlow::Break(()) => return Ok(ControlFlow::Break(())),\n            },", "                ControlFlow::Break(()) => stop = true,\n            },"),
   (DIS, "    let mut dec = dec.answers()?;\n    for res in dec.iter() {", "    let mut dec = dec.answers()?;\n    let mut stop = false;\n    for res in dec.iter() {"),
   (DIS, "            None => {}\n        }\n    }\n\n    Ok(ControlFlow::Continue(()))\n}", "            None => {}\n        }\n    }\n\n    if stop {\n        return Ok(ControlFlow::Break(()));\n    }\n    Ok(ControlFlow::Continue(()))\n}")],
  FAKE + r'''
fn main() {
    limit(60);
    let ptr = |n: &str| rr(&wire("_s._tcp.local"), 12, 1, 1, &wire(n));
    let a = fake(vec![msg(12345, 0x8000, [0, 2, 0, 0], &[ptr("a._s._tcp.local"), ptr("b._s._tcp.local")])]);
    let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
    let mut n = 0;
    c.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Break(())
    })
    .unwrap();
    assert_eq!(n, 1);
}
''')
S("c17-case-folds", "C17", "two instances whose names differ only in the case of letters, in one search (synchronous discoverer)", "the second one is not reported",
  [(DIS, "            match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n                    e.insert(());\n                    flow", "            let key = (\n                instance.instance_name().as_bytes().to_ascii_lowercase(),\n                instance.service().clone(),\n            );\n            match instances.entry(key) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);\n                    e.insert(());\n                    flow")],
  FAKE + r'''
fn main() {
    limit(60);
    let ptr = |n: &str| rr(&wire("_s._tcp.local"), 12, 1, 1, &wire(n));
    let a = fake(vec![msg(12345, 0x8000, [0, 2, 0, 0], &[ptr("a._s._tcp.local"), ptr("A._s._tcp.local")])]);
    let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
    let mut n = 0;
    c.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 2);
}
''')
S("c18-priority", "C18", "two SRV records before the TXT record, the later one with a lower priority value (synchronous discoverer)", "the host and port of the later one are returned instead of those of the first received",
  [(DIS, "        let mut details = None;\n", "        let mut details = None;\n        let mut priority = u16::MAX;\n"),
   (DIS, "                            // FIXME: respect SRV priority, as required by RFC 6763\n", "                            if srv.priority() < priority {\n                                priority = srv.priority();\n                                details = None;\n                            }\n")],
  FAKE + r"""
fn main() {
    limit(60);
    let srv = |p: u8| rr(&wire("x"), 33, 1, 1, &[0, 9 - p, 0, 0, 0, p, 1, b'h', 0]);
    let a = fake(vec![msg(12345, 0x8000, [0, 3, 0, 0], &[srv(1), srv(2), rr(&wire("x"), 16, 1, 1, &[0])])]);
    let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
    let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
    assert_eq!(c.load_instance_details(&i).await_().port(), 1);
}
""".replace(".await_()", ".unwrap()"))
S("c18-empty-txt-waits", "C18", "an instance whose TXT record is empty and followed by another one (asynchronous discoverer)", "the metadata of a later, unrelated TXT record is returned",
  [(ADIS, "                    txt_records = Some(TxtRecords::from_txt(&txt));", "                    let txt = TxtRecords::from_txt(&txt);\n                    if !txt.is_empty() {\n                        txt_records = Some(txt);\n                    }")],
  SERVE + r'''
fn main() {
    limit(60);
    let txt = |d: &[u8]| rr(&wire("x"), 16, 1, 1, d);
    let m = msg(12345, 0x8000, [0, 3, 0, 0], &[rr(&wire("x"), 33, 1, 1, &[0, 0, 0, 0, 0, 80, 0]), txt(&[0]), txt(&[1, b'k'])]);
    let a = serve(move |_, _| Some(m.clone()));
    async_io::block_on(async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
        assert!(c.load_instance_details(&i).await.unwrap().txt_records().is_empty());
    });
}
''', **ASY)
S("c19-default-times", "C19", "a lost query when no times have been set (synchronous discoverer)", "the query is not repeated within the default discovery time",
  [(DIS, "    const DEFAULT_RETRANSMIT_TIMEOUT: Duration = Duration::from_millis(300);", "    const DEFAULT_RETRANSMIT_TIMEOUT: Duration = Duration::from_millis(3000);")],
  SERVE + r'''
fn main() {
    let m = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("_s._tcp.local"), 12, 1, 1, &wire("a._s._tcp.local"))]);
    let a = serve(move |i, _| (i > 0).then(|| m.clone()));
    let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
    let mut n = 0;
    c.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Break(())
    })
    .unwrap();
    assert_eq!(n, 1);
}
''')
S("c19-resends-other", "C19", "a lost SRV/TXT query (synchronous discoverer)", "the repeated query differs from the first one (the id is counted up)",
  [(DIS, "        'retransmit: loop {\n            self.sock.send_to(data, self.server)?;", "        let mut data = data.to_vec();\n        'retransmit: loop {\n            self.sock.send_to(&data, self.server)?;\n            data[1] = data[1].wrapping_add(1);")],
  r'''
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    std::thread::spawn(move || {
        let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
        c.set_discovery_timeout(Duration::from_secs(10)).unwrap();
        let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
        let _ = c.load_instance_details(&i);
    });
    let (mut x, mut y) = ([0; 2000], [0; 2000]);
    s.recv_from(&mut x).unwrap();
    s.recv_from(&mut y).unwrap();
    assert_eq!(x, y);
}
''')
S("c20-short-buffer", "C20", "a query of more than 512 bytes (asynchronous advertiser)", "its last questions are not answered, or it is dropped as malformed",
  [(AADV, "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];", "        let mut recv_buf = [0; uwuhi::DNS_BUFFER_SIZE];"), (AADV, "    MDNS_BUFFER_SIZE,\n", "")],
  r'''
fn main() {
    let mut a = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    std::thread::spawn(move || async_io::block_on(a.listen()).unwrap());
    std::thread::sleep(Duration::from_millis(300));
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let mut parts = vec![q(&"a.".repeat(30), 1, 1); 10];
    parts.push(q("h.local", 1, 1));
    let m = msg(1, 0, [11, 0, 0, 0], &parts);
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut [0; 2000]).unwrap();
}
''', ns=True, **ASY)
S("c20-forgets-sender", "C20", "queries of two clients in a row (synchronous advertiser)", "responses go to the client that asked first",
  [(ADV, "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        loop {\n            let (len, addr) = recv_from(&sock, &mut recv_buf)?;", "        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut peers = std::collections::HashMap::new();\n        loop {\n            let (len, addr) = recv_from(&sock, &mut recv_buf)?;\n            // Clients on this host share their port with us.\n            let addr = *peers.entry(addr.ip()).or_insert(addr);")],
  r'''
fn main() {
    let mut a = SyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(300));
    for _ in 0..2 {
        let s = UdpSocket::bind("127.0.0.1:0").unwrap();
        s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
        s.send_to(&msg(1, 0, [1, 0, 0, 0], &[q("h.local", 1, 1)]), "127.0.0.1:5353").unwrap();
        s.recv_from(&mut [0; 2000]).unwrap();
    }
}
''', ns=True)
LOGGER = r'''
struct L;
static BUF: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("uwuhi") && r.level() <= log::Level::Debug {
            *BUF.lock().unwrap() += &format!("{}: {}\n", r.level(), r.args());
        }
    }
    fn flush(&self) {}
}
'''
S("c21-short-buffer", "C21", "a message of more than 512 bytes", "its last entries are not logged",
  [(TAP, "            let mut buf = [0; MDNS_BUFFER_SIZE];", "            let mut buf = [0; crate::DNS_BUFFER_SIZE];")],
  LOGGER + r'''
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| tap.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&msg(1, 0, [11, 0, 0, 0], &vec![q(&"a.".repeat(30), 1, 1); 11]), "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_secs(2));
    let b = BUF.lock().unwrap();
    assert_eq!(b.lines().count(), 12, "{b}");
}
''', ns=True, log=True)
S("c21-same-again", "C21", "the same message twice in a row, from the same sender", "it is logged only once",
  [(TAP, "        loop {\n            let mut buf = [0; MDNS_BUFFER_SIZE];\n            let (len, addr) = recv_from(&self.sock, &mut buf)?;\n", "        let mut last = None;\n        loop {\n            let mut buf = [0; MDNS_BUFFER_SIZE];\n            let (len, addr) = recv_from(&self.sock, &mut buf)?;\n            // Don't flood the log with retransmissions.\n            if last == Some((buf, addr)) {\n                continue;\n            }\n            last = Some((buf, addr));\n")],
  LOGGER + r'''
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| tap.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    for _ in 0..2 {
        s.send_to(&msg(1, 0, [1, 0, 0, 0], &[q("a", 1, 1)]), "127.0.0.1:5353").unwrap();
    }
    std::thread::sleep(Duration::from_secs(2));
    let b = BUF.lock().unwrap();
    assert_eq!(b.lines().count(), 4, "{b}");
}
''', ns=True, log=True)
S("c22-class-unknown", "C22", "rendering a record or question of a class without a name", "the class is left out, or shown as another one",
  [(PKT, """impl fmt::Display for Class {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)""", """impl fmt::Display for Class {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&Class(self.0 & 0xff), f)""")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 0x101, 1, &[1, 2, 3, 4])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let t = dec.next().unwrap().unwrap().to_string();
    assert!(t.contains("0x101") && !t.contains("IN"), "{t}");
}
''')
S("c22-dot-in-label", "C22", "an SRV record whose target is longer than 64 characters", "the text of the target is cut off",
  [(REC, '            "{}\\t{}\\t{}\\t{}",\n            self.priority, self.weight, self.port, self.target,', '            "{}\\t{}\\t{}\\t{:.64}",\n            self.priority, self.weight, self.port, self.target.to_string(),')],
  r'''
fn main() {
    let n = d(&"abcdefgh.".repeat(10));
    assert!(SRV::new(1, 2, 3, &n).to_string().ends_with(&n.to_string()));
}
''')
S("c23-takes-domain", "C23", "dropping a discovery before it has finished and calling again (asynchronous discoverer)", "the later call asks in the root domain",
  [(ADIS, """        let mut domain = DomainName::from_str("_services._dns-sd._udp").unwrap();
        domain.extend(&self.domain);
        let mut service_types = BTreeMap::new();
        self.send_query(&domain, &[QType::PTR], &mut |record| {""", """        let mut domain = DomainName::from_str("_services._dns-sd._udp").unwrap();
        let suffix = std::mem::replace(&mut self.domain, DomainName::ROOT);
        domain.extend(&suffix);
        let mut service_types = BTreeMap::new();
        let res = self.send_query(&domain, &[QType::PTR], &mut |record| {"""),
   (ADIS, """                Entry::Occupied(_) => {
                    // Already discovered this service
                    ControlFlow::Continue(())
                }
            }
        })
        .await
""", """                Entry::Occupied(_) => {
                    // Already discovered this service
                    ControlFlow::Continue(())
                }
            }
        })
        .await;
        self.domain = suffix;
        res
""")],
  r'''
fn main() {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    async_io::block_on(async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        for _ in 0..2 {
            let stop = async {
                async_io::Timer::after(Duration::from_millis(50)).await;
                Ok(())
            };
            futures_lite::future::or(c.discover_service_types(|_| ControlFlow::Continue(())), stop).await.unwrap();
        }
    });
    let (mut x, mut y) = ([0; 2000], [0; 2000]);
    s.recv_from(&mut x).unwrap();
    s.recv_from(&mut y).unwrap();
    assert_eq!(x, y);
}
''', **ASY)
S("c23-lock-held", "C23", "two discoveries at once on one single-threaded executor, of which only the later one is answered", "the second waits for the first to end",
  [(ADIS, "        let mut send_buf = [0; MDNS_BUFFER_SIZE];\n        let data = encode_query(&mut send_buf, domain, qtypes);", "        // One query at a time, not to flood the network.\n        static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        struct Guard;\n        impl Drop for Guard {\n            fn drop(&mut self) {\n                BUSY.store(false, std::sync::atomic::Ordering::SeqCst);\n            }\n        }\n        while BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) {\n            Timer::after(Duration::from_millis(1)).await;\n        }\n        let _guard = Guard;\n        let mut send_buf = [0; MDNS_BUFFER_SIZE];\n        let data = encode_query(&mut send_buf, domain, qtypes);")],
  SERVE + r'''
fn main() {
    let silent = serve(|_, _| None);
    let m = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("x"), 12, 1, 1, &wire("_s._tcp.local"))]);
    let good = serve(move |_, _| Some(m.clone()));
    async_io::block_on(async {
        let mut a = uwuhi_async::service::discovery::AsyncDiscoverer::new(silent, d("local")).await.unwrap();
        a.set_discovery_timeout(Duration::from_secs(30)).unwrap();
        let mut b = uwuhi_async::service::discovery::AsyncDiscoverer::new(good, d("local")).await.unwrap();
        b.set_discovery_timeout(Duration::from_secs(30)).unwrap();
        let t = Instant::now();
        futures_lite::future::or(
            async { a.discover_service_types(|_| ControlFlow::Continue(())).await.unwrap() },
            async { b.discover_service_types(|_| ControlFlow::Break(())).await.unwrap() },
        )
        .await;
        assert!(t.elapsed() < Duration::from_secs(10));
    });
}
''', **ASY)
S("c24-client-port", "C24", "a second discoverer on the same host (asynchronous)", "it cannot be created",
  [(ADIS, "            (Ipv4Addr::UNSPECIFIED, 0).into()", "            // A fixed port is easier for firewalls.\n            (Ipv4Addr::UNSPECIFIED, 25353).into()")],
  r'''
fn main() {
    async_io::block_on(async {
        let a: SocketAddr = "127.0.0.1:9".parse().unwrap();
        let _x = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        let _y = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
    });
}
''', **ASY)
S("c20-joins-loopback", "C20", "a responder and a client on different hosts of one link", "multicast queries do not reach the advertiser (it joined the group on the loopback interface)",
  [(ADV, 'sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;', 'sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::LOCALHOST)?;')],
  SERVE + r'''
fn main() {
    limit(60);
    // One end of a virtual cable is ours, the other end another host's: here a packet socket on it.
    sh("ip link add v0 type veth peer name v1; ip link set v0 up; ip link set v1 up; ip addr add 10.9.0.1/24 dev v0; ip route del 224.0.0.0/4; ip route add 224.0.0.0/4 dev v0");
    let mut a = SyncAdvertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    std::thread::spawn(move || a.listen_blocking());
    std::thread::sleep(Duration::from_millis(500));
    let groups = std::fs::read_to_string("/proc/net/igmp").unwrap();
    // The group must be joined on the link, either by the interface the route names or by all.
    let mut dev = "";
    let mut on = vec![];
    for l in groups.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if !l.starts_with(char::is_whitespace) {
            dev = w.get(1).copied().unwrap_or("");
        } else if w[0] == "FB0000E0" {
            on.push(dev);
        }
    }
    assert!(on.iter().any(|d| d.starts_with("v0")), "{on:?}");
}
''', ns=True)
S("c25-ttl-zero", "C25", "a responder on another host of the link (synchronous resolver)", "the query does not leave the host",
  [(RES, "        this.set_timeout(Self::DEFAULT_TIMEOUT)?;\n", "        this.set_timeout(Self::DEFAULT_TIMEOUT)?;\n        if sock.ip().is_multicast() {\n            // Stay on the local link.\n            this.sock.set_multicast_ttl_v4(0)?;\n        }\n")],
  SERVE + r'''
fn main() {
    limit(60);
    sh("ip link add v0 type veth peer name v1; ip link set v0 up; ip link set v1 up; ip addr add 10.9.0.1/24 dev v0; ip route del 224.0.0.0/4; ip route add 224.0.0.0/4 dev v0");
    std::thread::sleep(Duration::from_millis(500));
    let mut p = std::process::Command::new("python3")
        .args(["-c", "import socket,time\ns=socket.socket(socket.AF_PACKET,socket.SOCK_RAW,socket.htons(0x800))\ns.bind(('v1',0))\ns.settimeout(8)\nwhile 1:\n  if b'\\x07example' in s.recv(2000): break"])
        .spawn()
        .unwrap();
    std::thread::sleep(Duration::from_millis(1500));
    // There is also a responder on this host.
    let own = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let _sock = own.create_socket().unwrap();
    let mut r = uwuhi::resolver::SyncResolver::new_multicast_v4().unwrap();
    let _ = r.resolve("example.local").map(|i| i.count());
    assert!(p.wait().unwrap().success());
}
''', ns=True)
S("c26-drops-server", "C26", "a resolver with several servers, one of which cannot be reached for a while", "a server whose query could not be sent is never asked again",
  [(RES, "        for addr in &self.servers {\n            self.sock.send_to(data, addr)?;\n        }", "        for i in (0..self.servers.len()).rev() {\n            if let Err(e) = self.sock.send_to(data, self.servers[i]) {\n                if self.servers.len() > 1 {\n                    self.servers.remove(i);\n                }\n                return Err(e);\n            }\n        }")],
  SERVE + r'''
fn main() {
    limit(60);
    let a = serve(|_, _| None);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let p = s.local_addr().unwrap().port();
    s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let mut r = uwuhi::resolver::SyncResolver::new(a).unwrap();
    r.add_server(SocketAddr::from(([10, 77, 0, 1], p)));
    r.set_timeout(Duration::from_millis(50)).unwrap();
    // No route to it.
    assert!(r.resolve("a").map(|i| i.count()).is_err());
    let s2 = {
        sh("ip addr add 10.77.0.1/32 dev lo");
        drop(s);
        UdpSocket::bind(SocketAddr::from(([10, 77, 0, 1], p))).unwrap()
    };
    s2.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let _ = r.resolve("a").map(|i| i.count());
    s2.recv_from(&mut [0; 2000]).unwrap();
}
''', ns=True)
S("c26-resend-lenient", "C26", "the network going away between the first query and its repetition (asynchronous discoverer)", "the search ends without an error, as if there were nothing to find",
  [(ADIS, "            self.sock.send_to(data, self.server).await?;", "            if let Err(e) = self.sock.send_to(data, self.server).await {\n                if discovery_start.elapsed() < self.retransmit_timeout {\n                    return Err(e);\n                }\n            }")],
  SERVE + r'''
fn main() {
    limit(60);
    sh("ip addr add 10.77.0.2/32 dev lo; ip route add 10.78.0.0/24 dev lo src 10.77.0.2");
    async_io::block_on(async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new("10.78.0.1:5353".parse().unwrap(), d("local")).await.unwrap();
        c.set_retransmit_timeout(Duration::from_millis(500)).unwrap();
        c.set_discovery_timeout(Duration::from_secs(3)).unwrap();
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_millis(200));
            sh("ip route del 10.78.0.0/24");
        });
        assert!(c.discover_service_types(|_| ControlFlow::Continue(())).await.is_err());
    });
}
''', ns=True, **ASY)
S("c26-join-later", "C26", "starting an advertiser while the group cannot be joined", "it starts without being reachable by multicast, and without an error",
  [(ADV, "        sock.join_multicast_v4(&\"224.0.0.251\".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;\n", "        if let Err(e) =\n            sock.join_multicast_v4(&\"224.0.0.251\".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)\n        {\n            // Unicast still works.\n            log::warn!(\"failed to join the mDNS group: {}\", e);\n        }\n")],
  SERVE + r'''
fn main() {
    sh("ip route del 224.0.0.0/4");
    let a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    assert!(a.create_socket().is_err());
}
''', ns=True)
S("c01-depth", "C01", "a name that goes through thousands of compression pointers", "resolving it recurses and overflows the stack",
  [(DEC, "    pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {\n        let mut domain_name = DomainName::ROOT;\n        let mut min_pos = self.pos.get();", "    pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {\n        self.read_domain_name_below(self.pos.get())\n    }\n\n    fn read_domain_name_below(&self, min_pos: usize) -> Result<DomainName, Error> {\n        // Room for the longest possible name.\n        let mut text = [0u8; 1024];\n        text[0] = self.peek_u8()?;\n        std::hint::black_box(&text);\n        let mut domain_name = DomainName::ROOT;"),
   (DEC, "                        end_pos.get_or_insert(copy.pos.get());\n                        min_pos = ptr;\n                        copy.pos = ptr.into();\n", "                        end_pos.get_or_insert(copy.pos.get());\n                        copy.pos = ptr.into();\n                        domain_name.extend(copy.read_domain_name_below(ptr)?);\n                        break;\n")],
  r'''
fn main() {
    // A chain of 8000 pointers, each to the one before it, in the data of a record.
    let mut data = vec![0, 0];
    for i in 0..8000usize {
        let to = 12 + 3 + 10 + 2 * i;
        data.extend(((0xc000 | to) as u16).to_be_bytes());
    }
    let last = 12 + 3 + 10 + data.len() - 2;
    let name = ((0xc000 | last) as u16).to_be_bytes();
    let m = msg(1, 0x8000, [0, 2, 0, 0], &[rr(&wire("a"), 99, 1, 1, &data), rr(&name, 1, 1, 1, &[1, 2, 3, 4])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    dec.next().unwrap().unwrap();
    assert!(dec.next().unwrap().unwrap().name().labels().is_empty());
}
''')
S("c02-authority-skips", "C02", "reaching the additional section of a message with authority records that have not been read", "the additional section starts at the wrong place or the authority records are reported as additional ones",
  [(DEC, """    pub fn additional(mut self) -> Result<MessageDecoder<'a, section::Additional>, Error> {
        while let Some(res) = self.next() {
            res?;
        }
""", """    pub fn additional(mut self) -> Result<MessageDecoder<'a, section::Additional>, Error> {
        for _ in 0..self.auth_remaining / 2 * 2 {
            if let Some(res) = self.next() {
                res?;
            }
        }
        while self.auth_remaining != self.header.authoritative_count() {
            match self.next() {
                Some(res) => drop(res?),
                None => break,
            }
        }
""")],
  r'''
fn main() {
    let r = |n: &str| rr(&wire(n), 99, 1, 1, &[]);
    let m = msg(1, 0x8000, [0, 0, 1, 1], &[r("au"), r("ad")]);
    let mut dec = MessageDecoder::new(&m).unwrap().additional().unwrap();
    assert_eq!(dec.next().unwrap().unwrap().name(), &d("ad"));
}
''')
S("c06-opcode-add", "C06", "setting an opcode twice in one header, or in a received header", "the bits of the old and the new opcode are mixed",
  [(PKT, "            f.remove(HeaderFlags::OPCODE);\n", "            if opcode == Opcode::QUERY {\n                f.remove(HeaderFlags::OPCODE);\n            }\n")],
  r"""
fn main() {
    let mut h = Header::default();
    h.set_opcode(Opcode::STATUS);
    h.set_opcode(Opcode::IQUERY);
    assert_eq!(h.opcode(), Opcode::IQUERY);
}
""")
