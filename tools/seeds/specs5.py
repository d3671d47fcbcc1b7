"""Fifth round of planted bugs."""
from specs import S, FAKE, DEC, ENC, REC, PKT, NAME, SVC, ADV, DIS, RES, TAP, AADV, ADIS, ARES
from specs3 import SERVE, ASY

S("c17-cap", "C17", "a search that finds more than 1000 service types (synchronous)", "the rest of them is not reported",
  [(DIS, "            match service_types.entry(service) {", "            if service_types.len() >= 1000 {\n                // Don't let a peer fill up our memory.\n                return ControlFlow::Continue(());\n            }\n            match service_types.entry(service) {")],
  FAKE + r'''
fn main() {
    limit(60);
    let v = (0..1200).collect::<Vec<_>>().chunks(40).map(|c| {
        msg(12345, 0x8000, [0, c.len() as u16, 0, 0], &c.iter().map(|i| rr(&[0], 12, 1, 1, &wire(&format!("_{i}._tcp.local")))).collect::<Vec<_>>())
    }).collect();
    let mut x = SyncDiscoverer::new(fake(v), d("local")).unwrap();
    x.set_discovery_timeout(Duration::from_secs(5)).unwrap();
    x.set_retransmit_timeout(Duration::from_secs(20)).unwrap();
    let mut n = 0;
    x.discover_service_types(|_| { n += 1; if n == 1200 { ControlFlow::Break(()) } else { ControlFlow::Continue(()) } }).unwrap();
    assert_eq!(n, 1200);
}
''')
S("c19-max-retries", "C19", "64 queries in a row lost (asynchronous discoverer)", "the search ends although its time is not over",
  [(ADIS, "        'retransmit: loop {\n", "        let mut tries = 0;\n        'retransmit: loop {\n            if tries == 64 {\n                return Ok(());\n            }\n            tries += 1;\n")],
  r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        async_io::block_on(async {
            let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
            c.set_retransmit_timeout(Duration::from_millis(5)).unwrap();
            c.set_discovery_timeout(Duration::from_secs(60)).unwrap();
            let _ = c.discover_service_types(|_| ControlFlow::Continue(())).await;
        });
    });
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    for _ in 0..80 {
        s.recv_from(&mut [0; 2000]).unwrap();
    }
}
''', **ASY)
S("c21-cap", "C21", "a message with more than 100 answers", "only 100 of them are logged",
  [(DEC, "        for rr in msg.iter() {\n            let rr = rr?;\n            cb(format_args!(\"ANS", "        for rr in msg.iter().take(100) {\n            let rr = rr?;\n            cb(format_args!(\"ANS")],
  r'''
use std::sync::Mutex;
struct L;
static LOG: Mutex<Vec<String>> = Mutex::new(Vec::new());
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LOG.lock().unwrap().push(r.args().to_string()); }
    fn flush(&self) {}
}
fn main() {
    limit(60);
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Debug);
    let t = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(move || t.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let v: Vec<_> = (0..120).map(|_| rr(&[0], 12, 1, 1, &[0])).chain([rr(&[0], 12, 1, 1, &wire("abc.local"))]).collect();
    let m = msg(1, 0x8000, [0, 121, 0, 0], &v);
    for _ in 0..20 {
        s.send_to(&m, "127.0.0.1:5353").unwrap();
        std::thread::sleep(Duration::from_millis(100));
        if LOG.lock().unwrap().iter().any(|l| l.contains("abc.local")) {
            return;
        }
    }
    panic!("not logged");
}
''', ns=True, log=True)
S("c13-long-key", "C13", "a TXT entry whose key is longer than 63 bytes", "it is left out",
  [(SVC, "                Ok(key) => key,\n                Err(e) => {\n                    log::debug!(\"non-ASCII", "                Ok(key) if key.len() < 64 => key,\n                Ok(_) => continue,\n                Err(e) => {\n                    log::debug!(\"non-ASCII")],
  r'''
fn main() {
    let k = "k".repeat(100);
    let e = format!("{k}=v").into_bytes();
    let t = TXT::new([&e[..]]);
    assert!(TxtRecords::from_txt(&t).get(&k).is_some());
}
''')
S("c13-cap", "C13", "a TXT record with more than 64 entries", "the rest of them is left out",
  [(SVC, "        for entry in txt.entries() {", "        for entry in txt.entries().take(64) {")],
  r'''
fn main() {
    let t = TXT::new((0..80).map(|i| format!("k{i}=v").into_bytes()));
    assert!(TxtRecords::from_txt(&t).get("k79").is_some());
}
''')
S("c15-max-ips", "C15", "a response with more than 64 addresses", "the rest of them is left out",
  [(RES, "        match ans.as_enum() {", "        if ip_buf.len() >= 64 {\n            // Nobody tries that many.\n            break;\n        }\n        match ans.as_enum() {")],
  r'''
fn main() {
    let v: Vec<_> = (0..80).map(|i| rr(&[0], 1, 1, 1, &[10, 0, 0, i])).collect();
    let m = msg(12345, 0x8000, [0, 80, 0, 0], &v);
    let mut out = Vec::new();
    uwuhi::resolver::decode_answer(&m, &mut out).unwrap();
    assert_eq!(out.len(), 80);
}
''')
S("c10-questions", "C10", "a query with more than 100 questions, with a match behind the first 100", "that question is not answered",
  [(ADV, "        for res in dec.iter() {", "        for res in dec.iter().take(100) {")],
  r'''
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "1.2.3.4".parse().unwrap()).unwrap();
    let mut v: Vec<_> = (0..120).map(|_| q("", 1, 1)).collect();
    v.push(q("h.local", 1, 1));
    let m = msg(1, 0, [121, 0, 0, 0], &v);
    assert!(a.handle_packet(&m).unwrap().is_some());
}
''')
S("c16-patience", "C16", "more than 1000 useless packets before the answer (synchronous resolver)", "the call fails with a timeout",
  [(RES, "        loop {\n            let mut recv_buf", "        for _ in 0..1000 {\n            let mut recv_buf"),
   (RES, "                    log::warn!(\"failed to decode response from {}: {:?}\", addr, e);\n                }\n            }\n        }\n", "                    log::warn!(\"failed to decode response from {}: {:?}\", addr, e);\n                }\n            }\n        }\n        Err(io::ErrorKind::TimedOut.into())\n")],
  r'''
fn main() {
    limit(120);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        let (_, from) = s.recv_from(&mut b).unwrap();
        for _ in 0..1500 {
            s.send_to(&[0; 12], from).unwrap();
            std::thread::sleep(Duration::from_millis(1));
        }
        let good = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
        for _ in 0..20 {
            s.send_to(&good, from).unwrap();
            std::thread::sleep(Duration::from_millis(20));
        }
    });
    let mut r = uwuhi::resolver::SyncResolver::new(a).unwrap();
    r.set_timeout(Duration::from_secs(20)).unwrap();
    assert_eq!(r.resolve("a").unwrap().count(), 1);
}
''')
S("c18-patience", "C18", "more than 256 useless packets before the answer (asynchronous discoverer)", "the search ends without details",
  [(ADIS, "        'retransmit: loop {\n", "        let mut packets = 0u32;\n        'retransmit: loop {\n"),
   (ADIS, "                let res = decode_answer(recv, callback);", "                packets += 1;\n                if packets > 256 {\n                    return Ok(());\n                }\n                let res = decode_answer(recv, callback);")],
  r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        let (_, from) = s.recv_from(&mut b).unwrap();
        for _ in 0..500 {
            s.send_to(&[0; 12], from).unwrap();
            std::thread::sleep(Duration::from_millis(1));
        }
        let n = wire("i._x._tcp.local");
        let srv = [&[0, 0, 0, 0, 0, 80][..], &[0]].concat();
        let good = msg(12345, 0x8000, [0, 2, 0, 0], &[rr(&n, 33, 1, 1, &srv), rr(&n, 16, 1, 1, &[3, b'a', b'=', b'b'])]);
        for _ in 0..20 {
            s.send_to(&good, from).unwrap();
            std::thread::sleep(Duration::from_millis(20));
        }
    });
    async_io::block_on(async {
        let mut x = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        x.set_discovery_timeout(Duration::from_secs(20)).unwrap();
        x.set_retransmit_timeout(Duration::from_secs(20)).unwrap();
        let i = ServiceInstance::new(Label::new("i"), Label::new("_x"), ServiceTransport::TCP);
        assert_eq!(x.load_instance_details(&i).await.unwrap().port(), 80);
    });
}
''', **ASY)

LOGS = r'''
static LINES: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LINES.lock().unwrap().push(r.args().to_string());
    }
    fn flush(&self) {}
}
fn logging() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}
fn check_logs() {
    for l in LINES.lock().unwrap().iter() {
        assert!(!l.chars().any(|c| c.is_control() && c != '\t'), "{l:?}");
    }
}
'''
S("c22-log-bad-record", "C22", "a response with a record whose data is malformed and contains control characters (synchronous discoverer)", "the raw data reaches the log unescaped: a peer can add lines and terminal sequences",
  [(DIS, "                log::warn!(\"failed to decode RR: {:?}\", e);\n                continue;\n            }\n            None", "                log::warn!(\n                    \"failed to decode RR: {:?} in {}\",\n                    e,\n                    String::from_utf8_lossy(ans.rdata())\n                );\n                continue;\n            }\n            None")],
  FAKE + LOGS + r'''
fn main() {
    limit(60);
    logging();
    let evil = b"\n\x1b";
    let bad = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, evil)]);
    let good = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 12, 1, 1, &wire("_x._tcp.local"))]);
    let mut x = SyncDiscoverer::new(fake(vec![bad, good]), d("local")).unwrap();
    x.set_discovery_timeout(Duration::from_secs(10)).unwrap();
    x.discover_service_types(|_| ControlFlow::Break(())).unwrap();
    check_logs();
}
''', log=True)
S("c22-log-question", "C22", "a query that the advertiser has nothing for, with control characters in its name", "the name reaches the log unescaped",
  [(ADV, "                if q.qname() != &entry.name {\n                    continue;", "                if q.qname() != &entry.name {\n                    if q.qname().labels().len() == entry.name.labels().len() {\n                        let first = q.qname().labels().first();\n                        let first = first.map_or(&b\"\"[..], |l| l.as_bytes());\n                        log::trace!(\"not for us: {}\", String::from_utf8_lossy(first));\n                    }\n                    continue;")],
  LOGS + r'''
fn main() {
    logging();
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    let m = msg(7, 0, [1, 0, 0, 0], &[q("\n[INFO] all is well\u{1b}[2J.local", 1, 1)]);
    assert!(adv.handle_packet(&m).unwrap().is_none());
    let m = msg(7, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    assert!(adv.handle_packet(&m).unwrap().is_some());
    check_logs();
}
''', log=True)
