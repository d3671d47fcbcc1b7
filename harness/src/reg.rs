//! Model of an advertiser: registrations, the records they imply, and what a response must contain.

use crate::engine::Src;
use crate::model::*;
use crate::uw::*;
use crate::wire::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use uwuhi::name::Label as ULabel;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::{InstanceDetails, ServiceInstance, ServiceTransport, TxtRecords};
use uwuhi_async::service::advertising::AsyncAdvertiser;

pub type Txt = Vec<(String, Option<Vec<u8>>)>;

/// The key/value view of TXT entries, by the DNS-SD rules.
pub fn txt_model(entries: &[Vec<u8>]) -> Txt {
    let mut out: Txt = Vec::new();
    for e in entries {
        let (k, v) = match e.iter().position(|b| *b == b'=') {
            Some(i) => (&e[..i], Some(e[i + 1..].to_vec())),
            None => (&e[..], None),
        };
        if k.is_empty() {
            continue;
        }
        let Ok(k) = String::from_utf8(k.to_vec()) else { continue };
        if out.iter().any(|(o, _)| o.eq_ignore_ascii_case(&k)) {
            continue;
        }
        out.push((k, v));
    }
    out
}

pub fn add_flag_model(t: &mut Txt, key: &str) {
    t.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
    t.push((key.to_string(), None));
}

fn have_words() -> bool {
    !crate::dict::get().words.is_empty()
}

/// A key for `add_flag`: not empty, no '='.
pub fn gen_flag(s: &mut Src, keys: &[&str]) -> String {
    if let Some(w) = s.word(4, 60) {
        if let Ok(t) = String::from_utf8(w) {
            if !t.is_empty() && !t.contains('=') {
                return t;
            }
        }
    }
    s.pick(keys).to_string()
}

/// Key/value entries; `free` also makes entries without or with odd keys.
pub fn gen_kv(s: &mut Src, free: bool, max: usize) -> Vec<Vec<u8>> {
    const KEYS: [&str; 24] = ["a", "A", "key", "Key", "KEY", "path", "txtvers", "b", "B", "k-1", "x y", "_", "ab", "aB", "é", "K", "É", "ß", "key ", " key", "k", "a_much_longer_key_than_nine", "\u{0}", "tls"];
    let mut v: Vec<Vec<u8>> = Vec::new();
    let many = max > 100;
    while s.more(v.len(), if many { 60 } else { 3 }, max) {
        let mut e: Vec<u8> = if many && s.chance(3, 4) { format!("{}-", v.len()).into_bytes() } else { Vec::new() };
        match s.weighted(&[32, 8, if free { 12 } else { 0 }, if free { 8 } else { 0 }, 1]) {
            0 if have_words() => match s.word(4, 60) {
                Some(w) if free || std::str::from_utf8(&w).is_ok_and(|t| !t.contains('=')) => e.extend(w),
                _ => e.extend_from_slice(s.pick(&KEYS).as_bytes()),
            },
            0 => e.extend_from_slice(s.pick(&KEYS).as_bytes()),
            1 => {
                let n = s.range(1, 9);
                for _ in 0..n {
                    e.push(*s.pick(b"abcDEF019-_.~!"));
                }
            }
            2 => {} // no key
            4 => {
                // a key of any possible length
                let n = if s.bool() { s.range(10, 255) } else { *s.pick(&[255usize, 254, 253, 128, 127, 64, 63, 32]) };
                let c = *s.pick(b"aKz0-");
                (0..n).for_each(|_| e.push(c));
            }
            _ => {
                let n = s.range(1, 6);
                e.extend(s.bytes(n));
            }
        }
        match s.weighted(&[3, 5, 1, 1]) {
            0 => {}
            1 => {
                e.push(b'=');
                let n = match s.weighted(&[3, 1, 6, 1]) {
                    0 => 0,
                    1 => s.range(1, 2),
                    2 => s.range(1, 12),
                    _ => *s.pick(&[255usize, 200, 100, 64]),
                };
                if let Some(w) = s.word(5, 100) {
                    e.extend(w);
                }
                match s.below(3) {
                    0 => e.extend(s.bytes(n)),
                    1 => (0..n).for_each(|_| e.push(*s.pick(b"=abc =\0\xff,"))),
                    _ => (0..n).for_each(|_| e.push(b'v')),
                }
            }
            2 => e.extend_from_slice(b"=="),
            _ => e.push(b'='),
        }
        e.truncate(255);
        v.push(e);
    }
    v
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub inst: Label,
    pub svc: Label,
    pub tcp: bool,
    pub host: Name,
    pub port: u16,
    /// TXT entries the metadata is parsed from, then flags added.
    pub kv: Vec<Vec<u8>>,
    pub flags: Vec<String>,
}

impl Inst {
    pub fn transport(&self) -> ServiceTransport {
        if self.tcp {
            ServiceTransport::TCP
        } else {
            ServiceTransport::Other
        }
    }
    pub fn uw(&self) -> ServiceInstance {
        ServiceInstance::new(ulabel(&self.inst), ulabel(&self.svc), self.transport())
    }
    pub fn details(&self) -> InstanceDetails {
        let mut d = InstanceDetails::new(uname(&self.host), self.port);
        if !self.kv.is_empty() {
            *d.txt_records_mut() = TxtRecords::from_txt(&txt(&self.kv));
        }
        for f in &self.flags {
            d.txt_records_mut().add_flag(f.clone());
        }
        d
    }
    pub fn txt(&self) -> Txt {
        let mut t = txt_model(&self.kv);
        for f in &self.flags {
            add_flag_model(&mut t, f);
        }
        t
    }
    pub fn service_domain(&self) -> Name {
        vec![self.svc.clone(), if self.tcp { b"_tcp".to_vec() } else { b"_udp".to_vec() }, b"local".to_vec()]
    }
    pub fn domain(&self) -> Name {
        let mut n = vec![self.inst.clone()];
        n.extend(self.service_domain());
        n
    }
}

#[derive(Clone, Debug)]
pub enum Reg {
    Host(Label, IpAddr),
    Inst(Inst),
}

#[derive(Clone, Debug)]
pub struct Setup {
    pub host: Label,
    pub addr: IpAddr,
    pub regs: Vec<Reg>,
}

pub trait Adv {
    fn name(&mut self, l: ULabel, a: IpAddr);
    fn inst(&mut self, i: ServiceInstance, d: InstanceDetails);
}
macro_rules! adv {
    ($($t:ty),+) => { $(impl Adv for $t {
        fn name(&mut self, l: ULabel, a: IpAddr) { self.add_name(l, a) }
        fn inst(&mut self, i: ServiceInstance, d: InstanceDetails) { self.add_instance(i, d) }
    })+ };
}
adv!(Advertiser, SyncAdvertiser, AsyncAdvertiser);

pub fn register(a: &mut dyn Adv, r: &Reg) {
    match r {
        Reg::Host(l, ip) => a.name(ulabel(l), *ip),
        Reg::Inst(i) => a.inst(i.uw(), i.details()),
    }
}

pub fn gen_ip(s: &mut Src) -> IpAddr {
    if s.bool() {
        IpAddr::V6(Ipv6Addr::from(gen_addr6(s)))
    } else {
        IpAddr::V4(Ipv4Addr::from(gen_addr4(s)))
    }
}

pub fn gen_host_label(s: &mut Src) -> Label {
    if let Some(w) = s.word(5, 63) {
        return w;
    }
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&["host", "h2", "printer", "a", "local", "_tcp", "host-3", "_services", "localhost", "1", "127", "Host", "host.local"]).as_bytes().to_vec(),
        1 => gen_label(s),
        _ => b"My Host.dot".to_vec(),
    }
}

pub fn gen_svc_label(s: &mut Src) -> Label {
    if let Some(mut w) = s.word(5, 63) {
        if w[0] != b'_' {
            w.insert(0, b'_');
            w.truncate(63);
        }
        return w;
    }
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.pick(&["_http", "_ipp", "_ssh", "_x", "_services", "_dns-sd", "_tcp", "_udp", "_sub", "_HTTP", "_a-very-long-service-name", "_local", "_._tcp", "_1"]).as_bytes().to_vec(),
        1 => {
            let mut l = gen_label(s);
            l.truncate(62);
            l.insert(0, b'_');
            l
        }
        2 => b"_".to_vec(),
        _ => b"__".to_vec(),
    }
}

pub fn gen_inst(s: &mut Src, kv_max: usize) -> Inst {
    let mut pool = Vec::new();
    let inst = match s.weighted(&[5, 3, 2]) {
        0 => s.pick(&["inst", "My Printer", "a", "b", "_services", "Büro 3.OG", "_sub", "_printer", "_http", "_tcp", "local", "inst ", "INST", "a.b._http._tcp.local"]).as_bytes().to_vec(),
        1 => gen_label(s),
        _ => {
            let n = s.range(1, 63);
            s.bytes(n)
        }
    };
    let host = match s.weighted(&[5, 2]) {
        0 => vec![gen_host_label(s), b"local".to_vec()],
        _ => gen_name(s, &mut pool),
    };
    let kv = if kv_max > 0 && s.chance(2, 3) { gen_kv(s, true, kv_max) } else { vec![] };
    let mut flags = Vec::new();
    if kv_max > 0 {
        while s.chance(1, 5) && flags.len() < 4 {
            flags.push(gen_flag(s, &["flag", "a", "KEY", "Path", "é", "x y", "-", "日本語"]));
        }
    }
    Inst { inst, svc: gen_svc_label(s), tcp: s.bool(), host, port: s.edgy16(), kv, flags }
}

pub fn gen_reg(s: &mut Src) -> Reg {
    if s.chance(3, 5) {
        Reg::Inst(gen_inst(s, 8))
    } else {
        Reg::Host(gen_host_label(s), gen_ip(s))
    }
}

/// What one registration adds to the answerable records.
pub fn records_of(r: &Reg) -> Vec<(Name, RData)> {
    match r {
        Reg::Host(l, ip) => vec![(
            vec![l.clone(), b"local".to_vec()],
            match ip {
                IpAddr::V4(a) => RData::A(a.octets()),
                IpAddr::V6(a) => RData::Aaaa(a.octets()),
            },
        )],
        Reg::Inst(i) => {
            let entries: Vec<Vec<u8>> = i
                .txt()
                .into_iter()
                .map(|(k, v)| {
                    let mut e = k.into_bytes();
                    if let Some(v) = v {
                        e.push(b'=');
                        e.extend(v);
                    }
                    e
                })
                .collect();
            let entries = if entries.is_empty() { vec![vec![]] } else { entries };
            vec![
                (i.domain(), RData::Srv(0, 0, i.port, i.host.clone())),
                (i.domain(), RData::Txt(entries)),
                (i.service_domain(), RData::Ptr(i.domain())),
                (name_of("_services._dns-sd._udp.local"), RData::Ptr(i.service_domain())),
            ]
        }
    }
}

impl Setup {
    pub fn gen(s: &mut Src, avg: u64, max: usize) -> Setup {
        let mut st = Setup { host: gen_host_label(s), addr: gen_ip(s), regs: vec![] };
        while s.more(st.regs.len(), avg, max) {
            st.regs.push(gen_reg(s));
        }
        st
    }
    pub fn build(&self) -> Advertiser {
        let mut a = Advertiser::new(ulabel(&self.host), self.addr).expect("Advertiser::new");
        for r in &self.regs {
            register(&mut a, r);
        }
        a
    }
    pub fn records(&self) -> Vec<(Name, RData)> {
        let mut v = records_of(&Reg::Host(self.host.clone(), self.addr));
        for r in &self.regs {
            v.extend(records_of(r));
        }
        v
    }
    pub fn show(&self) -> String {
        let mut t = format!("host {}={}", self.host.escape_ascii(), self.addr);
        for r in self.regs.iter().take(8) {
            match r {
                Reg::Host(l, a) => t.push_str(&format!(", host {}={a}", l.escape_ascii())),
                Reg::Inst(i) => t.push_str(&format!(", instance {} -> {}:{} txt {:?}+{:?}", show_name(&i.domain()), show_name(&i.host), i.port, i.kv.iter().map(|e| e.escape_ascii().to_string()).collect::<Vec<_>>(), i.flags)),
            }
        }
        if self.regs.len() > 8 {
            t.push_str(&format!(" …({} registrations)", self.regs.len()));
        }
        t
    }
}

/// TXT entries have no fixed order.
pub fn canon(d: &RData) -> RData {
    match d {
        RData::Txt(v) => {
            let mut v = v.clone();
            v.sort();
            RData::Txt(v)
        }
        d => d.clone(),
    }
}

fn rdata_size(d: &RData) -> usize {
    let n = |n: &Name| n.iter().map(|l| l.len() + 1).sum::<usize>() + 1;
    match d {
        RData::A(_) => 4,
        RData::Aaaa(_) => 16,
        RData::Ptr(x) | RData::Cname(x) | RData::Ns(x) => n(x),
        RData::Mx(_, x) => 2 + n(x),
        RData::Txt(v) => v.iter().map(|e| e.len() + 1).sum(),
        RData::Srv(_, _, _, x) => 6 + n(x),
        RData::Soa(a, b, _) => n(a) + n(b) + 20,
        RData::Raw(_, b) => b.len(),
    }
}

fn rr_size(name: &Name, d: &RData) -> usize {
    name.iter().map(|l| l.len() + 1).sum::<usize>() + 1 + 10 + rdata_size(d)
}

fn qtype_matches(q: u16, t: u16) -> bool {
    match q {
        252 | 254 => false,
        253 => (7..=9).contains(&t),
        255 => true,
        _ => q == t,
    }
}

fn same_ci(a: &Name, b: &Name) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_ignore_ascii_case(y))
}

/// The records a query asks for: how often each matches, and whether only up to ASCII case.
pub struct Expected {
    pub must: Vec<(Name, RData, usize)>,
    pub may: Vec<(Name, RData, usize)>,
    pub size: usize,
    pub largest: usize,
    pub matches: usize,
}

pub fn expected(records: &[(Name, RData)], qs: &[Q]) -> Expected {
    let mut e = Expected { must: vec![], may: vec![], size: 12, largest: 0, matches: 0 };
    for q in qs {
        for (n, d) in records {
            if !(q.qclass == 1 || q.qclass == 255) || !qtype_matches(q.qtype, d.type_code()) || !same_ci(&q.name, n) {
                continue;
            }
            let exact = &q.name == n;
            let list = if exact { &mut e.must } else { &mut e.may };
            let d = canon(d);
            match list.iter_mut().find(|x| &x.0 == n && x.1 == d) {
                Some(x) => x.2 += 1,
                None => list.push((n.clone(), d.clone(), 1)),
            }
            e.size += rr_size(n, &d);
            e.largest = e.largest.max(rr_size(n, &d));
            if exact {
                e.matches += 1;
            }
        }
    }
    e
}

pub const MDNS_MAX: usize = 1500;

/// Checks a response against the registered records and the query's questions.
pub fn check_response(resp: Option<&[u8]>, id: u16, records: &[(Name, RData)], qs: &[Q]) -> Result<&'static str, String> {
    let e = expected(records, qs);
    let Some(b) = resp else {
        if !e.must.is_empty() {
            return Err(format!("no response, although {} {} matches", show_name(&e.must[0].0), show_rdata(&e.must[0].1)));
        }
        return Ok("no match");
    };
    if e.must.is_empty() && e.may.is_empty() {
        return Err(format!("a response although nothing matches: {}", hex(b)));
    }
    if b.len() > MDNS_MAX {
        return Err(format!("response of {} bytes", b.len()));
    }
    let r = ref_parse(b).ok_or("the response has no complete header")?;
    if r.id != id {
        return Err(format!("response id {:#x} to query id {id:#x}", r.id));
    }
    if r.flags & QR == 0 || r.flags & AA == 0 {
        return Err(format!("response flags {:#06x}: response and authority flags expected", r.flags));
    }
    if r.flags & 0x780f != 0 {
        return Err(format!("response flags {:#06x}: opcode QUERY and no error expected", r.flags));
    }
    let tc = r.flags & TC != 0;
    if !tc {
        if let Some((sec, e)) = r.err {
            return Err(format!("the response is malformed in section {sec}: {e:?}: {}", hex(b)));
        }
        if r.end != b.len() {
            return Err(format!("{} stray bytes after the response", b.len() - r.end));
        }
    } else if e.size <= MDNS_MAX {
        return Err(format!("truncated although the response needs only {} bytes", e.size));
    }
    if !r.rr[1].is_empty() || !r.rr[2].is_empty() {
        return Err("records in the authority or additional section".into());
    }
    let mut seen: Vec<usize> = vec![0; e.must.len()];
    let mut seen_may: Vec<usize> = vec![0; e.may.len()];
    let mut used = 12;
    for rr in &r.rr[0] {
        if tc && rr.end == b.len() {
            // The last record of a cut response may be incomplete.
            let whole = match ref_typed(b, rr) {
                RefTyped::Value(d, false) => {
                    let d = canon(&d);
                    e.must.iter().chain(&e.may).any(|x| x.0 == rr.name && x.1 == d)
                }
                _ => false,
            };
            if !whole {
                break;
            }
        }
        let d = match ref_typed(b, rr) {
            RefTyped::Value(d, false) => canon(&d),
            t => return Err(format!("answer {} type {}: bad data {} ({t:?})", show_name(&rr.name), rr.rtype, hex(&rr.raw))),
        };
        if rr.class != 1 {
            return Err(format!("answer {} has class {:#x}", show_name(&rr.name), rr.class));
        }
        if rr.ttl == 0 {
            return Err(format!("answer {} has TTL 0", show_name(&rr.name)));
        }
        used += rr_size(&rr.name, &d);
        if let Some(i) = e.must.iter().position(|x| x.0 == rr.name && x.1 == d) {
            seen[i] += 1;
            if seen[i] > e.must[i].2 {
                return Err(format!("answer {} {} is given {} times for {} matches", show_name(&rr.name), show_rdata(&d), seen[i], e.must[i].2));
            }
        } else if let Some(i) = e.may.iter().position(|x| x.0 == rr.name && x.1 == d) {
            seen_may[i] += 1;
            if seen_may[i] > e.may[i].2 {
                return Err(format!("answer {} {} is given {} times", show_name(&rr.name), show_rdata(&d), seen_may[i]));
            }
        } else {
            return Err(format!("answer {} {} is not among the matching records", show_name(&rr.name), show_rdata(&d)));
        }
    }
    if tc {
        if used + e.largest <= MDNS_MAX {
            return Err(format!("truncated after {used} bytes of answers although every matching record would fit into {MDNS_MAX} bytes"));
        }
        return Ok("truncated");
    }
    for (x, k) in e.must.iter().zip(&seen) {
        if *k == 0 {
            return Err(format!("{} {} matches but is not in the response", show_name(&x.0), show_rdata(&x.1)));
        }
    }
    Ok("answered")
}

pub fn gen_query_flags(s: &mut Src) -> u16 {
    match s.below(3) {
        0 => 0,
        1 => 0x0100,
        _ => s.u16() & 0x07f0,
    }
}

/// A question that has a good chance to match a registered record.
pub fn gen_question(s: &mut Src, records: &[(Name, RData)]) -> Q {
    let mut pool = Vec::new();
    let i = s.below(records.len() as u64) as usize;
    let (name, data) = &records[i];
    let mut n = name.clone();
    match s.weighted(&[12, 1, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            n.remove(0);
        }
        2 => n.insert(0, gen_label(s)),
        3 => {
            n.pop();
        }
        4 => {
            // another case
            for l in &mut n {
                for c in l.iter_mut() {
                    if c.is_ascii_alphabetic() && s.chance(1, 3) {
                        *c ^= 0x20;
                    }
                }
            }
        }
        5 => {
            let k = s.below(n.len() as u64) as usize;
            let j = s.below(n[k].len() as u64) as usize;
            let v = s.u8();
            n[k][j] = v;
        }
        _ => n = gen_name(s, &mut pool),
    }
    let qtype = match s.weighted(&[5, 3, 1, 1]) {
        0 => data.type_code(),
        1 => 255,
        2 => *s.pick(&[253u16, 252, 254, 1, 28, 12, 16, 33, 5]),
        _ => gen_qtype(s),
    };
    let qclass = match s.weighted(&[8, 2, 1]) {
        0 => 1,
        1 => 255,
        _ => gen_class15(s),
    };
    Q { name: n, qtype, qclass, qu: s.chance(1, 4) }
}

/// A proper query; other sections are filled now and then.
pub fn gen_query(s: &mut Src, records: &[(Name, RData)], avg: u64, max: usize) -> Msg {
    let mut m = Msg { id: s.edgy16(), flags: gen_query_flags(s), ..Default::default() };
    while m.q.is_empty() && !s.chance(1, 24) || s.more(m.q.len(), avg, max) {
        m.q.push(gen_question(s, records));
    }
    if s.chance(1, 5) {
        let mut pool = Vec::new();
        for k in 0..3 {
            while s.more(m.rr[k].len(), 1, 3) {
                let rr = if s.bool() {
                    // known answers, probes
                    let (n, d) = s.pick(records).clone();
                    RR { name: n, class: 1, flush: false, ttl: s.edgy32(), data: d }
                } else {
                    gen_rr(s, &mut pool, true, 0)
                };
                m.rr[k].push(rr);
            }
        }
    }
    m
}

/// A query of up to 1500 bytes without compression, often of exactly as many: questions nobody has an answer to, and at
/// least one that has, most often at the end.
pub fn gen_long_query(s: &mut Src, records: &[(Name, RData)]) -> Msg {
    let mut last = vec![gen_question(s, records)];
    while s.more(last.len(), 1, 3) {
        last.push(gen_question(s, records));
    }
    let wire = |n: &Name| n.iter().map(|l| l.len() + 1).sum::<usize>() + 1;
    let tail: usize = last.iter().map(|q| wire(&q.name) + 4).sum();
    let total = *s.pick(&[1500usize, 1500, 1499, 1472, 1473, 1280, 1025, 1024, 513, 512, 511, 0]);
    let total = if total == 0 { s.range(500, 1500) } else { total };
    let mut m = Msg { id: s.edgy16(), flags: gen_query_flags(s), ..Default::default() };
    let (fill, qtype) = (b'a' + s.below(26) as u8, *s.pick(&[1u16, 12, 255]));
    let mut room = total.saturating_sub(12 + tail);
    // Long ones or as many as possible; apart from the root, the shortest name takes 3 bytes.
    let most = *s.pick(&[250usize, 250, 250, 5, 7, 30]);
    while room >= 7 {
        let mut n = if most == 5 && room >= 12 { 5 } else { room.min(s.range(7, most.max(7))) };
        if room - n < 7 {
            n = if room <= 250 { room } else { room - 7 };
        }
        let n = n.min(250);
        room -= n;
        // A name of n - 4 bytes.
        let mut left = n - 5;
        let mut name = Name::new();
        while left > 0 {
            let mut l = left.min(64);
            if left - l == 1 {
                l -= 1;
            }
            name.push(vec![fill; l - 1]);
            left -= l;
        }
        m.q.push(Q { name, qtype, qclass: 1, qu: false });
    }
    if s.chance(1, 6) {
        last.extend(m.q.drain(..));
        m.q = last;
    } else {
        m.q.extend(last);
    }
    m
}
