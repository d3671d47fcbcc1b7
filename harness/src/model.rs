//! Reference model of DNS messages, and generators for it. Shares no code with uwuhi.

use crate::engine::Src;

pub type Label = Vec<u8>;
pub type Name = Vec<Label>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RData {
    A([u8; 4]),
    Aaaa([u8; 16]),
    Cname(Name),
    Mx(u16, Name),
    Ns(Name),
    Ptr(Name),
    Txt(Vec<Vec<u8>>),
    Srv(u16, u16, u16, Name),
    Soa(Name, Name, [u32; 5]),
    /// Type code and raw data (unsupported types, or deliberately raw data for supported ones).
    Raw(u16, Vec<u8>),
}

impl RData {
    pub fn type_code(&self) -> u16 {
        match self {
            RData::A(_) => 1,
            RData::Ns(_) => 2,
            RData::Cname(_) => 5,
            RData::Soa(..) => 6,
            RData::Ptr(_) => 12,
            RData::Mx(..) => 15,
            RData::Txt(_) => 16,
            RData::Aaaa(_) => 28,
            RData::Srv(..) => 33,
            RData::Raw(t, _) => *t,
        }
    }
}

pub const SUPPORTED: [u16; 9] = [1, 2, 5, 6, 12, 15, 16, 28, 33];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Q {
    pub name: Name,
    pub qtype: u16,
    /// Without the unicast-response bit.
    pub qclass: u16,
    pub qu: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RR {
    pub name: Name,
    /// Without the cache-flush bit.
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub data: RData,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub q: Vec<Q>,
    pub rr: [Vec<RR>; 3],
}

pub const QR: u16 = 0x8000;
pub const AA: u16 = 0x0400;
pub const TC: u16 = 0x0200;
pub const RD: u16 = 0x0100;
pub const RA: u16 = 0x0080;

pub fn name_of(s: &str) -> Name {
    s.split('.').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect()
}

pub fn show_name(n: &[Label]) -> String {
    if n.is_empty() {
        return ".".into();
    }
    let mut s = String::new();
    for l in n.iter().take(12) {
        if l.len() > 20 {
            s.push_str(&format!("<{}B:{}…>.", l.len(), l[..6].escape_ascii()));
        } else {
            s.push_str(&l.escape_ascii().to_string().replace('.', "\\."));
            s.push('.');
        }
    }
    if n.len() > 12 {
        s.push_str(&format!("…[{} labels]", n.len()));
    }
    s
}

pub fn show_rdata(d: &RData) -> String {
    match d {
        RData::A(a) => format!("A {:?}", a),
        RData::Aaaa(a) => format!("AAAA {:x?}", a),
        RData::Cname(n) => format!("CNAME {}", show_name(n)),
        RData::Mx(p, n) => format!("MX {p} {}", show_name(n)),
        RData::Ns(n) => format!("NS {}", show_name(n)),
        RData::Ptr(n) => format!("PTR {}", show_name(n)),
        RData::Txt(v) => format!("TXT {:?}", v.iter().take(6).map(|e| if e.len() > 40 { format!("<{}B>", e.len()) } else { e.escape_ascii().to_string() }).collect::<Vec<_>>()),
        RData::Srv(a, b, c, n) => format!("SRV {a} {b} {c} {}", show_name(n)),
        RData::Soa(m, r, x) => format!("SOA {} {} {:?}", show_name(m), show_name(r), x),
        RData::Raw(t, b) => format!("TYPE{t} {}B {:02x?}", b.len(), &b[..b.len().min(24)]),
    }
}

pub fn show_rr(r: &RR) -> String {
    format!("{} class={:#x}{} ttl={} {}", show_name(&r.name), r.class, if r.flush { "+flush" } else { "" }, r.ttl, show_rdata(&r.data))
}

pub fn show_q(q: &Q) -> String {
    format!("{} type={} class={:#x}{}", show_name(&q.name), q.qtype, q.qclass, if q.qu { "+QU" } else { "" })
}

pub fn show_msg(m: &Msg) -> String {
    let mut s = format!("id={:#x} flags={:#06x}", m.id, m.flags);
    for q in m.q.iter().take(8) {
        s.push_str(&format!(" | Q {}", show_q(q)));
    }
    for (n, sec) in ["AN", "NS", "AR"].iter().zip(&m.rr) {
        for r in sec.iter().take(8) {
            s.push_str(&format!(" | {n} {}", show_rr(r)));
        }
    }
    s.push_str(&format!(" | counts {}/{}/{}/{}", m.q.len(), m.rr[0].len(), m.rr[1].len(), m.rr[2].len()));
    s
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(600) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 600 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}

// ---------------------------------------------------------------------------------------------
// Generators

const WORDS: [&str; 20] = ["localhost", "127", "1", "arpa", "a", "b", "local", "com", "example", "_tcp", "_udp", "_http", "_services", "_dns-sd", "host", "Host", "HOST", "x", "www", "_x"];

/// Any valid label.
pub fn gen_label(s: &mut Src) -> Label {
    if let Some(w) = s.word(5, 63) {
        return w;
    }
    match s.weighted(&[10, 4, 3, 3, 2, 2, 1]) {
        0 => s.pick(&WORDS).as_bytes().to_vec(),
        1 => {
            let n = s.range(1, 8);
            (0..n).map(|_| *s.pick(b"abcxyzABC0123-_")).collect()
        }
        2 => {
            let n = s.range(1, 12);
            s.bytes(n)
        }
        3 => {
            let n = *s.pick(&[63usize, 62, 61, 32, 33, 31, 16, 48]);
            if s.bool() {
                vec![*s.pick(b"lmn"); n]
            } else {
                s.bytes(n)
            }
        }
        4 => {
            let n = s.range(1, 10);
            (0..n).map(|_| *s.pick(&[b'.', b'\\', b'"', b'\'', 0, 1, b'\n', b'\r', b'\t', 0x1b, 0x7f, 0x80, 0xc0, 0xff, b' ', b'*', b'='])).collect()
        }
        5 => {
            let n = s.range(1, 63);
            s.bytes(n)
        }
        _ => s.pick(&["My Büro Drucker", "日本語", "é", "a b c", "xn--bcher-kva", "*", "\u{0}"]).as_bytes().to_vec(),
    }
}

/// A plain short label, for cases where the name itself is not the point.
pub fn gen_plain_label(s: &mut Src) -> Label {
    if let Some(mut w) = s.word(5, 63) {
        w.retain(|b| b.is_ascii_alphanumeric() || *b == b'-' || *b == b'_');
        if !w.is_empty() {
            return w;
        }
    }
    if s.chance(3, 4) {
        s.pick(&WORDS).as_bytes().to_vec()
    } else {
        let n = s.range(1, 10);
        (0..n).map(|_| *s.pick(b"abcdefgxyzABC0123456789-_")).collect()
    }
}

/// Names. `pool` collects earlier ones, so that suffixes are shared.
pub fn gen_name(s: &mut Src, pool: &mut Vec<Name>) -> Name {
    let mut n: Name = Vec::new();
    match s.weighted(&[10, 1, 1, 6]) {
        0 => {
            while s.more(n.len(), 2, 8) {
                n.push(gen_label(s));
            }
        }
        1 => {}
        2 => {
            // Many labels, up to the 127 of a 255 byte name.
            let k = *s.pick(&[9usize, 16, 17, 32, 64, 126, 127]);
            let ch = *s.pick(b"qrs");
            n = (0..k).map(|i| vec![ch + (i % 3) as u8]).collect();
        }
        _ => {
            // New labels in front of a suffix of an earlier name.
            while s.more(n.len(), 1, 3) {
                n.push(gen_label(s));
            }
            if !pool.is_empty() {
                let i = s.below(pool.len() as u64) as usize;
                let base = &pool[i];
                let k = s.below(base.len() as u64 + 1) as usize;
                n.extend_from_slice(&base[k.min(base.len())..]);
            }
        }
    }
    // Keep to the RFC 1035 limit of 255 octets.
    while n.iter().map(|l| l.len() + 1).sum::<usize>() + 1 > 255 {
        n.remove(0);
    }
    if pool.len() < 40 {
        pool.push(n.clone());
    }
    n
}

/// A name made of plain labels.
pub fn gen_plain_name(s: &mut Src) -> Name {
    let k = s.range(1, 4);
    (0..k).map(|_| gen_plain_label(s)).collect()
}

pub fn gen_txt_entries(s: &mut Src, min: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let max = if s.chance(1, 40) { 60 } else { 12 };
    while v.len() < min || s.more(v.len(), if max > 12 { 30 } else { 2 }, max) {
        let n = match s.weighted(&[6, 2, 1, 1]) {
            0 => s.range(0, 10),
            1 => s.range(0, 80),
            2 => *s.pick(&[255usize, 254, 128, 127, 192, 64, 63]),
            _ => s.range(0, 255),
        };
        v.push(s.bytes(n));
    }
    v
}

pub fn gen_addr4(s: &mut Src) -> [u8; 4] {
    match s.below(4) {
        0 => *s.pick(&[
            [127, 0, 0, 1], [0, 0, 0, 0], [255, 255, 255, 255], [224, 0, 0, 251], [224, 0, 0, 1], [239, 255, 255, 250], [169, 254, 0, 1], [169, 254, 255, 254], [10, 0, 0, 1], [192, 168, 0, 1],
            [172, 16, 0, 1], [127, 255, 255, 255], [1, 1, 1, 1], [0, 0, 0, 1], [192, 0, 2, 1], [100, 64, 0, 1],
        ]),
        1 => {
            let n = *s.pick(&[[10u8, 0], [127, 0], [169, 254], [192, 168], [172, 16], [224, 0]]);
            [n[0], n[1], s.u8(), s.u8()]
        }
        _ => [s.u8(), s.u8(), s.u8(), s.u8()],
    }
}

pub fn gen_addr6(s: &mut Src) -> [u8; 16] {
    let mut a = [0u8; 16];
    match s.below(6) {
        4 => {
            // ::, ::1, ff02::fb, fe80::1, fd00::1, 2001:db8::1, v4-mapped loopback, v4-compatible
            let i = s.below(8);
            match i {
                0 => {}
                1 => a[15] = 1,
                2 => (a[0], a[1], a[15]) = (0xff, 2, 0xfb),
                3 => (a[0], a[1], a[15]) = (0xfe, 0x80, 1),
                4 => (a[0], a[15]) = (0xfd, 1),
                5 => (a[0], a[1], a[2], a[3], a[15]) = (0x20, 1, 0xd, 0xb8, 1),
                6 => (a[10], a[11], a[12], a[15]) = (0xff, 0xff, 127, 1),
                _ => (a[12], a[13], a[14], a[15]) = (192, 168, 1, 1),
            }
        }
        5 => {
            let v4 = gen_addr4(s);
            (a[10], a[11]) = (0xff, 0xff);
            a[12..].copy_from_slice(&v4);
        }
        0 => a[15] = s.u8(),
        1 => {
            a[10] = 0xff;
            a[11] = 0xff;
            for x in &mut a[12..] {
                *x = s.u8();
            }
        }
        2 => {
            a[0] = 0xfe;
            a[1] = 0x80;
            for x in &mut a[8..] {
                *x = s.u8();
            }
        }
        _ => {
            for x in &mut a {
                *x = s.u8();
            }
        }
    }
    a
}

pub fn gen_unsupported_type(s: &mut Src) -> u16 {
    loop_pick(s, |s| match s.below(3) {
        0 => *s.pick(&[3u16, 4, 7, 8, 9, 10, 11, 13, 14, 17, 18, 24, 25, 29, 35, 41, 47, 48, 64, 65, 108, 249, 250, 251, 252, 253, 254, 255, 256, 257, 0x0101, 0x8001, 0x8021, 0x1c00]),
        1 => s.edgy16(),
        _ => s.below(300) as u16,
    })
}

fn loop_pick(s: &mut Src, f: impl Fn(&mut Src) -> u16) -> u16 {
    let v = f(s);
    if SUPPORTED.contains(&v) {
        v + 0x4000
    } else {
        v
    }
}

/// Well-formed data of a supported type (or raw data of an unsupported one if `raw`).
pub fn gen_rdata(s: &mut Src, pool: &mut Vec<Name>, raw: bool, min_txt: usize) -> RData {
    let k = s.weighted(&[3, 3, 2, 2, 2, 3, 3, 3, 2, if raw { 3 } else { 0 }]);
    match k {
        0 => RData::A(gen_addr4(s)),
        1 => RData::Aaaa(gen_addr6(s)),
        2 => RData::Cname(gen_name(s, pool)),
        3 => RData::Mx(s.edgy16(), gen_name(s, pool)),
        4 => RData::Ns(gen_name(s, pool)),
        5 => RData::Ptr(gen_name(s, pool)),
        6 => RData::Txt(gen_txt_entries(s, min_txt)),
        7 => RData::Srv(s.edgy16(), s.edgy16(), s.edgy16(), gen_name(s, pool)),
        8 => RData::Soa(gen_name(s, pool), gen_name(s, pool), [s.edgy32(), s.edgy32(), s.edgy32(), s.edgy32(), s.edgy32()]),
        _ => {
            let t = gen_unsupported_type(s);
            let n = match s.weighted(&[6, 1, 1]) {
                0 => s.range(0, 20),
                1 => *s.pick(&[0usize, 255, 256, 257, 300]),
                _ => s.range(0, 600),
            };
            RData::Raw(t, s.bytes(n))
        }
    }
}

pub fn gen_class15(s: &mut Src) -> u16 {
    match s.weighted(&[6, 2, 2]) {
        0 => 1,
        1 => *s.pick(&[2u16, 3, 4, 254, 255, 0, 0x100, 0x101, 0x1ff, 0x3fff, 0x4000, 0x4001, 0x7fff, 0x7f01]),
        _ => s.u16() & 0x7fff,
    }
}

pub fn gen_qtype(s: &mut Src) -> u16 {
    match s.weighted(&[5, 2, 2]) {
        0 => *s.pick(&SUPPORTED),
        1 => *s.pick(&[255u16, 252, 253, 254, 256, 257, 0, 0xffff, 0x8000]),
        _ => s.edgy16(),
    }
}

pub fn gen_q(s: &mut Src, pool: &mut Vec<Name>) -> Q {
    Q { name: gen_name(s, pool), qtype: gen_qtype(s), qclass: gen_class15(s), qu: s.chance(1, 4) }
}

pub fn gen_rr(s: &mut Src, pool: &mut Vec<Name>, raw: bool, min_txt: usize) -> RR {
    RR { name: gen_name(s, pool), class: gen_class15(s), flush: s.chance(1, 4), ttl: s.edgy32(), data: gen_rdata(s, pool, raw, min_txt) }
}

/// Header flag words: every bit combination, common ones more often.
pub fn gen_flags(s: &mut Src) -> u16 {
    match s.below(3) {
        0 => *s.pick(&[0u16, RD, QR, QR | AA, QR | RD | RA, QR | AA | TC, TC, QR | RA]),
        1 => 1 << s.below(16),
        _ => s.u16(),
    }
}

pub fn gen_msg(s: &mut Src, raw: bool, min_txt: usize) -> Msg {
    let mut pool = Vec::new();
    let mut m = Msg { id: s.edgy16(), flags: gen_flags(s), ..Default::default() };
    while s.more(m.q.len(), 1, 6) {
        m.q.push(gen_q(s, &mut pool));
    }
    for k in 0..3 {
        while s.more(m.rr[k].len(), 1, 8) {
            let r = gen_rr(s, &mut pool, raw, min_txt);
            m.rr[k].push(r);
        }
    }
    m
}

/// Messages with hundreds of entries and/or offsets past 255 / 16383 bytes.
pub fn gen_big_msg(s: &mut Src) -> Msg {
    let mut m = gen_msg(s, true, 1);
    let mut pool: Vec<Name> = Vec::new();
    for _ in 0..4 {
        gen_name(s, &mut pool);
    }
    match s.below(4) {
        0 => {
            let k = *s.pick(&[255usize, 256, 257, 300, 511, 512, 600]);
            let base = gen_q(s, &mut pool);
            for i in 0..k {
                m.q.push(Q { qtype: (i as u16).wrapping_mul(257), ..base.clone() });
            }
        }
        1 => {
            let sec = s.below(3) as usize;
            let k = *s.pick(&[255usize, 256, 257, 300, 700]);
            let name = gen_name(s, &mut pool);
            for i in 0..k {
                m.rr[sec].push(RR { name: name.clone(), class: 1, flush: i % 7 == 0, ttl: i as u32, data: RData::A([10, 0, (i >> 8) as u8, i as u8]) });
            }
        }
        _ => {
            // Large raw or TXT blobs push later names behind far offsets.
            let k = s.range(1, 4);
            for _ in 0..k {
                let n = *s.pick(&[200usize, 300, 4000, 16000, 16300, 20000]);
                let data = if s.bool() { RData::Raw(10, s.bytes(n)) } else { RData::Txt(s.bytes(n).chunks(255).map(|c| c.to_vec()).collect()) };
                let sec = s.below(3) as usize;
                let name = gen_name(s, &mut pool);
                m.rr[sec].push(RR { name, class: 1, flush: false, ttl: 1, data });
                let r = gen_rr(s, &mut pool, true, 1);
                m.rr[sec].push(r);
            }
            let r = gen_rr(s, &mut pool, true, 1);
            m.rr[2].push(r);
        }
    }
    m
}
