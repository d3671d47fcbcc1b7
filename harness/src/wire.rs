//! Independent wire-format encoder (all compression layouts) and RFC 1035 reference parser.

use crate::engine::Src;
use crate::model::*;
use std::collections::HashMap;

// ---------------------------------------------------------------------------------------------
// Encoding

/// How names are laid out.
pub enum Compress<'a> {
    Never,
    /// Longest known suffix, first place.
    Max,
    /// A random choice per label: any earlier place of any known suffix, or no pointer.
    Random(&'a mut Src),
}

pub struct Enc<'a> {
    pub buf: Vec<u8>,
    /// Suffix -> offsets where it starts (in place or as a pointer).
    dict: HashMap<Name, Vec<usize>>,
    mode: Compress<'a>,
    pub pointers: usize,
    pub max_target: usize,
}

impl<'a> Enc<'a> {
    pub fn new(mode: Compress<'a>) -> Self {
        Enc { buf: Vec::new(), dict: HashMap::new(), mode, pointers: 0, max_target: 0 }
    }
    pub fn u16(&mut self, v: u16) {
        self.buf.extend_from_slice(&v.to_be_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.buf.extend_from_slice(&v.to_be_bytes());
    }
    pub fn name(&mut self, n: &[Label]) {
        let mut new: Vec<(Name, usize)> = Vec::new();
        let mut i = 0;
        loop {
            let suffix = &n[i..];
            let target = match &mut self.mode {
                Compress::Never => None,
                Compress::Max => {
                    if suffix.is_empty() {
                        None
                    } else {
                        self.dict.get(suffix).map(|v| v[0])
                    }
                }
                Compress::Random(s) => match self.dict.get(suffix) {
                    // Even the root name may be written as a pointer.
                    Some(v) if s.chance(if suffix.is_empty() { 1 } else { 4 }, 6) => Some(*s.pick(v)),
                    _ => None,
                },
            };
            if let Some(t) = target {
                new.push((suffix.to_vec(), self.buf.len()));
                self.u16(0xc000 | t as u16);
                self.pointers += 1;
                self.max_target = self.max_target.max(t);
                break;
            }
            if suffix.is_empty() {
                new.push((Vec::new(), self.buf.len()));
                self.buf.push(0);
                break;
            }
            new.push((suffix.to_vec(), self.buf.len()));
            self.buf.push(suffix[0].len() as u8);
            self.buf.extend_from_slice(&suffix[0]);
            i += 1;
        }
        if !matches!(self.mode, Compress::Never) {
            // Only now: a name must not point into itself.
            for (k, off) in new {
                if off < 0x4000 {
                    self.dict.entry(k).or_default().push(off);
                }
            }
        }
    }
    pub fn rdata(&mut self, d: &RData) {
        match d {
            RData::A(a) => self.buf.extend_from_slice(a),
            RData::Aaaa(a) => self.buf.extend_from_slice(a),
            RData::Cname(n) | RData::Ns(n) | RData::Ptr(n) => self.name(n),
            RData::Mx(p, n) => {
                self.u16(*p);
                self.name(n);
            }
            RData::Txt(v) => {
                for e in v {
                    self.buf.push(e.len() as u8);
                    self.buf.extend_from_slice(e);
                }
            }
            RData::Srv(a, b, c, n) => {
                self.u16(*a);
                self.u16(*b);
                self.u16(*c);
                self.name(n);
            }
            RData::Soa(m, r, x) => {
                self.name(m);
                self.name(r);
                for v in x {
                    self.u32(*v);
                }
            }
            RData::Raw(_, b) => self.buf.extend_from_slice(b),
        }
    }
    pub fn q(&mut self, q: &Q) {
        self.name(&q.name);
        self.u16(q.qtype);
        self.u16(q.qclass | if q.qu { 0x8000 } else { 0 });
    }
    /// Writes a record and returns the offset of its data.
    pub fn rr(&mut self, r: &RR) -> usize {
        self.name(&r.name);
        self.u16(r.data.type_code());
        self.u16(r.class | if r.flush { 0x8000 } else { 0 });
        self.u32(r.ttl);
        let lp = self.buf.len();
        self.u16(0);
        self.rdata(&r.data);
        let len = self.buf.len() - lp - 2;
        self.buf[lp..lp + 2].copy_from_slice(&(len as u16).to_be_bytes());
        lp + 2
    }
    pub fn header(&mut self, m: &Msg) {
        self.u16(m.id);
        self.u16(m.flags);
        self.u16(m.q.len() as u16);
        for k in 0..3 {
            self.u16(m.rr[k].len() as u16);
        }
    }
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub pointers: usize,
    pub max_target: usize,
    /// End offset of each entry, in order.
    pub ends: Vec<usize>,
    /// (start, end) of each record's data, in order.
    pub rdata: Vec<(usize, usize)>,
}

pub fn encode(m: &Msg, mode: Compress<'_>) -> Encoded {
    let mut e = Enc::new(mode);
    e.header(m);
    let mut ends = Vec::new();
    let mut rdata = Vec::new();
    for q in &m.q {
        e.q(q);
        ends.push(e.buf.len());
    }
    for sec in &m.rr {
        for r in sec {
            let st = e.rr(r);
            ends.push(e.buf.len());
            rdata.push((st, e.buf.len()));
        }
    }
    Encoded { bytes: e.buf, pointers: e.pointers, max_target: e.max_target, ends, rdata }
}

pub fn gen_encoded(s: &mut Src, m: &Msg) -> Encoded {
    match s.weighted(&[1, 1, 3]) {
        0 => encode(m, Compress::Never),
        1 => encode(m, Compress::Max),
        _ => encode(m, Compress::Random(s)),
    }
}

// ---------------------------------------------------------------------------------------------
// Reference parser

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Eof,
    PointerLoop,
    InvalidValue,
}

pub struct NameInfo {
    pub name: Name,
    /// Offset of the first byte after the name's in-place bytes.
    pub next: usize,
    pub hops: usize,
    /// A run reached by a pointer extended to or past the in-place pointer.
    pub overlap: bool,
}

/// Reads a name at `pos` of `buf`. A pointer must lead strictly before the start of the run of
/// labels that it ends.
pub fn ref_name(buf: &[u8], pos: usize) -> Result<NameInfo, Bad> {
    let mut name = Vec::new();
    let mut next = None;
    let (mut run, mut p, mut hops) = (pos, pos, 0usize);
    let mut overlap = false;
    loop {
        let b = *buf.get(p).ok_or(Bad::Eof)? as usize;
        if b >= 0xc0 {
            let lo = *buf.get(p + 1).ok_or(Bad::Eof)? as usize;
            let t = (b & 0x3f) << 8 | lo;
            if t >= run {
                return Err(Bad::PointerLoop);
            }
            if next.is_none() {
                next = Some(p + 2);
            } else if p + 2 > next.unwrap() {
                overlap = true;
            }
            run = t;
            p = t;
            hops += 1;
        } else if b >= 0x40 {
            return Err(Bad::InvalidValue);
        } else if b == 0 {
            p += 1;
            break;
        } else {
            let l = buf.get(p + 1..p + 1 + b).ok_or(Bad::Eof)?;
            name.push(l.to_vec());
            p += 1 + b;
        }
    }
    if let Some(n) = next {
        if p > n {
            overlap = true;
        }
    }
    Ok(NameInfo { name, next: next.unwrap_or(p), hops, overlap })
}

/// Cursor over a buffer that may end early.
pub struct Cur<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub hops: usize,
    pub overlap: bool,
}

impl<'a> Cur<'a> {
    pub fn new(buf: &'a [u8], pos: usize) -> Self {
        Cur { buf, pos, hops: 0, overlap: false }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        let b = self.buf;
        let r = b.get(self.pos..).and_then(|x| x.get(..n)).ok_or(Bad::Eof)?;
        self.pos += n;
        Ok(r)
    }
    pub fn u16(&mut self) -> Result<u16, Bad> {
        let b = self.take(2)?;
        Ok((b[0] as u16) << 8 | b[1] as u16)
    }
    pub fn u32(&mut self) -> Result<u32, Bad> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    pub fn name(&mut self) -> Result<Name, Bad> {
        let i = ref_name(self.buf, self.pos)?;
        self.pos = i.next;
        self.hops = self.hops.max(i.hops);
        self.overlap |= i.overlap;
        Ok(i.name)
    }
}

#[derive(Clone, Debug)]
pub struct RefRR {
    pub name: Name,
    pub rtype: u16,
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub raw: Vec<u8>,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct RefMsg {
    pub id: u16,
    pub flags: u16,
    pub counts: [u16; 4],
    pub q: Vec<Q>,
    pub rr: [Vec<RefRR>; 3],
    /// Where the first malformed entry is (section 0..4), and what is wrong.
    pub err: Option<(usize, Bad)>,
    /// Offset after the last entry.
    pub end: usize,
    pub hops: usize,
    pub overlap: bool,
}

/// Reads as much of the message as is well-formed; `None` if there is no complete header.
pub fn ref_parse(b: &[u8]) -> Option<RefMsg> {
    let mut c = Cur::new(b, 0);
    let id = c.u16().ok()?;
    let flags = c.u16().ok()?;
    let counts = [c.u16().ok()?, c.u16().ok()?, c.u16().ok()?, c.u16().ok()?];
    let mut m = RefMsg { id, flags, counts, q: vec![], rr: [vec![], vec![], vec![]], err: None, end: 0, hops: 0, overlap: false };
    'all: for sec in 0..4 {
        for _ in 0..counts[sec] {
            let r: Result<(), Bad> = (|| {
                if sec == 0 {
                    let name = c.name()?;
                    let qtype = c.u16()?;
                    let qc = c.u16()?;
                    m.q.push(Q { name, qtype, qclass: qc & 0x7fff, qu: qc & 0x8000 != 0 });
                } else {
                    let name = c.name()?;
                    let rtype = c.u16()?;
                    let rc = c.u16()?;
                    let ttl = c.u32()?;
                    let len = c.u16()? as usize;
                    let start = c.pos;
                    let raw = c.take(len)?.to_vec();
                    m.rr[sec - 1].push(RefRR { name, rtype, class: rc & 0x7fff, flush: rc & 0x8000 != 0, ttl, raw, start, end: start + len });
                }
                Ok(())
            })();
            if let Err(e) = r {
                m.err = Some((sec, e));
                break 'all;
            }
        }
    }
    m.end = c.pos;
    m.hops = c.hops;
    m.overlap = c.overlap;
    Some(m)
}

/// What the typed view of a record should be.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefTyped {
    Unsupported,
    /// The value, and whether the data had bytes left over.
    Value(RData, bool),
    Bad(Bad),
}

pub fn ref_typed(msg: &[u8], rr: &RefRR) -> RefTyped {
    if !SUPPORTED.contains(&rr.rtype) {
        return RefTyped::Unsupported;
    }
    // Names may point back into the whole message, but nothing is read past the record's data.
    let mut c = Cur::new(&msg[..rr.end], rr.start);
    let v: Result<RData, Bad> = (|| {
        Ok(match rr.rtype {
            1 => RData::A(c.take(4)?.try_into().unwrap()),
            28 => RData::Aaaa(c.take(16)?.try_into().unwrap()),
            5 => RData::Cname(c.name()?),
            2 => RData::Ns(c.name()?),
            12 => RData::Ptr(c.name()?),
            15 => RData::Mx(c.u16()?, c.name()?),
            33 => RData::Srv(c.u16()?, c.u16()?, c.u16()?, c.name()?),
            6 => RData::Soa(c.name()?, c.name()?, [c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?]),
            16 => {
                let mut v = Vec::new();
                while c.pos < c.buf.len() {
                    let n = c.take(1)?[0] as usize;
                    v.push(c.take(n)?.to_vec());
                }
                RData::Txt(v)
            }
            _ => unreachable!(),
        })
    })();
    match v {
        Ok(v) => RefTyped::Value(v, c.pos != rr.end),
        Err(e) => RefTyped::Bad(e),
    }
}

/// Mutates message bytes: flips, overwrites, truncation, splices, count tampering, pointers.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) -> usize {
    let mut k = 0;
    while k == 0 || s.more(k, 2, 12) {
        k += 1;
        let n = b.len();
        if n == 0 {
            b.push(s.u8());
            continue;
        }
        match s.weighted(&[4, 4, 3, 2, 2, 3, 3, 2]) {
            0 => {
                let i = s.below(n as u64) as usize;
                b[i] ^= 1 << s.below(8);
            }
            1 => {
                let i = s.below(n as u64) as usize;
                b[i] = *s.pick(&[0u8, 1, 2, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xff, 12, 13]);
            }
            2 => {
                let l = s.below(n as u64) as usize;
                b.truncate(l);
            }
            3 => {
                let i = s.below(n as u64 + 1) as usize;
                let v = s.u8();
                b.insert(i, v);
            }
            4 => {
                let i = s.below(n as u64) as usize;
                b.remove(i);
            }
            5 => {
                // section counts
                let i = 4 + s.below(8) as usize;
                if i < n {
                    b[i] = *s.pick(&[0u8, 1, 2, 3, 5, 0xff]);
                }
            }
            6 => {
                // a pointer somewhere
                let i = s.below(n as u64) as usize;
                let t = s.below(n as u64 + 4) as u16;
                b[i] = 0xc0 | (t >> 8) as u8 & 0x3f;
                if i + 1 < n {
                    b[i + 1] = t as u8;
                }
            }
            _ => {
                let i = s.below(n as u64) as usize;
                let l = (s.below(16) as usize).min(n - i);
                let chunk = b[i..i + l].to_vec();
                let j = s.below(n as u64) as usize;
                b.splice(j..j, chunk);
            }
        }
        if b.len() > 70_000 {
            b.truncate(70_000);
        }
    }
    k
}
