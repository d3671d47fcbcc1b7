//! Adapters between uwuhi's public API and the reference model.

use crate::engine::Src;
use crate::model::*;
use crate::wire::{Bad, RefMsg, RefTyped};
use std::borrow::Cow;
use std::net::{Ipv4Addr, Ipv6Addr};
use uwuhi::name::{DomainName, Label as ULabel};
use uwuhi::packet::decoder::{MessageDecoder, ResourceRecord};
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::records::{Record, A, AAAA, CNAME, MX, NS, PTR, SOA, SRV, TXT};
use uwuhi::packet::section::{Additional, Answer, Authority, Question as SQ};
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::Error;

pub fn ulabel(l: &[u8]) -> ULabel {
    ULabel::try_new(l).expect("generated label is valid")
}
pub fn uname(n: &[Label]) -> DomainName {
    let mut d = DomainName::ROOT;
    for l in n {
        d.push_label(ulabel(l));
    }
    d
}
pub fn mname(d: &DomainName) -> Name {
    d.labels().iter().map(|l| l.as_bytes().to_vec()).collect()
}
pub fn qtype(v: u16) -> QType {
    bytemuck::cast(v)
}
pub fn qclass(v: u16) -> QClass {
    bytemuck::cast(v)
}
pub fn class(v: u16) -> Class {
    bytemuck::cast(v)
}
pub fn rtype(v: u16) -> Type {
    bytemuck::cast(v)
}
pub fn opcode(v: u8) -> Opcode {
    bytemuck::cast(v)
}
pub fn rcode(v: u8) -> RCode {
    bytemuck::cast(v)
}
pub fn code<T: bytemuck::Pod>(v: T) -> u16 {
    bytemuck::cast(v)
}
pub fn code8<T: bytemuck::Pod>(v: T) -> u8 {
    bytemuck::cast(v)
}

pub fn header_from(id: u16, flags: u16, counts: [u16; 4]) -> Header {
    let mut b = [0u8; 12];
    for (i, v) in [id, flags, counts[0], counts[1], counts[2], counts[3]].into_iter().enumerate() {
        b[2 * i..2 * i + 2].copy_from_slice(&v.to_be_bytes());
    }
    bytemuck::pod_read_unaligned(&b)
}
pub fn header_bytes(h: &Header) -> Vec<u8> {
    bytemuck::bytes_of(h).to_vec()
}

pub fn rec(d: &RData) -> Record<'static> {
    match d {
        RData::A(a) => Record::A(A::new(Ipv4Addr::from(*a))),
        RData::Aaaa(a) => Record::AAAA(AAAA::new(Ipv6Addr::from(*a))),
        RData::Cname(n) => Record::CNAME(CNAME::new(uname(n))),
        RData::Mx(p, n) => Record::MX(MX::new(*p, uname(n))),
        RData::Ns(n) => Record::NS(NS::new(uname(n))),
        RData::Ptr(n) => Record::PTR(PTR::new(uname(n))),
        RData::Txt(v) => Record::TXT(txt(v)),
        RData::Srv(a, b, c, n) => Record::SRV(SRV::new(*a, *b, *c, uname(n))),
        RData::Soa(m, r, x) => Record::SOA(SOA::new(uname(m), uname(r), x[0], x[1], x[2], x[3], x[4])),
        RData::Raw(..) => unreachable!("raw data has no uwuhi record"),
    }
}
pub fn txt(v: &[Vec<u8>]) -> TXT<'static> {
    TXT::new(v.iter().map(|e| Cow::<'static, [u8]>::Owned(e.clone())))
}

pub fn model(r: &Record<'_>) -> Result<RData, String> {
    Ok(match r {
        Record::A(a) => RData::A(a.addr().octets()),
        Record::AAAA(a) => RData::Aaaa(a.addr().octets()),
        Record::CNAME(c) => RData::Cname(mname(c.cname())),
        Record::MX(m) => RData::Mx(m.preference(), mname(m.exchange())),
        Record::NS(n) => RData::Ns(mname(n.nsdname())),
        Record::PTR(p) => RData::Ptr(mname(p.ptrdname())),
        Record::TXT(t) => RData::Txt(t.entries().map(|e| e.to_vec()).collect()),
        Record::SRV(s) => RData::Srv(s.priority(), s.weight(), s.port(), mname(s.target())),
        Record::SOA(s) => RData::Soa(mname(s.mname()), mname(s.rname()), [s.serial(), s.refresh(), s.retry(), s.expire(), s.minimum_ttl()]),
        _ => return Err("a record variant the harness does not know".into()),
    })
}

pub fn same_err(e: Error, b: Bad) -> bool {
    match b {
        Bad::Eof => e == Error::Eof,
        Bad::PointerLoop => e == Error::PointerLoop,
        Bad::InvalidValue => e == Error::InvalidValue,
    }
}

/// One decoded record.
#[derive(Clone, Debug)]
pub struct DRR {
    pub name: Name,
    pub rtype: u16,
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub raw: Vec<u8>,
    pub typed: Option<Result<RData, Error>>,
}

pub fn drr(r: &ResourceRecord<'_>) -> Result<DRR, String> {
    Ok(DRR {
        name: mname(r.name()),
        rtype: code(r.type_()),
        class: code(r.class()),
        flush: r.cache_flush(),
        ttl: r.ttl(),
        raw: r.rdata().to_vec(),
        typed: match r.as_enum() {
            None => None,
            Some(Ok(v)) => Some(Ok(model(&v)?)),
            Some(Err(e)) => Some(Err(e)),
        },
    })
}

#[derive(Clone, Debug, Default)]
pub struct Walked {
    pub header: Vec<u8>,
    /// (name, type, class)
    pub q: Vec<(Name, u16, u16)>,
    pub rr: [Vec<DRR>; 3],
    /// Number of leading entries of each section that were looked at.
    pub looked: [usize; 4],
    /// Whether the section was read until `None`.
    pub ended: [bool; 4],
    pub err: Option<(usize, Error)>,
}

/// How to walk: per section, how many entries to look at before moving on (`None`: all), and
/// whether by iterator.
#[derive(Clone, Debug)]
pub struct Plan {
    pub per: [Option<usize>; 4],
    pub iter: [bool; 4],
    /// Skip directly to this section (1..=3) from the one before it was chosen in.
    pub jump: Option<(usize, usize)>,
}

impl Plan {
    pub fn all() -> Self {
        Plan { per: [None; 4], iter: [false; 4], jump: None }
    }
    pub fn gen(s: &mut Src) -> Self {
        let mut p = Plan::all();
        for i in 0..4 {
            if s.chance(1, 3) {
                p.per[i] = Some(s.below(4) as usize);
            }
            p.iter[i] = s.bool();
        }
        if s.chance(1, 4) {
            let from = s.below(2) as usize;
            let to = from + 2 + s.below(2 - from as u64) as usize;
            p.jump = Some((from, to.min(3)));
        }
        p
    }
}

macro_rules! read_section {
    ($dec:ident, $w:ident, $sec:expr, $plan:ident, $push:expr) => {{
        let want = $plan.per[$sec];
        let mut k = 0usize;
        if $plan.iter[$sec] {
            let mut it = $dec.iter();
            loop {
                if want == Some(k) {
                    break;
                }
                match it.next() {
                    None => {
                        $w.ended[$sec] = true;
                        if it.next().is_some() {
                            return Err(format!("section {} yields something after its end", $sec));
                        }
                        break;
                    }
                    Some(Ok(x)) => {
                        $push(&mut $w, &x)?;
                        k += 1;
                    }
                    Some(Err(e)) => {
                        $w.err = Some(($sec, e));
                        if it.next().is_some() {
                            return Err(format!("section {} yields something after an error", $sec));
                        }
                        break;
                    }
                }
            }
        } else {
            loop {
                if want == Some(k) {
                    break;
                }
                match $dec.next() {
                    None => {
                        $w.ended[$sec] = true;
                        break;
                    }
                    Some(Ok(x)) => {
                        $push(&mut $w, &x)?;
                        k += 1;
                    }
                    Some(Err(e)) => {
                        $w.err = Some(($sec, e));
                        break;
                    }
                }
            }
            if ($w.err.is_some() || $w.ended[$sec]) && $dec.next().is_some() {
                return Err(format!("section {} yields something after its end or an error", $sec));
            }
        }
        $w.looked[$sec] = k;
    }};
}

fn quiet<T>(r: Option<T>, sec: usize) -> Result<(), String> {
    if r.is_some() {
        return Err(format!("section {sec} yields something although an error was reported before"));
    }
    Ok(())
}

/// Walks a message by `plan`. `Err` only for broken protocol rules (never for decode errors).
/// `probe` is called with every record while it is borrowed from the decoder.
pub fn walk(buf: &[u8], plan: &Plan, probe: &mut dyn FnMut(usize, &ResourceRecord<'_>) -> Result<(), String>) -> Result<Result<Walked, Error>, String> {
    let mut dec: MessageDecoder<'_, SQ> = match MessageDecoder::new(buf) {
        Ok(d) => d,
        Err(e) => return Ok(Err(e)),
    };
    let mut w = Walked { header: header_bytes(dec.header()), ..Default::default() };
    read_section!(dec, w, 0, plan, |w: &mut Walked, q: &uwuhi::packet::decoder::Question| -> Result<(), String> {
        w.q.push((mname(q.qname()), code(q.qtype()), code(q.qclass())));
        Ok(())
    });
    macro_rules! step {
        ($res:expr, $sec:expr) => {
            match $res {
                Ok(d) => d,
                Err(e) => {
                    // After a reported error a transition may refuse, but must not find a new one.
                    if w.err.is_none() {
                        w.err = Some(($sec, e));
                    }
                    return Ok(Ok(w));
                }
            }
        };
    }
    let mut push = |sec: usize, w: &mut Walked, r: &ResourceRecord<'_>| -> Result<(), String> {
        probe(sec, r)?;
        w.rr[sec - 1].push(drr(r)?);
        Ok(())
    };
    // After an error, everything later must stay silent.
    macro_rules! silent {
        ($dec:expr, $sec:expr) => {
            if w.err.is_some() {
                quiet($dec.next(), $sec)?;
                quiet($dec.iter().next(), $sec)?;
            }
        };
    }
    let errored = w.err.is_some();
    if !errored && plan.jump == Some((0, 3)) {
        let mut d: MessageDecoder<'_, Additional> = step!(dec.additional(), 0);
        read_section!(d, w, 3, plan, |w: &mut Walked, r: &ResourceRecord<'_>| push(3, w, r));
        return Ok(Ok(w));
    }
    let mut d2: MessageDecoder<'_, Authority>;
    if !errored && plan.jump == Some((0, 2)) {
        d2 = step!(dec.authority(), 0);
    } else {
        let mut d1: MessageDecoder<'_, Answer> = step!(dec.answers(), 0);
        if w.header != header_bytes(d1.header()) {
            return Err("the header changes between sections".into());
        }
        silent!(d1, 1);
        if w.err.is_none() {
            read_section!(d1, w, 1, plan, |w: &mut Walked, r: &ResourceRecord<'_>| push(1, w, r));
        }
        if w.err.is_none() && plan.jump == Some((1, 3)) {
            let mut d: MessageDecoder<'_, Additional> = step!(d1.additional(), 1);
            read_section!(d, w, 3, plan, |w: &mut Walked, r: &ResourceRecord<'_>| push(3, w, r));
            return Ok(Ok(w));
        }
        d2 = step!(d1.authority(), 1);
    }
    silent!(d2, 2);
    if w.err.is_none() {
        read_section!(d2, w, 2, plan, |w: &mut Walked, r: &ResourceRecord<'_>| push(2, w, r));
    }
    let mut d3: MessageDecoder<'_, Additional> = step!(d2.additional(), 2);
    silent!(d3, 3);
    if w.err.is_none() {
        read_section!(d3, w, 3, plan, |w: &mut Walked, r: &ResourceRecord<'_>| push(3, w, r));
    }
    if w.header != header_bytes(d3.header()) {
        return Err("the header changes between sections".into());
    }
    Ok(Ok(w))
}

/// Compares a walk with the reference reading of the same bytes.
pub fn compare(w: &Walked, r: &RefMsg, bytes: &[u8], plan: &Plan) -> Result<(), String> {
    if w.header != bytes[..12] {
        return Err(format!("header bytes read as {} instead of {}", hex(&w.header), hex(&bytes[..12])));
    }
    let err_sec = r.err.map(|(s, _)| s);
    // Questions
    let nq = plan.per[0].unwrap_or(usize::MAX).min(r.q.len());
    if w.q.len() != nq {
        return Err(format!("{} questions decoded, reference has {} (error: {:?})", w.q.len(), nq, w.err));
    }
    for (i, (a, b)) in w.q.iter().zip(&r.q).enumerate() {
        if a.0 != b.name || a.1 != b.qtype || a.2 != b.qclass {
            return Err(format!("question {i}: decoded {} type={} class={:#x}, bytes say {}", show_name(&a.0), a.1, a.2, show_q(b)));
        }
    }
    let skipped = |sec: usize| plan.jump.is_some_and(|(f, t)| sec > f && sec < t);
    let mut blocked = err_sec == Some(0);
    if !blocked {
        for sec in 1..4 {
            if skipped(sec) {
                // The error may sit in the skipped part.
                if err_sec == Some(sec) {
                    blocked = true;
                }
            } else if !blocked {
                let refs = &r.rr[sec - 1];
                let n = plan.per[sec].unwrap_or(usize::MAX).min(refs.len());
                let got = &w.rr[sec - 1];
                if got.len() != n {
                    return Err(format!("section {sec}: {} records decoded, reference has {} (error: {:?})", got.len(), n, w.err));
                }
                for (i, (a, b)) in got.iter().zip(refs).enumerate() {
                    if a.name != b.name || a.rtype != b.rtype || a.class != b.class || a.flush != b.flush || a.ttl != b.ttl || a.raw != b.raw {
                        return Err(format!(
                            "section {sec} record {i}: decoded {} type={} class={:#x} flush={} ttl={} data={}, bytes say {} type={} class={:#x} flush={} ttl={} data={}",
                            show_name(&a.name), a.rtype, a.class, a.flush, a.ttl, hex(&a.raw), show_name(&b.name), b.rtype, b.class, b.flush, b.ttl, hex(&b.raw)
                        ));
                    }
                }
                if err_sec == Some(sec) {
                    blocked = true;
                }
            } else if !w.rr[sec - 1].is_empty() {
                return Err(format!("section {sec} yields records after a malformed entry"));
            }
        }
    } else if w.rr.iter().any(|x| !x.is_empty()) {
        return Err("records decoded after a malformed question".into());
    }
    // Errors: the last section's tail is not visited if the plan stops early there.
    let visited = |sec: usize, plan: &Plan| sec < 3 || plan.per[3].is_none() || r.rr[2].len() < plan.per[3].unwrap();
    match (r.err, w.err) {
        (Some((sec, e)), None) => {
            if visited(sec, plan) {
                return Err(format!("malformed entry ({e:?}) in section {sec} not reported"));
            }
        }
        (None, Some((sec, e))) => return Err(format!("section {sec}: error {e:?} reported for well-formed data")),
        (Some((sec, e)), Some((_, g))) => {
            if !same_err(g, e) {
                return Err(format!("malformed entry in section {sec}: error {g:?}, expected {e:?}"));
            }
        }
        (None, None) => {}
    }
    Ok(())
}

pub fn compare_typed(got: &Option<Result<RData, Error>>, want: &RefTyped) -> Result<(), String> {
    match (got, want) {
        (None, RefTyped::Unsupported) => Ok(()),
        (Some(Ok(g)), RefTyped::Value(v, _)) if g == v => Ok(()),
        // Leftover bytes: rejecting is as good as ignoring them.
        (Some(Err(_)), RefTyped::Value(_, true)) => Ok(()),
        (Some(Err(_)), RefTyped::Bad(_)) => Ok(()),
        _ => Err(format!("typed view is {:?}, data says {:?}", got.as_ref().map(|g| g.as_ref().map(show_rdata)), want)),
    }
}

/// Checks decoded messages against the reference model (everything, including typed views).
pub fn check_decodes_to(bytes: &[u8], m: &Msg) -> Result<(), String> {
    let w = walk(bytes, &Plan::all(), &mut |_, _| Ok(()))?.map_err(|e| format!("the decoder rejects the message header: {e:?}"))?;
    if let Some((sec, e)) = w.err {
        return Err(format!("decoder reports {e:?} in section {sec} of a well-formed message"));
    }
    if w.header[..4] != [(m.id >> 8) as u8, m.id as u8, (m.flags >> 8) as u8, m.flags as u8] {
        return Err(format!("decoded header {} for id {:#x} flags {:#x}", hex(&w.header), m.id, m.flags));
    }
    if w.q.len() != m.q.len() {
        return Err(format!("{} questions decoded instead of {}", w.q.len(), m.q.len()));
    }
    for (i, (a, b)) in w.q.iter().zip(&m.q).enumerate() {
        if a.0 != b.name || a.1 != b.qtype || a.2 != b.qclass {
            return Err(format!("question {i}: decoded {} type={} class={:#x} instead of {}", show_name(&a.0), a.1, a.2, show_q(b)));
        }
    }
    for k in 0..3 {
        if w.rr[k].len() != m.rr[k].len() {
            return Err(format!("section {}: {} records decoded instead of {}", k + 1, w.rr[k].len(), m.rr[k].len()));
        }
        for (i, (a, b)) in w.rr[k].iter().zip(&m.rr[k]).enumerate() {
            rr_eq(a, b).map_err(|e| format!("section {} record {i}: {e}", k + 1))?;
        }
    }
    Ok(())
}

pub fn rr_eq(a: &DRR, b: &RR) -> Result<(), String> {
    if a.name != b.name || a.rtype != b.data.type_code() || a.class != b.class || a.flush != b.flush || a.ttl != b.ttl {
        return Err(format!("decoded {} type={} class={:#x} flush={} ttl={} instead of {}", show_name(&a.name), a.rtype, a.class, a.flush, a.ttl, show_rr(b)));
    }
    match &b.data {
        RData::Raw(t, raw) => {
            if &a.raw != raw {
                return Err(format!("raw data {} instead of {}", hex(&a.raw), hex(raw)));
            }
            if !SUPPORTED.contains(t) && a.typed.is_some() {
                return Err(format!("unsupported type {t} has a typed view {:?}", a.typed));
            }
        }
        d => match &a.typed {
            Some(Ok(g)) if g == d => {}
            g => return Err(format!("typed view {:?} instead of {}", g.as_ref().map(|x| x.as_ref().map(show_rdata)), show_rdata(d))),
        },
    }
    Ok(())
}

/// Checks bytes against the model with the independent parser only.
pub fn check_ref_parses_to(bytes: &[u8], m: &Msg) -> Result<RefMsg, String> {
    let r = crate::wire::ref_parse(bytes).ok_or("no complete header")?;
    if let Some((sec, e)) = r.err {
        return Err(format!("the bytes are malformed in section {sec}: {e:?}"));
    }
    if r.end != bytes.len() {
        return Err(format!("message ends at {} but {} bytes were reported", r.end, bytes.len()));
    }
    if r.id != m.id || r.flags != m.flags {
        return Err(format!("header id {:#x} flags {:#06x} on the wire instead of {:#x} {:#06x}", r.id, r.flags, m.id, m.flags));
    }
    let want = [m.q.len(), m.rr[0].len(), m.rr[1].len(), m.rr[2].len()];
    if r.counts.map(|c| c as usize) != want {
        return Err(format!("section counts {:?} on the wire instead of {:?}", r.counts, want));
    }
    for (i, (a, b)) in r.q.iter().zip(&m.q).enumerate() {
        if a.name != b.name || a.qtype != b.qtype || a.qclass != b.qclass || a.qu != b.qu {
            return Err(format!("question {i} on the wire: {} instead of {}", show_q(a), show_q(b)));
        }
    }
    for k in 0..3 {
        for (i, (a, b)) in r.rr[k].iter().zip(&m.rr[k]).enumerate() {
            let t = crate::wire::ref_typed(bytes, a);
            let data_ok = match &b.data {
                RData::Raw(_, raw) => &a.raw == raw,
                d => t == RefTyped::Value(d.clone(), false),
            };
            if a.name != b.name || a.rtype != b.data.type_code() || a.class != b.class || a.flush != b.flush || a.ttl != b.ttl || !data_ok {
                return Err(format!("section {} record {i} on the wire: {} type={} class={:#x} flush={} ttl={} data={} ({t:?}) instead of {}", k + 1, show_name(&a.name), a.rtype, a.class, a.flush, a.ttl, hex(&a.raw), show_rr(b)));
            }
        }
    }
    Ok(r)
}

// ---------------------------------------------------------------------------------------------
// Driving the encoder

pub enum Finish {
    Finish,
    Drop,
}

/// Encodes `m` (no raw data, no class high bits) into `buf`. `None` as result when dropped.
/// `upto` limits the number of entries written.
pub fn uw_encode(m: &Msg, buf: &mut [u8], upto: usize, header: Header, fin: Finish) -> Option<Result<usize, Error>> {
    let mut left = upto;
    let mut enc = MessageEncoder::new(buf);
    enc.set_header(header);
    for q in m.q.iter().take(left) {
        let n = uname(&q.name);
        enc.question(encoder::Question::new(&n).ty(qtype(q.qtype)).class(qclass(q.qclass | if q.qu { 0x8000 } else { 0 })));
    }
    left -= m.q.len().min(left);
    let put = |r: &RR, f: &mut dyn FnMut(encoder::ResourceRecord<'_>)| {
        let n = uname(&r.name);
        let d = rec(&r.data);
        f(encoder::ResourceRecord::new(&n, &d).class(class(r.class | if r.flush { 0x8000 } else { 0 })).ttl(r.ttl));
    };
    let mut enc = enc.answers();
    for r in m.rr[0].iter().take(left) {
        put(r, &mut |x| enc.add_answer(x));
    }
    left -= m.rr[0].len().min(left);
    let last_stage = m.rr[1].is_empty() && m.rr[2].is_empty();
    if last_stage && upto % 2 == 1 {
        // Ending in an earlier section is as good as walking to the last one.
        return match fin {
            Finish::Finish => Some(enc.finish()),
            Finish::Drop => {
                drop(enc);
                None
            }
        };
    }
    let mut enc = enc.authority();
    for r in m.rr[1].iter().take(left) {
        put(r, &mut |x| enc.add_authority(x));
    }
    left -= m.rr[1].len().min(left);
    let mut enc = enc.additional();
    for r in m.rr[2].iter().take(left) {
        put(r, &mut |x| enc.add_additional(x));
    }
    match fin {
        Finish::Finish => Some(enc.finish()),
        Finish::Drop => {
            drop(enc);
            None
        }
    }
}
