//! C10-C15 and C22: advertiser, TXT metadata, service identifiers, client codecs, text forms.

use crate::engine::*;
use crate::model::*;
use crate::reg::*;
use crate::render::*;
use crate::uw::*;
use crate::wire::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::ops::ControlFlow;
use uwuhi::name::DomainName;
use uwuhi::packet::decoder::{MessageDecoder, Question as DQ};
use uwuhi::packet::records::{Record, PTR, SRV};
use uwuhi::packet::section::Question as SQ;
use uwuhi::packet::QType;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{discovery, InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords};
use uwuhi::{resolver, MDNS_BUFFER_SIZE};

pub const fn sub(name: &'static str, quick: u64, thorough: u64, run: CaseFn, rule: &'static str) -> Sub {
    Sub { name, rule, quick, thorough, run, net: false }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            subs: vec![
                sub("answers", 400_000, 12_000_000, c10_answers, "Histories of registrations (host names with IPv4/IPv6 addresses, instances with TXT metadata, clashing and look-alike names) interleaved with queries (0-6 questions around the registered names, all types and classes, compressed or not, other sections filled, junk behind) against one advertiser; every response is read by the reference parser and compared with the multiset of matching records. Non-trivial: at least one query with a non-empty answer and one registration."),
                sub("truncated", 60_000, 2_000_000, c10_truncated, "As answers, with up to 60 registrations, long names and TXT data and up to 40 questions per query, so that responses reach and exceed 1500 bytes; non-trivial: a response was truncated or has more than 1000 bytes."),
                sub("many", 1_500, 40_000, c10_many, "As answers, with 200-6000 registered names (up to 40 more addresses for one of them, some services among them); non-trivial: at least one query with a non-empty answer."),
            ],
            assumptions: vec!["names differing only in ASCII case may or may not match", "a record matched by several questions may be repeated or not", "TXT entries fit into 255 bytes and keys added as flags contain no '='"],
        },
        Prop {
            id: "C11",
            subs: vec![
                sub("history", 300_000, 10_000_000, c11_history, "Sequences of 1-12 packets (garbage, mutated queries, responses, other opcodes and rcodes, valid queries) interleaved with registrations on one advertiser; every answer must equal that of a freshly set up advertiser, and packets that are no proper queries must not be answered. Non-trivial: an answered query after a packet that is no proper query."),
                sub("flood", 600, 15_000, c11_flood, "Queries whose questions match 60000-140000 records in total (compressed questions times registrations); non-trivial: at least 65536 matches."),
                sub("memory", 120, 3_000, c11_memory, "8000 packets, all different (proper and improper ones, answered and not), handled by one advertiser, which must not hold more memory after them than a fixed amount above what it held after the first quarter; every 1000th answer is compared with the model. Non-trivial: an answer among the compared ones."),
            ],
            assumptions: vec!["whether a query with a damaged body is answered for its intact questions is left open (but must not depend on history)", "30 s of CPU time or 1 GiB for one case counts as hanging"],
        },
        Prop {
            id: "C13",
            subs: vec![
                sub("entries", 1_200_000, 40_000_000, c13_entries, "TXT entries built from clashing keys, odd keys, missing keys, values with '=' and any bytes, parsed directly and from the wire, then 0-5 add_flag calls; lookup in any case, iteration, emptiness and text form are compared with a key/value model after each step. Non-trivial: at least two entries with the same key up to case, or an entry to be ignored, or an add_flag."),
                sub("advertised", 300_000, 10_000_000, c13_advertised, "Metadata registered with an advertiser, queried as TXT and parsed again gives the same view; non-trivial: at least one key."),
            ],
            assumptions: vec!["iteration order is left open (documented FIXME)", "which spelling of a key remains after add_flag of another spelling is left open", "keys added as flags are non-empty and contain no '='"],
        },
        Prop {
            id: "C14",
            subs: vec![
                sub("ptr", 2_000_000, 60_000_000, c14_ptr, "PTR targets of 0-6 labels around the valid forms (near-miss transports, names with and without underscore, any bytes), directly and from the wire; non-trivial: at least three labels."),
                sub("parts", 1_000_000, 30_000_000, c14_parts, "Identifiers constructed from parts, pairs and triples of them for equality, order and hash, transports from text; non-trivial: at least two different identifiers sharing a part."),
            ],
            assumptions: vec!["which error is reported for a rejected target is left open"],
        },
        Prop {
            id: "C15",
            subs: vec![
                sub("queries", 200_000, 5_000_000, c15_queries, "Names and type lists encoded as queries and read by the reference parser; non-trivial: a name of at least two labels."),
                sub("resolver", 250_000, 6_000_000, c15_resolver, "Responses to the encoded query (random sections, types, flags, ids, damage at generated places) decoded into an address list with earlier content, compared with the reference parser; non-trivial: an address in the answer section, or damage."),
                sub("discoverer", 250_000, 6_000_000, c15_discoverer, "Responses with damaged and unsupported records between good ones handed to a callback that breaks at a generated point; non-trivial: at least two records in the answer section."),
            ],
            assumptions: vec!["an address record of another class than IN, or in a response with an error code, may be used or not", "damage behind the answer section may be reported or not"],
        },
        Prop {
            id: "C22",
            subs: vec![
                sub("entries", 150_000, 4_000_000, c22_entries, "Messages with hostile names and data (control bytes, escapes, non-ASCII, separators) and damaged record data; the text of every question and record is checked for its alphabet and its fields, its debug text for control characters. Non-trivial: a byte outside printable ASCII in a rendered name or string."),
                sub("identifiers", 600_000, 20_000_000, c22_identifiers, "Labels, names, service identifiers and TXT metadata with hostile bytes; non-trivial: a byte outside printable ASCII."),
                Sub { name: "logs", quick: 20_000, thorough: 700_000, run: super::netprops::c22_logs, net: true, rule: "What the library logs at any level while it reads hostile TXT records, responses and queries (repeated keys, damaged records), registers hostile services and makes whole calls of its synchronous and asynchronous clients: no line may contain a control character other than a tab, or a non-ASCII character of the packets. Non-trivial: something was logged." },
            ],
            assumptions: vec!["the exact layout of debug text is left open"],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C10

fn unprintable(n: &[u8]) -> bool {
    n.iter().any(|b| !(0x20..0x7f).contains(b))
}

fn c10_run(s: &mut Src, ctx: &mut Ctx, setup: Setup, steps: usize, qavg: u64, qmax: usize) -> Result<(usize, usize), String> {
    let mut adv = setup.build();
    let mut records = setup.records();
    let (mut answered, mut truncated) = (0, 0);
    ctx.note(|| setup.show());
    crate::logcap::enable(s.chance(1, 8));
    let mut k = 0;
    while k == 0 || s.more(k, 2, steps) {
        k += 1;
        ctx.steps += 1;
        if s.chance(1, 4) {
            let r = gen_reg(s);
            register(&mut adv, &r);
            records.extend(records_of(&r));
            ctx.note(|| format!("then {r:?}"));
            ctx.class("registration between queries");
        }
        let long = s.chance(1, 16);
        ctx.class_if(long, "long query");
        let m = if long { gen_long_query(s, &records) } else { gen_query(s, &records, qavg, qmax) };
        let mut b = gen_encoded(s, &m).bytes;
        if s.chance(1, 6) {
            let n = s.range(1, 20);
            b.extend(s.bytes(n));
        }
        let resp = adv.handle_packet(&b).map_err(|e| format!("error {e:?} for a well-formed query {}", show_msg(&m)))?;
        let what = check_response(resp, m.id, &records, &m.q).map_err(|e| format!("query {}: {e}", show_msg(&m)))?;
        ctx.note(|| format!("query {} -> {what}, {} bytes", show_msg(&m), resp.map_or(0, |r| r.len())));
        ctx.class(what);
        match what {
            "answered" => answered += 1,
            "truncated" => truncated += 1,
            _ => {}
        }
        ctx.class_if(m.q.len() > 1 && what == "answered", "answered, several questions");
        ctx.class_if(resp.is_some_and(|r| r.len() > 1000), "large response");
    }
    Ok((answered, truncated))
}

fn c10_answers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let setup = Setup::gen(s, 3, 12);
    let regs = setup.regs.len();
    let (a, t) = c10_run(s, ctx, setup, 8, 1, 6)?;
    ctx.nontrivial = a + t > 0 && regs > 0;
    Ok(())
}

/// Set-ups whose answers are large.
fn gen_big_setup(s: &mut Src) -> Setup {
    let mut st = Setup { host: gen_host_label(s), addr: gen_ip(s), regs: vec![] };
    let svc = gen_svc_label(s);
    let tcp = s.bool();
    let long = s.chance(1, 2);
    let n = s.range(1, 60);
    for i in 0..n {
        let mut inst = gen_inst(s, if i % 8 == 0 { 8 } else { 0 });
        if s.chance(4, 5) {
            inst.svc = svc.clone();
            inst.tcp = tcp;
        }
        if long {
            let c = *s.pick(b"xyz");
            inst.inst = vec![c; *s.pick(&[63usize, 40, 60])];
            inst.inst[0] = b'a' + (i % 26) as u8;
        }
        if s.chance(1, 6) {
            st.regs.push(Reg::Host(st.host.clone(), gen_ip(s)));
        }
        st.regs.push(Reg::Inst(inst));
    }
    st
}

/// Advertisers with very many names.
fn c10_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut st = Setup { host: gen_host_label(s), addr: gen_ip(s), regs: vec![] };
    let n = *s.pick(&[200usize, 1_000, 3_000, 5_000]) + s.below(1_000) as usize;
    let v6 = s.bool();
    let x = s.u32();
    let ip = |i: usize| {
        let a = x.wrapping_mul(2_654_435_761).wrapping_add(i as u32);
        if v6 && i % 2 == 0 { IpAddr::V6(Ipv6Addr::from(0x2001_0db8u128 << 96 | a as u128)) } else { IpAddr::V4(Ipv4Addr::from(a)) }
    };
    for i in 0..n {
        st.regs.push(Reg::Host(format!("h{i}").into_bytes(), ip(i)));
    }
    let again = s.below(n as u64) as usize;
    for i in 0..s.below(40) as usize {
        st.regs.insert((again + i * 37) % st.regs.len(), Reg::Host(format!("h{again}").into_bytes(), ip(n + i)));
    }
    let mut k = 0;
    while s.more(k, 2, 8) {
        k += 1;
        let at = s.below(st.regs.len() as u64 + 1) as usize;
        let r = gen_reg(s);
        st.regs.insert(at, r);
    }
    ctx.note(|| format!("{n} names"));
    let (a, t) = c10_run(s, ctx, st, 8, 1, 6)?;
    ctx.nontrivial = a + t > 0;
    Ok(())
}

fn c10_truncated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let setup = gen_big_setup(s);
    let (_, t) = c10_run(s, ctx, setup, 5, 4, 40)?;
    ctx.nontrivial = t > 0 || ctx.classes.contains(&"large response");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C11

/// A packet that is not a proper query, or may not be.
pub fn gen_improper(s: &mut Src, records: &[(Name, RData)]) -> Vec<u8> {
    match s.weighted(&[2, 3, 3, 3, 2, 2, 1]) {
        0 => super::codec::gen_bytes(s, 600),
        1 => {
            let m = gen_query(s, records, 1, 4);
            let mut b = gen_encoded(s, &m).bytes;
            mutate(s, &mut b);
            b
        }
        2 => {
            // a response, otherwise like a query
            let mut m = gen_query(s, records, 1, 4);
            m.flags |= QR;
            gen_encoded(s, &m).bytes
        }
        3 => {
            let mut m = gen_query(s, records, 1, 4);
            let v = s.range(1, 15) as u16;
            m.flags |= if s.bool() { v << 11 } else { v };
            gen_encoded(s, &m).bytes
        }
        4 => {
            // shorter than a header
            let n = s.range(0, 11);
            s.bytes(n)
        }
        5 => {
            // counts that announce more than there is
            let m = gen_query(s, records, 1, 4);
            let mut b = gen_encoded(s, &m).bytes;
            let i = 4 + s.below(8) as usize;
            b[i] = b[i].wrapping_add(1 + s.below(255) as u8);
            b
        }
        _ => {
            // a large response, real or made up
            let m = gen_msg(s, true, 1);
            gen_encoded(s, &m).bytes
        }
    }
}

/// What a listening advertiser may get to see. Its id is not that of a query which marks an end.
pub fn gen_sent(s: &mut Src, records: &[(Name, RData)]) -> Vec<u8> {
    let mut b = match s.weighted(&[5, 5, 2]) {
        0 => gen_improper(s, records),
        1 => {
            let m = gen_query(s, records, 1, 4);
            gen_encoded(s, &m).bytes
        }
        _ => encode(&gen_long_query(s, records), Compress::Never).bytes,
    };
    if b.first() == Some(&MARK_ID) {
        b[0] = 0;
    }
    b
}

/// The high byte of the ids of queries that mark an end.
pub const MARK_ID: u8 = 0xbe;

/// Whether the header says: a standard query without error.
pub fn proper_header(b: &[u8]) -> bool {
    b.len() >= 12 && b[2] & 0xf8 == 0 && b[3] & 0x0f == 0
}

fn c11_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut setup = Setup::gen(s, 2, 8);
    let mut adv = setup.build();
    ctx.note(|| setup.show());
    crate::logcap::enable(s.bool());
    let mut k = 0;
    let mut improper = false;
    let mut sent: Vec<Vec<u8>> = Vec::new();
    let (avg, max) = if s.chance(1, 300) { (200, 700) } else { (5, 12) };
    ctx.class_if(max > 12, "long history");
    while k == 0 || s.more(k, avg, max) {
        k += 1;
        ctx.steps += 1;
        if s.chance(1, 6) {
            let r = gen_reg(s);
            register(&mut adv, &r);
            setup.regs.push(r);
            ctx.class("registration between packets");
        }
        let records = setup.records();
        let b = if !sent.is_empty() && s.chance(1, 5) {
            // an earlier packet again, or one much like it
            let mut b = s.pick(&sent).clone();
            if s.bool() && b.len() > 1 {
                let i = if s.bool() { s.below(2) as usize } else { s.below(b.len() as u64) as usize };
                b[i] ^= 1 << s.below(8);
            }
            ctx.class("repeated packet");
            b
        } else {
            gen_sent(s, &records)
        };
        sent.push(b.clone());
        let proper = proper_header(&b);
        let got = adv.handle_packet(&b).ok().flatten().map(|r| r.to_vec());
        ctx.note(|| format!("{} -> {}", hex(&b), got.as_deref().map_or("-".into(), hex)));
        if !proper {
            ensure!(got.is_none(), "answered a packet that is no query: {} with {}", hex(&b), hex(got.as_deref().unwrap_or_default()));
            improper = true;
        }
        let mut fresh = setup.build();
        let want = fresh.handle_packet(&b).ok().flatten().map(|r| r.to_vec());
        ensure!(got == want, "answer {:?} to {}, but a fresh advertiser answers {:?}", got.as_deref().map(hex), hex(&b), want.as_deref().map(hex));
        let r = if proper { ref_parse(&b) } else { None };
        match r {
            Some(r) if r.err.is_none() => {
                let w = check_response(got.as_deref(), r.id, &records, &r.q).map_err(|e| format!("packet {}: {e}", hex(&b)))?;
                ctx.class_if(w == "answered", "answered");
                ctx.nontrivial |= improper && w != "no match";
            }
            Some(r) => {
                ctx.class("damaged query");
                // Nothing but matching records may be given for the intact questions.
                if let (Some(g), true) = (&got, r.err.is_some_and(|(sec, _)| sec > 0)) {
                    ctx.class("damaged query answered");
                    check_response(Some(g), r.id, &records, &r.q).map_err(|e| format!("damaged packet {}: {e}", hex(&b)))?;
                }
                improper = true;
            }
            None => ctx.class("not a query"),
        }
    }
    Ok(())
}

fn c11_flood(s: &mut Src, ctx: &mut Ctx) -> Res {
    // n registrations of one name and k questions for it.
    let n = *s.pick(&[300usize, 64, 128, 256, 512, 1000]);
    let total = match s.below(4) {
        0 => 65536,
        1 => 65535 + s.range(0, 3),
        _ => s.range(60_000, 140_000),
    };
    let k = total / n;
    let host = gen_host_label(s);
    let v6 = s.bool();
    let mut st = Setup { host: host.clone(), addr: gen_ip(s), regs: vec![] };
    for i in 0..n - 1 {
        let i = i as u32;
        st.regs.push(Reg::Host(host.clone(), if v6 { IpAddr::V6(Ipv6Addr::from(0xfe80_0000_0000_0000_0000_0000_0000_0000u128 | i as u128)) } else { IpAddr::V4(Ipv4Addr::from(0x0a00_0000 | i)) }));
    }
    // Some more than needed for the exact total.
    let rest = total - k * n;
    let other: Label = b"other".to_vec();
    for _ in 0..rest.min(1) {
        st.regs.push(Reg::Host(other.clone(), gen_ip(s)));
    }
    let mut m = Msg { id: s.edgy16(), ..Default::default() };
    let name = vec![host, b"local".to_vec()];
    for _ in 0..k {
        m.q.push(Q { name: name.clone(), qtype: 255, qclass: 255, qu: false });
    }
    for _ in 0..rest {
        m.q.push(Q { name: vec![other.clone(), b"local".to_vec()], qtype: 255, qclass: 1, qu: false });
    }
    let b = encode(&m, Compress::Max).bytes;
    ctx.note(|| format!("{n} addresses for {}, {} questions in {} bytes, {total} matches", show_name(&name), m.q.len(), b.len()));
    ctx.nontrivial = total >= 65536;
    ctx.class_if(b.len() <= MDNS_BUFFER_SIZE, "fits one mDNS packet");
    let mut adv = st.build();
    let got = adv.handle_packet(&b).map_err(|e| format!("error {e:?}"))?.map(|r| r.to_vec());
    let got = got.ok_or("no response")?;
    // All questions are alike: compare with the records of one question of each kind.
    let mut qs: Vec<Q> = vec![m.q[0].clone()];
    if rest > 0 {
        qs.push(m.q[k].clone());
    }
    let r = ref_parse(&got).ok_or("no header")?;
    ensure!(r.id == m.id && r.flags & (QR | AA) == QR | AA, "header {}", hex(&got[..12]));
    ensure!(r.flags & TC != 0, "a response to {total} matches without the truncation flag");
    ensure!(got.len() <= MDNS_MAX && got.len() + 40 > MDNS_MAX - 100, "response of {} bytes", got.len());
    let records = st.records();
    let e = expected(&records, &qs);
    ensure!(r.rr[0].len() > 10, "only {} answers in the response", r.rr[0].len());
    for rr in r.rr[0].iter().filter(|rr| rr.end < got.len()) {
        let ok = match ref_typed(&got, rr) {
            RefTyped::Value(d, false) => e.must.iter().any(|x| x.0 == rr.name && x.1 == d),
            _ => false,
        };
        ensure!(ok && rr.class == 1 && rr.ttl != 0, "answer {} type {} class {} ttl {} data {}", show_name(&rr.name), rr.rtype, rr.class, rr.ttl, hex(&rr.raw));
    }
    // Still in order.
    let q = Msg { id: 7, q: vec![m.q[0].clone()], ..Default::default() };
    let b = encode(&q, Compress::Never).bytes;
    let again = adv.handle_packet(&b).map_err(|e| format!("error {e:?} afterwards"))?;
    check_response(again, 7, &records, &q.q).map_err(|e| format!("afterwards: {e}"))?;
    Ok(())
}

/// Memory does not grow with the number of packets.
fn c11_memory(s: &mut Src, ctx: &mut Ctx) -> Res {
    const N: usize = 8_000;
    // What a finite cache or a buffer may still take after the first quarter.
    const SLACK: isize = 64 << 10;
    let setup = Setup::gen(s, 2, 8);
    let records = setup.records();
    let n = s.range(3, 24);
    let base: Vec<Msg> = (0..n)
        .map(|_| {
            let mut m = gen_query(s, &records, 1, 4);
            if s.chance(1, 8) {
                m.flags |= QR;
            }
            m
        })
        .collect();
    let junk = s.below(4) as usize;
    ctx.note(|| format!("{} {:?}", setup.show(), base.iter().map(show_msg).collect::<Vec<_>>()));
    let mut adv = setup.build();
    let mut quarter = 0;
    for i in 0..N {
        let mut m = base[i % n].clone();
        m.id = (i * 7) as u16;
        let own: Label = format!("host-{i}").into_bytes();
        match i / n % 4 {
            0 => {}
            // a question of its own behind the others
            1 => m.q.push(Q { name: vec![own, b"local".to_vec()], qtype: 255, qclass: 1, qu: false }),
            // a record of its own in the authority section
            2 => m.rr[1].push(RR { name: vec![own], class: 1, flush: false, ttl: i as u32, data: RData::A((i as u32).to_be_bytes()) }),
            _ => m.q.insert(0, Q { name: vec![own, b"_tcp".to_vec(), b"local".to_vec()], qtype: 12, qclass: 1, qu: true }),
        }
        let mut b = encode(&m, if i % 3 == 0 { Compress::Max } else { Compress::Never }).bytes;
        if junk > 0 && i % (junk * 5) == 1 {
            b.truncate(12 + i % 20);
        }
        let resp = adv.handle_packet(&b).ok().flatten();
        if i % 1000 == 999 && m.flags & QR == 0 && b.len() > 40 {
            if let Some(r) = ref_parse(&b).filter(|r| r.err.is_none()) {
                let w = check_response(resp, m.id, &records, &r.q).map_err(|e| format!("packet {i}: {}: {e}", hex(&b)))?;
                ctx.nontrivial |= w != "no match";
                ctx.class(w);
            }
        }
        drop((m, b));
        if i == N / 4 {
            quarter = live_bytes();
        }
    }
    let grown = live_bytes() - quarter;
    ctx.steps += N as u64;
    ensure!(grown < SLACK, "{} packets handled, and the advertiser holds {grown} bytes more than after {}", N, N / 4);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C13

fn value(v: TxtRecordValue<'_>) -> Option<Vec<u8>> {
    match v {
        TxtRecordValue::NoValue => None,
        TxtRecordValue::Value(v) => Some(v.to_vec()),
    }
}

pub fn txt_view(t: &TxtRecords) -> Txt {
    let mut v: Txt = t.iter().map(|(k, v)| (k.to_string(), value(v))).collect();
    v.sort();
    v
}

pub fn same_txt(t: &TxtRecords, want: &Txt) -> Res {
    let mut want = want.clone();
    want.sort();
    let got = txt_view(t);
    ensure!(got == want, "metadata is {got:?} instead of {want:?}");
    Ok(())
}

fn flip_case(s: &mut Src, k: &str) -> String {
    k.chars().map(|c| if c.is_ascii_alphabetic() && s.bool() { (c as u8 ^ 0x20) as char } else { c }).collect()
}

/// Everything that can be seen of `t` agrees with `want`.
fn check_txt(s: &mut Src, t: &TxtRecords, want: &Txt) -> Res {
    same_txt(t, want)?;
    ensure!(t.is_empty() == want.is_empty(), "is_empty() is {} for {want:?}", t.is_empty());
    for (k, v) in want {
        for key in [k.clone(), k.to_ascii_lowercase(), k.to_ascii_uppercase(), flip_case(s, k)] {
            match t.get(&key) {
                None => return Err(format!("get({key:?}) finds nothing in {want:?}")),
                Some(g) => {
                    let g = value(g);
                    ensure!(&g == v, "get({key:?}) is {g:?} instead of {v:?}");
                }
            }
        }
    }
    for key in ["", "a", "key", "k", "é", "É", "=", "path=", "x y", "K-1"] {
        if !want.iter().any(|(k, _)| k.eq_ignore_ascii_case(key)) {
            if let Some(g) = t.get(key) {
                return Err(format!("get({key:?}) is {:?} although there is no such key", value(g)));
            }
        }
    }
    let text: Vec<String> = t
        .iter()
        .map(|(k, v)| match v {
            TxtRecordValue::NoValue => k.as_bytes().escape_ascii().to_string(),
            TxtRecordValue::Value(v) => format!("{}={}", k.as_bytes().escape_ascii(), v.escape_ascii()),
        })
        .collect();
    ensure!(t.to_string() == text.join(" "), "text form {:?} instead of {:?}", t.to_string(), text.join(" "));
    Ok(())
}

fn c13_entries(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if s.chance(1, 50) { 200 } else { 12 };
    let entries = gen_kv(s, true, max);
    let mut want = txt_model(&entries);
    ctx.note(|| format!("{:?}", entries.iter().map(|e| e.escape_ascii().to_string()).collect::<Vec<_>>()));
    ctx.class_if(want.is_empty(), "no key");
    ctx.class_if(want.iter().any(|(_, v)| v.is_none()), "flag");
    ctx.class_if(want.iter().any(|(_, v)| v.as_ref().is_some_and(|v| v.is_empty())), "empty value");
    ctx.class_if(want.len() < entries.len(), "ignored or repeated entry");
    ctx.nontrivial = want.len() < entries.len();
    let mut t = if !entries.is_empty() && s.bool() {
        TxtRecords::from_txt(&txt(&entries))
    } else {
        let list = if entries.is_empty() && s.bool() { vec![vec![]] } else { entries.clone() };
        let m = Msg { flags: QR, rr: [vec![RR { name: vec![b"x".to_vec()], class: 1, flush: false, ttl: 1, data: RData::Txt(list) }], vec![], vec![]], ..Default::default() };
        let b = encode(&m, Compress::Never).bytes;
        let mut dec = MessageDecoder::new(&b).unwrap().answers().unwrap();
        let rr = dec.next().ok_or("record missing")?.map_err(|e| format!("{e:?}"))?;
        match rr.as_enum() {
            Some(Ok(Record::TXT(x))) => TxtRecords::from_txt(&x),
            x => return Err(format!("TXT record decoded as {x:?}")),
        }
    };
    check_txt(s, &t, &want)?;
    let mut n = 0;
    while s.more(n, 1, 5) {
        n += 1;
        let key = if !want.is_empty() && s.bool() {
            let i = s.below(want.len() as u64) as usize;
            let k = want[i].0.clone();
            flip_case(s, &k)
        } else {
            gen_flag(s, &["a", "new", "NEW", "é", "zz top", "K", "É", "\u{0}", "tls", "_"])
        };
        if key.contains('=') {
            continue;
        }
        ctx.nontrivial = true;
        ctx.class("add_flag");
        ctx.note(|| format!("add_flag({key:?})"));
        t.add_flag(key.clone());
        let old = want.iter().find(|(k, _)| k.eq_ignore_ascii_case(&key)).map(|x| x.0.clone());
        add_flag_model(&mut want, &key);
        // The earlier spelling may have been kept.
        if let Some(old) = old {
            if t.iter().any(|(k, _)| k == old) {
                let i = want.iter().position(|(k, _)| *k == key).unwrap();
                want[i].0 = old;
            }
        }
        check_txt(s, &t, &want).map_err(|e| format!("after add_flag({key:?}): {e}"))?;
    }
    Ok(())
}

fn c13_advertised(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut i = gen_inst(s, 5);
    i.kv.truncate(5);
    let want = i.txt();
    let mut adv = Advertiser::new(ulabel(b"host"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    adv.add_instance(i.uw(), i.details());
    ctx.note(|| format!("{:?} {:?}", i.kv.iter().map(|e| e.escape_ascii().to_string()).collect::<Vec<_>>(), i.flags));
    ctx.nontrivial = !want.is_empty();
    ctx.class_if(want.is_empty(), "empty metadata");
    let q = Msg { id: 1, q: vec![Q { name: i.domain(), qtype: 16, qclass: 1, qu: false }], ..Default::default() };
    let b = encode(&q, Compress::Never).bytes;
    let resp = adv.handle_packet(&b).map_err(|e| format!("{e:?}"))?.ok_or("no answer to the TXT query")?.to_vec();
    if resp[2] & 2 != 0 {
        ctx.class("truncated");
        return Ok(());
    }
    let mut seen = None;
    let _ = discovery::decode_answer(&resp, &mut |r| {
        if let Record::TXT(t) = r {
            seen = Some(TxtRecords::from_txt(&t));
        }
        ControlFlow::Continue(())
    })
    .map_err(|e| format!("{e:?}"))?;
    let t = seen.ok_or("no TXT record in the answer")?;
    check_txt(s, &t, &want)
}

// ---------------------------------------------------------------------------------------------
// C14

fn gen_transport(s: &mut Src) -> Label {
    match s.weighted(&[6, 6, 3, 1, 1]) {
        0 => b"_tcp".to_vec(),
        1 => b"_udp".to_vec(),
        2 => s.pick(&[&b"_TCP"[..], b"_Udp", b"tcp", b"udp", b"_tcp ", b"_tc", b"_tcpx", b"_sctp", b"_", b"_ucp", b"_tdp", b"_tcp\0", b"__tcp", b"_udp."]).to_vec(),
        3 => gen_label(s),
        _ => {
            let mut l = if s.bool() { b"_tcp".to_vec() } else { b"_udp".to_vec() };
            let i = s.below(4) as usize;
            l[i] ^= 1 << s.below(8);
            l
        }
    }
}

fn gen_target(s: &mut Src) -> Name {
    if s.chance(1, 40) {
        // a long domain part
        let mut n = vec![gen_svc_label(s), b"_tcp".to_vec()];
        n[0].truncate(20);
        let k = s.range(8, 110);
        n.extend((0..k).map(|i| vec![b'a' + (i % 26) as u8]));
        return n;
    }
    let instance = s.bool();
    let mut n: Name = Vec::new();
    if instance {
        n.push(match s.weighted(&[3, 2, 1]) {
            0 => gen_label(s),
            1 => gen_svc_label(s),
            _ => gen_transport(s),
        });
        if s.chance(1, 12) {
            // a subtype, or a dotted instance name
            n.push(b"_sub".to_vec());
        }
    }
    n.push(match s.weighted(&[6, 2, 1, 1]) {
        0 => gen_svc_label(s),
        1 => gen_label(s),
        2 => b"http".to_vec(),
        _ => gen_transport(s),
    });
    n.push(gen_transport(s));
    while s.more(n.len(), 2, 7) {
        n.push(if s.bool() { b"local".to_vec() } else { gen_label(s) });
    }
    match s.weighted(&[8, 2, 1]) {
        0 => {}
        1 => {
            let k = s.below(n.len() as u64 + 1) as usize;
            n.truncate(k);
        }
        _ => {
            let k = s.below(n.len() as u64) as usize;
            n.remove(k);
        }
    }
    while n.iter().map(|l| l.len() + 1).sum::<usize>() + 1 > 255 {
        n.pop();
    }
    n
}

pub fn transport_of(l: &[u8]) -> Option<ServiceTransport> {
    match l {
        b"_tcp" => Some(ServiceTransport::TCP),
        b"_udp" => Some(ServiceTransport::Other),
        _ => None,
    }
}

/// (service name, transport) of a service type target.
pub fn model_service(n: &Name) -> Option<(Label, ServiceTransport)> {
    if n.len() < 3 || n[0][0] != b'_' {
        return None;
    }
    Some((n[0].clone(), transport_of(&n[1])?))
}

pub fn model_instance(n: &Name) -> Option<(Label, Label, ServiceTransport)> {
    if n.len() < 4 {
        return None;
    }
    let (s, t) = model_service(&n[1..].to_vec())?;
    Some((n[0].clone(), s, t))
}

/// A PTR record for the target, made directly or decoded from a message.
fn with_ptr<T>(s: &mut Src, n: &Name, f: impl FnOnce(PTR<'_>) -> T) -> Result<T, String> {
    if s.bool() {
        return Ok(f(PTR::new(uname(n))));
    }
    let m = Msg { flags: QR, q: vec![Q { name: n.clone(), qtype: 12, qclass: 1, qu: false }], rr: [vec![RR { name: vec![b"x".to_vec()], class: 1, flush: false, ttl: 1, data: RData::Ptr(n.clone()) }], vec![], vec![]], ..Default::default() };
    let b = gen_encoded(s, &m).bytes;
    let mut dec = MessageDecoder::new(&b).unwrap().answers().map_err(|e| format!("{e:?}"))?;
    let rr = dec.next().ok_or("record missing")?.map_err(|e| format!("{e:?}"))?;
    match rr.as_enum() {
        Some(Ok(Record::PTR(p))) => Ok(f(p)),
        x => Err(format!("PTR record decoded as {x:?}")),
    }
}

fn text_of(parts: &[&[u8]]) -> String {
    parts.iter().map(|p| p.escape_ascii().to_string()).collect::<Vec<_>>().join(".")
}

fn tlabel(t: ServiceTransport) -> &'static [u8] {
    match t {
        ServiceTransport::TCP => b"_tcp",
        ServiceTransport::Other => b"_udp",
    }
}

fn c14_ptr(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = gen_target(s);
    ctx.note(|| show_name(&n));
    ctx.nontrivial = n.len() >= 3;
    let sv = with_ptr(s, &n, Service::from_ptr)?;
    match (sv, model_service(&n)) {
        (Err(_), None) => ctx.class("no service"),
        (Ok(v), Some((name, t))) => {
            ctx.class("service");
            ensure!(v.name().as_bytes() == name && v.transport() == t, "service {v} read from {}", show_name(&n));
            ensure!(v.to_string() == text_of(&[&name, tlabel(t)]), "service of {} is written {v}", show_name(&n));
            let mut back = vec![v.name().as_bytes().to_vec(), v.transport().to_label().as_bytes().to_vec()];
            back.extend_from_slice(&n[2..]);
            ensure!(back == n, "{} rebuilt from {}", show_name(&back), show_name(&n));
            ensure!(v == Service::new(ulabel(&name), t), "the service differs from the constructed one");
        }
        (Ok(v), None) => return Err(format!("{} is taken for the service {v}", show_name(&n))),
        (Err(e), Some(_)) => return Err(format!("{} is rejected as a service: {e:?}", show_name(&n))),
    }
    let iv = with_ptr(s, &n, ServiceInstance::from_ptr)?;
    match (iv, model_instance(&n)) {
        (Err(_), None) => ctx.class("no instance"),
        (Ok(v), Some((inst, name, t))) => {
            ctx.class("instance");
            ensure!(v.instance_name().as_bytes() == inst && v.service_name().as_bytes() == name && v.service_transport() == t, "instance {v} read from {}", show_name(&n));
            ensure!(v.service().name().as_bytes() == name && v.service().transport() == t, "service {} in instance {v}", v.service());
            ensure!(v.to_string() == text_of(&[&inst, &name, tlabel(t)]), "instance of {} is written {v}", show_name(&n));
            let mut back = vec![v.instance_name().as_bytes().to_vec(), v.service_name().as_bytes().to_vec(), v.service_transport().to_label().as_bytes().to_vec()];
            back.extend_from_slice(&n[3..]);
            ensure!(back == n, "{} rebuilt from {}", show_name(&back), show_name(&n));
            ensure!(v == ServiceInstance::new(ulabel(&inst), ulabel(&name), t), "the instance differs from the constructed one");
        }
        (Ok(v), None) => return Err(format!("{} is taken for the instance {v}", show_name(&n))),
        (Err(e), Some(_)) => return Err(format!("{} is rejected as an instance: {e:?}", show_name(&n))),
    }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn c14_parts(s: &mut Src, ctx: &mut Ctx) -> Res {
    type P = (Label, Label, bool);
    let mut ps: Vec<P> = Vec::new();
    for i in 0..3 {
        let mut p: P = (gen_label(s), gen_svc_label(s), s.bool());
        if i > 0 {
            let o = ps[i - 1].clone();
            if s.chance(2, 3) {
                p.0 = o.0;
            }
            if s.chance(2, 3) {
                p.1 = o.1;
            }
            if s.chance(1, 6) {
                // the same letters, another case
                p.0.iter_mut().chain(p.1.iter_mut()).for_each(|b| {
                    if b.is_ascii_alphabetic() {
                        *b ^= 0x20
                    }
                });
            }
        }
        ps.push(p);
    }
    ctx.note(|| format!("{:?}", ps.iter().map(|p| format!("{}.{}.{}", p.0.escape_ascii(), p.1.escape_ascii(), p.2)).collect::<Vec<_>>()));
    ctx.nontrivial = ps[0] != ps[1] && (ps[0].0 == ps[1].0 || ps[0].1 == ps[1].1);
    let tr = |t: bool| if t { ServiceTransport::TCP } else { ServiceTransport::Other };
    let mut iv = Vec::new();
    let mut sv = Vec::new();
    for p in &ps {
        let svc = Service::new(ulabel(&p.1), tr(p.2));
        ensure!(svc.name().as_bytes() == p.1 && svc.transport() == tr(p.2), "Service::new changed its parts: {svc}");
        let i = if s.bool() { ServiceInstance::new(ulabel(&p.0), ulabel(&p.1), tr(p.2)) } else { ServiceInstance::from_service(ulabel(&p.0), svc.clone()) };
        ensure!(i.instance_name().as_bytes() == p.0 && i.service_name().as_bytes() == p.1 && i.service_transport() == tr(p.2) && *i.service() == svc, "ServiceInstance changed its parts: {i}");
        ensure!(svc.to_string() == text_of(&[&p.1, tlabel(tr(p.2))]), "written {svc}");
        ensure!(i.to_string() == text_of(&[&p.0, &p.1, tlabel(tr(p.2))]), "written {i}");
        iv.push(i);
        sv.push(svc);
    }
    for a in 0..3 {
        for b in 0..3 {
            let same_s = ps[a].1 == ps[b].1 && ps[a].2 == ps[b].2;
            let same_i = same_s && ps[a].0 == ps[b].0;
            ensure!((sv[a] == sv[b]) == same_s, "{} == {} is {}", sv[a], sv[b], sv[a] == sv[b]);
            ensure!((iv[a] == iv[b]) == same_i, "{} == {} is {}", iv[a], iv[b], iv[a] == iv[b]);
            ensure!(sv[a].cmp(&sv[b]).is_eq() == same_s && iv[a].cmp(&iv[b]).is_eq() == same_i, "order of {} and {} disagrees with equality", iv[a], iv[b]);
            ensure!(sv[a].cmp(&sv[b]) == sv[b].cmp(&sv[a]).reverse() && iv[a].cmp(&iv[b]) == iv[b].cmp(&iv[a]).reverse(), "order of {} and {} is not antisymmetric", iv[a], iv[b]);
            ensure!(!same_s || hash(&sv[a]) == hash(&sv[b]), "hash of {}", sv[a]);
            ensure!(!same_i || hash(&iv[a]) == hash(&iv[b]), "hash of {}", iv[a]);
            for c in 0..3 {
                ensure!(!(iv[a] <= iv[b] && iv[b] <= iv[c]) || iv[a] <= iv[c], "order of {}, {}, {} is not transitive", iv[a], iv[b], iv[c]);
            }
        }
    }
    // The underscore rule.
    let l = gen_label(s);
    let ok = l[0] == b'_';
    let t = tr(s.bool());
    let r = no_panic(|| Service::new(ulabel(&l), t)).is_ok();
    ensure!(r == ok, "Service::new({:?}) {}", l.escape_ascii().to_string(), if r { "accepted" } else { "refused" });
    let r = no_panic(|| ServiceInstance::new(ulabel(b"i"), ulabel(&l), t)).is_ok();
    ensure!(r == ok, "ServiceInstance::new(_, {:?}) {}", l.escape_ascii().to_string(), if r { "accepted" } else { "refused" });
    ctx.class(if ok { "underscore" } else { "no underscore" });
    // Transports.
    let l = gen_transport(s);
    if let Ok(x) = std::str::from_utf8(&l) {
        let got = x.parse::<ServiceTransport>().ok();
        ensure!(got == transport_of(&l), "transport {x:?} parsed as {got:?}");
    }
    for t in [ServiceTransport::TCP, ServiceTransport::Other] {
        ensure!(t.to_label().as_bytes() == tlabel(t), "label of {t:?}");
    }
    // Details.
    let mut pool = Vec::new();
    let host = gen_name(s, &mut pool);
    let port = s.edgy16();
    let d = InstanceDetails::new(uname(&host), port);
    ensure!(mname(d.host()) == host && d.port() == port && d.txt_records().is_empty(), "InstanceDetails::new changed its parts");
    let d = InstanceDetails::from_srv(&SRV::new(s.edgy16(), s.edgy16(), port, uname(&host))).map_err(|e| format!("from_srv: {e:?}"))?;
    ensure!(mname(d.host()) == host && d.port() == port && d.txt_records().is_empty(), "InstanceDetails::from_srv gives host {} port {}", d.host(), d.port());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C15

fn check_query(b: &[u8], want: &[(Name, u16)], rd: Option<bool>) -> Result<u16, String> {
    let r = ref_parse(b).ok_or("the query has no complete header")?;
    if let Some(e) = r.err {
        return Err(format!("malformed query {}: {e:?}", hex(b)));
    }
    ensure!(r.end == b.len(), "{} stray bytes in the query", b.len() - r.end);
    ensure!(r.flags & !RD == 0, "query flags {:#06x}", r.flags);
    if let Some(rd) = rd {
        ensure!((r.flags & RD != 0) == rd, "query flags {:#06x}: recursion desired should be {rd}", r.flags);
    }
    let got: Vec<(Name, u16)> = r.q.iter().map(|q| (q.name.clone(), q.qtype)).collect();
    ensure!(got == want, "the query asks {:?}", r.q.iter().map(show_q).collect::<Vec<_>>());
    ensure!(r.q.iter().all(|q| q.qclass == 1), "question class: {:?}", r.q.iter().map(show_q).collect::<Vec<_>>());
    ensure!(r.rr.iter().all(|x| x.is_empty()), "the query carries records");
    Ok(r.id)
}

pub fn check_resolver_query(b: &[u8], name: &Name) -> Result<u16, String> {
    // In either order.
    let a = check_query(b, &[(name.clone(), 1), (name.clone(), 28)], Some(true));
    match a {
        Ok(id) => Ok(id),
        Err(e) => check_query(b, &[(name.clone(), 28), (name.clone(), 1)], Some(true)).map_err(|_| e),
    }
}

pub fn check_discovery_query(b: &[u8], name: &Name, types: &[u16]) -> Result<u16, String> {
    let w: Vec<(Name, u16)> = types.iter().map(|t| (name.clone(), *t)).collect();
    check_query(b, &w, None)
}

fn c15_queries(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let n = gen_name(s, &mut pool);
    ctx.note(|| show_name(&n));
    ctx.nontrivial = n.len() > 1;
    let d = uname(&n);
    let fill = s.u8();
    let mut buf = vec![fill; MDNS_BUFFER_SIZE];
    let q = resolver::encode_query(&mut buf, &d);
    check_resolver_query(q, &n).map_err(|e| format!("resolver query for {}: {e}", show_name(&n)))?;
    let mut types = Vec::new();
    while s.more(types.len(), 2, 5) {
        types.push(gen_qtype(s));
    }
    let tys: Vec<QType> = types.iter().map(|t| qtype(*t)).collect();
    let mut buf = vec![fill; MDNS_BUFFER_SIZE];
    let q = discovery::encode_query(&mut buf, &d, &tys);
    check_discovery_query(q, &n, &types).map_err(|e| format!("discovery query for {} {types:?}: {e}", show_name(&n)))?;
    Ok(())
}

/// An answer record; address records more often than others.
pub fn gen_answer(s: &mut Src, pool: &mut Vec<Name>) -> RR {
    let mut rr = gen_rr(s, pool, true, 0);
    match s.weighted(&[4, 2, 3]) {
        0 => rr.data = RData::A(gen_addr4(s)),
        1 => rr.data = RData::Aaaa(gen_addr6(s)),
        _ => {}
    }
    if s.chance(1, 8) {
        // data that does not fit its type
        let t = *s.pick(&SUPPORTED);
        let n = *s.pick(&[0usize, 1, 3, 5, 15, 17, 2]);
        rr.data = RData::Raw(t, s.bytes(n));
    }
    if s.chance(7, 8) {
        rr.class = 1;
    }
    rr
}

/// An id that is not `id`, often one that might be mistaken for it.
pub fn foreign_id(s: &mut Src, id: u16) -> u16 {
    let x = match s.below(10) {
        0 | 1 => id ^ (1 << s.below(16)),
        2 => id.wrapping_add(1 + s.below(65534) as u16),
        3 => 0,
        4 => 0xffff,
        5 => id.swap_bytes(),
        6 => !id,
        7 => id.wrapping_add(1),
        8 => id.wrapping_sub(1),
        _ => *s.pick(&[id & 0xff, id & 0xff00, 1, 0x8000, id << 1, id >> 1, id | 0x8000, id & 0x7fff]),
    };
    if x == id {
        id ^ 1
    } else {
        x
    }
}

/// A response; mostly well-formed.
pub fn gen_response(s: &mut Src, id: u16, bad_data: bool) -> Msg {
    let mut pool = Vec::new();
    let mut m = Msg { id, flags: QR, ..Default::default() };
    match s.weighted(&[6, 2, 2, 1]) {
        0 => {}
        1 => m.flags |= s.u16() & 0x07f0,
        2 => m.flags |= s.u16() & 0x7fff,
        _ => m.flags = s.u16() & 0x7fff,
    }
    match s.weighted(&[8, 1, 1]) {
        0 => {}
        1 => m.id = s.u16(),
        _ => m.id = foreign_id(s, id),
    }
    while s.more(m.q.len(), 1, 3) {
        m.q.push(gen_q(s, &mut pool));
    }
    for k in 0..3 {
        while s.more(m.rr[k].len(), if k == 0 { 3 } else { 1 }, 8) {
            let mut r = gen_answer(s, &mut pool);
            if !bad_data {
                if let RData::Raw(t, _) = &r.data {
                    if SUPPORTED.contains(t) {
                        r.data = RData::A([1, 2, 3, 4]);
                    }
                }
            }
            m.rr[k].push(r);
        }
    }
    m
}

/// Now and then hundreds of small records more in the answer section.
fn gen_more(s: &mut Src, m: &mut Msg, ctx: &mut Ctx) {
    if !s.chance(1, 150) {
        return;
    }
    ctx.class("many records");
    let base = m.rr[0].first().map_or(vec![b"h".to_vec()], |r| r.name.clone());
    let k = *s.pick(&[300usize, 1200, 70, 140, 600, 30]);
    let at = s.below(m.rr[0].len() as u64 + 1) as usize;
    let mut more: Vec<RR> = Vec::with_capacity(k);
    let kinds = s.below(3);
    for i in 0..k {
        let i = i as u16;
        let [h, l] = i.to_be_bytes();
        let data = match (kinds, i % 4) {
            (0, _) | (1, 0) => RData::A([10, 1, h, l]),
            (1, 1) => RData::Aaaa([0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, h, l]),
            (1, _) => RData::Srv(i, 0, i, vec![vec![b'a' + (i % 26) as u8]]),
            _ => RData::Ptr(vec![format!("i{i}").into_bytes(), b"_s".to_vec(), b"_tcp".to_vec()]),
        };
        more.push(RR { name: base.clone(), class: 1, flush: false, ttl: 60, data });
    }
    m.rr[0].splice(at..at, more);
}

/// What decoding the answers for addresses may give.
pub enum Addresses {
    /// Must report an error.
    Error,
    /// May report an error or these addresses.
    Either(Vec<IpAddr>, Vec<bool>),
    /// These addresses; the flags mark those that may be left out.
    Addrs(Vec<IpAddr>, Vec<bool>),
}

pub fn model_addresses(b: &[u8], id: u16) -> Addresses {
    let Some(r) = ref_parse(b) else { return Addresses::Error };
    if r.flags & QR == 0 || r.id != id {
        return match r.err {
            // Whether the rest is read at all is left open.
            _ => Addresses::Either(vec![], vec![]),
        };
    }
    if r.err.is_some_and(|(sec, _)| sec <= 1) {
        return Addresses::Error;
    }
    let mut v = Vec::new();
    let mut opt = Vec::new();
    let mut left = false;
    for rr in &r.rr[0] {
        match ref_typed(b, rr) {
            RefTyped::Bad(_) => return Addresses::Error,
            RefTyped::Value(d, rest) => {
                left |= rest;
                match d {
                    RData::A(a) => v.push(IpAddr::V4(a.into())),
                    RData::Aaaa(a) => v.push(IpAddr::V6(a.into())),
                    _ => continue,
                }
                opt.push(rr.class != 1 || r.flags & 0xf != 0 || r.flags & 0x7800 != 0);
            }
            RefTyped::Unsupported => {}
        }
    }
    if left || r.err.is_some() || r.end != b.len() {
        Addresses::Either(v, opt)
    } else {
        Addresses::Addrs(v, opt)
    }
}

/// Whether `got` is `v`, possibly without some optional entries.
pub fn is_selection(got: &[IpAddr], v: &[IpAddr], opt: &[bool]) -> bool {
    // at[k]: the entries of `v` so far can give the first k of `got`
    let mut at = vec![false; got.len() + 1];
    at[0] = true;
    for (x, o) in v.iter().zip(opt) {
        for k in (0..=got.len()).rev() {
            at[k] = (at[k] && *o) || (k > 0 && at[k - 1] && got[k - 1] == *x);
        }
    }
    at[got.len()]
}

fn c15_resolver(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let n = gen_name(s, &mut pool);
    let mut qbuf = vec![0; MDNS_BUFFER_SIZE];
    let q = resolver::encode_query(&mut qbuf, &uname(&n));
    let id = (q[0] as u16) << 8 | q[1] as u16;
    let mut m = gen_response(s, id, true);
    gen_more(s, &mut m, ctx);
    let mut b = gen_encoded(s, &m).bytes;
    match s.weighted(&[6, 2, 1, 1]) {
        0 => {}
        1 => {
            mutate(s, &mut b);
            ctx.class("mutated");
        }
        2 => {
            let l = s.below(b.len() as u64 + 1) as usize;
            b.truncate(l);
            ctx.class("cut");
        }
        _ => {
            let l = s.range(1, 9);
            b.extend(s.bytes(l));
            ctx.class("junk behind");
        }
    }
    let mut before: Vec<IpAddr> = Vec::new();
    while s.chance(1, 4) && before.len() < 3 {
        before.push(gen_ip(s));
    }
    let mut got = before.clone();
    crate::logcap::enable(s.chance(1, 8));
    let res = resolver::decode_answer(&b, &mut got);
    ctx.note(|| format!("{} -> {res:?} {got:?}", hex(&b)));
    if res.is_ok() {
        ensure!(got.starts_with(&before), "addresses found earlier were changed: {got:?} after {before:?}");
    }
    let new = if got.starts_with(&before) { &got[before.len()..] } else { &[] };
    match (model_addresses(&b, id), res) {
        (Addresses::Error, Err(_)) => {
            ctx.nontrivial = b.len() > 12;
            ctx.class("error");
        }
        (Addresses::Either(..), Err(_)) => ctx.class("error (optional)"),
        (Addresses::Addrs(v, o) | Addresses::Either(v, o), Ok(())) => {
            ctx.class(if v.is_empty() { "no address" } else { "addresses" });
            ctx.nontrivial = !v.is_empty();
            ensure!(is_selection(new, &v, &o), "addresses {new:?} read from a response with {v:?}: {}", hex(&b));
        }
        (Addresses::Error, Ok(())) => return Err(format!("no error for the malformed response {}", hex(&b))),
        (Addresses::Addrs(..), Err(e)) => return Err(format!("error {e:?} for the well-formed response {}", hex(&b))),
    }
    Ok(())
}

/// The records of the answer section that must be handed over, in order; the flag marks those that
/// may be left out (data longer than its value).
pub fn model_handed(b: &[u8]) -> Vec<(RData, bool)> {
    let Some(r) = ref_parse(b) else { return vec![] };
    if r.flags & QR == 0 || r.err.is_some_and(|(sec, _)| sec == 0) {
        return vec![];
    }
    let mut v = Vec::new();
    for rr in &r.rr[0] {
        if let RefTyped::Value(d, rest) = ref_typed(b, rr) {
            v.push((d, rest));
        }
    }
    v
}

fn c15_discoverer(s: &mut Src, ctx: &mut Ctx) -> Res {
    let id = s.u16();
    let mut m = gen_response(s, id, true);
    gen_more(s, &mut m, ctx);
    let mut b = gen_encoded(s, &m).bytes;
    if s.chance(1, 3) {
        mutate(s, &mut b);
        ctx.class("mutated");
    }
    let stop = if s.chance(1, 3) { Some(s.below(5) as usize) } else { None };
    let mut got: Vec<RData> = Vec::new();
    let mut bad = None;
    let mut after = false;
    let mut stopped = false;
    crate::logcap::enable(s.chance(1, 8));
    let res = discovery::decode_answer(&b, &mut |r| {
        after |= stopped;
        match model(&r) {
            Ok(d) => got.push(d),
            Err(e) => bad = Some(e),
        }
        if stop == Some(got.len() - 1) {
            stopped = true;
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    });
    ctx.note(|| format!("{} stop at {stop:?} -> {res:?} {}", hex(&b), got.iter().map(show_rdata).collect::<Vec<_>>().join(", ")));
    if let Some(e) = bad {
        return Err(e);
    }
    ensure!(!after, "the callback was called again after it asked to stop");
    ensure!(stopped == matches!(res, Ok(ControlFlow::Break(()))), "decode_answer returns {res:?}, callback stopped: {stopped}");
    let want = model_handed(&b);
    ctx.nontrivial = want.len() > 1;
    ctx.class_if(stopped, "stopped");
    ctx.class_if(want.is_empty(), "nothing");
    // In order; optional ones may be missing; all up to the stop.
    let mut i = 0;
    for g in &got {
        loop {
            match want.get(i) {
                Some((d, _)) if d == g => {
                    i += 1;
                    break;
                }
                Some((_, true)) => i += 1,
                x => return Err(format!("{} handed over instead of {x:?} from {}", show_rdata(g), hex(&b))),
            }
        }
    }
    if !stopped {
        ensure!(want[i..].iter().all(|x| x.1), "{:?} not handed over from {}", want[i..].iter().map(|x| show_rdata(&x.0)).collect::<Vec<_>>(), hex(&b));
    }
    match ref_parse(&b) {
        None => ensure!(res.is_err(), "no error for a message without header"),
        Some(r) if r.err.is_none() => ensure!(res.is_ok(), "error {res:?} for the well-formed message {}", hex(&b)),
        _ => {}
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22

/// Labels that try to break out of a line.
pub fn hostile_label(s: &mut Src) -> Label {
    match s.weighted(&[3, 3, 2]) {
        0 => gen_label(s),
        1 => {
            let n = s.range(1, 12);
            (0..n).map(|_| *s.pick(&[b'\n', b'\r', 0x1b, b'\t', 0, 0x7f, 0x80, 0x9b, 0xc2, 0xe2, 0xff, b'\\', b'"', b'\'', b'.', b' ', b'a', b'[', 0x08])).collect()
        }
        _ => s.pick(&["\u{202e}abc", "\u{85}", "\u{2028}x", "\u{1b}[31m", "a\nQ: b", "é", "\u{feff}"]).as_bytes().to_vec(),
    }
}

pub fn hostile_name(s: &mut Src) -> Name {
    let n = s.below(5) as usize;
    (0..n).map(|_| hostile_label(s)).collect()
}

fn odd_data(d: &RData) -> bool {
    let n = |n: &Name| n.iter().any(|l| unprintable(l));
    match d {
        RData::Cname(x) | RData::Ns(x) | RData::Ptr(x) | RData::Mx(_, x) | RData::Srv(_, _, _, x) => n(x),
        RData::Soa(a, b, _) => n(a) || n(b),
        RData::Txt(v) => v.iter().any(|e| unprintable(e)),
        _ => false,
    }
}

fn c22_entries(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool: Vec<Name> = (0..3).map(|_| hostile_name(s)).collect();
    let mut m = Msg { id: 1, flags: gen_flags(s), ..Default::default() };
    while s.more(m.q.len(), 1, 3) {
        let mut q = gen_q(s, &mut pool);
        if s.bool() {
            q.name = hostile_name(s);
        }
        m.q.push(q);
    }
    for k in 0..3 {
        while s.more(m.rr[k].len(), 2, 4) {
            let mut r = gen_rr(s, &mut pool, true, 0);
            if s.bool() {
                r.name = hostile_name(s);
            }
            match s.weighted(&[4, 2, 2]) {
                0 => {}
                1 => {
                    let a = hostile_name(s);
                    r.data = match s.below(6) {
                        0 => RData::Txt((0..s.range(0, 4)).map(|_| hostile_label(s)).collect()),
                        1 => RData::Srv(s.u16(), s.u16(), s.u16(), a),
                        2 => RData::Mx(s.u16(), a),
                        3 => RData::Soa(a.clone(), hostile_name(s), [s.u32(), s.u32(), s.u32(), s.u32(), s.u32()]),
                        4 => RData::Cname(a),
                        _ => RData::Ptr(a),
                    };
                }
                _ => {
                    let t = if s.bool() { *s.pick(&SUPPORTED) } else { gen_unsupported_type(s) };
                    let n = s.range(0, 24);
                    r.data = RData::Raw(t, s.bytes(n));
                }
            }
            m.rr[k].push(r);
        }
    }
    let b = gen_encoded(s, &m).bytes;
    ctx.note(|| hex(&b));
    let r = ref_parse(&b).ok_or("header")?;
    ensure!(r.err.is_none(), "HARNESS: malformed");
    let mut dec: MessageDecoder<'_, SQ> = MessageDecoder::new(&b).map_err(|e| format!("{e:?}"))?;
    let mut qs: Vec<DQ> = Vec::new();
    while let Some(q) = dec.next() {
        qs.push(q.map_err(|e| format!("{e:?}"))?);
    }
    ensure!(qs.len() == r.q.len(), "{} questions", qs.len());
    for (q, w) in qs.iter().zip(&r.q) {
        ctx.steps += 1;
        ctx.nontrivial |= w.name.iter().any(|l| unprintable(l));
        check_q_text(&q.to_string(), w)?;
        no_controls(&format!("{q:?}"))?;
        ensure!(q.qname().to_string() == name_text(&w.name), "name {} is written {}", show_name(&w.name), q.qname());
    }
    macro_rules! sec {
        ($dec:ident, $k:expr) => {
            let mut i = 0;
            while let Some(x) = $dec.next() {
                let x = x.map_err(|e| format!("{e:?}"))?;
                let w = r.rr[$k].get(i).ok_or("too many records")?;
                i += 1;
                ctx.steps += 1;
                let typed = ref_typed(&b, w);
                ctx.nontrivial |= w.name.iter().any(|l| unprintable(l));
                check_rr_text(&x.to_string(), w, &typed)?;
                no_controls(&format!("{x:?}"))?;
                match (&typed, x.as_enum()) {
                    (RefTyped::Value(d, false), Some(Ok(rec))) => {
                        ctx.nontrivial |= odd_data(d);
                        check_data_text(&rec.to_string(), d)?;
                        no_controls(&format!("{rec:?}"))?;
                        let inner = match &rec {
                            Record::A(x) => x.to_string(),
                            Record::AAAA(x) => x.to_string(),
                            Record::CNAME(x) => x.to_string(),
                            Record::MX(x) => x.to_string(),
                            Record::NS(x) => x.to_string(),
                            Record::PTR(x) => x.to_string(),
                            Record::TXT(x) => x.to_string(),
                            Record::SRV(x) => x.to_string(),
                            Record::SOA(x) => x.to_string(),
                            _ => continue,
                        };
                        check_data_text(&inner, d)?;
                    }
                    (_, Some(Err(e))) => {
                        ctx.class("malformed data");
                        inert(&e.to_string())?;
                    }
                    (RefTyped::Unsupported, _) => ctx.class("unsupported type"),
                    _ => {}
                }
            }
            ensure!(i == r.rr[$k].len(), "records missing");
        };
    }
    let mut dec = dec.answers().map_err(|e| format!("{e:?}"))?;
    sec!(dec, 0);
    let mut dec = dec.authority().map_err(|e| format!("{e:?}"))?;
    sec!(dec, 1);
    let mut dec = dec.additional().map_err(|e| format!("{e:?}"))?;
    sec!(dec, 2);
    Ok(())
}

/// Whether a debug text contains these labels, escaped, in order.
fn shows(t: &str, labels: &[Vec<u8>]) -> Res {
    let mut rest = t;
    for l in labels {
        let l = l.escape_ascii().to_string();
        match rest.find(&l) {
            Some(i) => rest = &rest[i + l.len()..],
            None => return Err(format!("{l:?} is missing in the debug text {t:?}")),
        }
    }
    Ok(())
}

fn c22_identifiers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let l = hostile_label(s);
    let n = hostile_name(s);
    let mut sv = hostile_label(s);
    sv.truncate(62);
    sv.insert(0, b'_');
    let t = if s.bool() { ServiceTransport::TCP } else { ServiceTransport::Other };
    ctx.note(|| format!("{} {} {}", l.escape_ascii(), show_name(&n), sv.escape_ascii()));
    ctx.nontrivial = unprintable(&l) || unprintable(&sv) || n.iter().any(|l| unprintable(l));
    let ul = ulabel(&l);
    ensure!(ul.to_string() == l.escape_ascii().to_string(), "label is written {ul}");
    no_controls(&format!("{ul:?}"))?;
    inert(&format!("{ul:?}"))?;
    let d: DomainName = uname(&n);
    ensure!(d.to_string() == name_text(&n), "name is written {d}");
    inert(&format!("{d:?}"))?;
    shows(&format!("{d:?}"), &n)?;
    shows(&format!("{ul:?}"), &[l.clone()])?;
    let svc = Service::new(ulabel(&sv), t);
    let i = ServiceInstance::from_service(ul, svc.clone());
    for (x, w) in [(svc.to_string(), text_of(&[&sv, tlabel(t)])), (i.to_string(), text_of(&[&l, &sv, tlabel(t)]))] {
        inert(&x)?;
        ensure!(x == w, "identifier is written {x:?} instead of {w:?}");
    }
    inert(&format!("{svc:?}"))?;
    inert(&format!("{i:?}"))?;
    shows(&format!("{svc:?}"), &[sv.clone()])?;
    shows(&format!("{i:?}"), &[l.clone(), sv.clone()])?;
    let mut kv = gen_kv(s, true, 6);
    for e in kv.iter_mut() {
        if s.chance(1, 3) {
            let mut x = hostile_label(s);
            x.retain(|b| *b != b'=');
            x.extend_from_slice(b"=");
            x.extend(hostile_label(s));
            *e = x;
        }
    }
    if kv.is_empty() {
        kv.push(vec![]);
    }
    let tr = TxtRecords::from_txt(&txt(&kv));
    inert(&tr.to_string())?;
    no_controls(&format!("{tr:?}"))?;
    let mut texts: Vec<(Option<Vec<u8>>, String)> = Vec::new();
    for (_, v) in tr.iter() {
        let t = format!("{v:?}");
        no_controls(&t)?;
        let v = value(v);
        if let Some(v) = &v {
            // Printable parts are readable, whatever stands between them.
            let parts: Vec<Vec<u8>> = v.split(|b| !b.is_ascii_alphanumeric()).map(|p| p.to_vec()).collect();
            shows(&t, &parts)?;
            ctx.class_if(std::str::from_utf8(v).is_err(), "TXT value that is no UTF-8");
        }
        texts.push((v, t));
    }
    for (i, (v, t)) in texts.iter().enumerate() {
        for (w, u) in &texts[..i] {
            ensure!((t == u) == (v == w), "the values {v:?} and {w:?} are shown as {t} and {u}");
        }
    }
    Ok(())
}
