//! C01-C09: message codec, names, header, typed records, type matching.

use crate::engine::*;
use crate::model::*;
use crate::uw::*;
use crate::wire::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use uwuhi::name::{DomainName, Label as ULabel};
use uwuhi::packet::decoder::{MessageDecoder, ResourceRecord};
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::Error;

const fn sub(name: &'static str, quick: u64, thorough: u64, run: CaseFn, rule: &'static str) -> Sub {
    Sub { name, rule, quick, thorough, run, net: false }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            subs: vec![
                sub("bytes", 500_000, 12_000_000, c01_bytes, "Random and structured byte strings (0-600 bytes, plausible headers, small alphabets) are walked by a random plan, every entry rendered and viewed as typed data; non-trivial: at least one entry or error past the header was reached."),
                sub("mutated", 250_000, 6_000_000, c01_mutated, "Valid compressed messages with 1-12 byte-level mutations; non-trivial: at least one entry decoded before the walk ended."),
                sub("names", 250_000, 6_000_000, c01_names, "Messages made of label/pointer soup in names and record data (see C03); non-trivial: a pointer was followed or refused."),
                sub("large", 20_000, 600_000, c01_large, "Messages of up to 9000 bytes with maximal counts, dense pointer chains and hundreds of entries; non-trivial: more than 20 entries decoded."),
                sub("deep", 6_000, 200_000, c01_deep, "Names that go through up to 8100 pointers in up to 16400 bytes, and messages of up to 65535 bytes with tens of thousands of entries or of TXT strings, names or labels, walked by a random plan on a thread with a stack of 2 MiB; non-trivial: more than 1000 pointers in a chain, or more than 16384 bytes."),
            ],
            assumptions: vec!["Hostile messages with many pointers to long names are at most 9000 bytes long (expanding names is quadratic by design of DNS compression)", "a case that uses more than 30 s of CPU time or 1 GiB of memory counts as not terminating"],
        },
        Prop {
            id: "C02",
            subs: vec![
                sub("valid", 250_000, 6_000_000, c02_valid, "Generated messages (0-6 questions, 0-8 records per section, all field values) encoded by an independent encoder with random compression, followed by junk, walked by a random plan; non-trivial: at least two entries and at least one compression pointer."),
                sub("big", 3_000, 80_000, c02_big, "Messages with 255-700 entries in a section or names behind offsets above 255/4096/16383; non-trivial: more than 255 entries or a pointer target above 255."),
                sub("damaged", 300_000, 8_000_000, c02_damaged, "Mutated messages compared with the reference parser up to and including the first damage; non-trivial: at least one entry before the damage, or damage behind the header."),
            ],
            assumptions: vec!["the reference encoder and parser in harness/src/wire.rs read RFC 1035/6762 correctly (they are checked against each other in every valid case)"],
        },
        Prop {
            id: "C03",
            subs: vec![
                sub("chains", 400_000, 10_000_000, c03_chains, "Runs of labels and pointers laid out in earlier record data, earlier questions or the header, chained to any depth, then names using them in questions, owner names and typed data, with entries behind; non-trivial: at least one pointer followed, or a refused one."),
                sub("soup", 400_000, 10_000_000, c03_soup, "Random strings over a label/pointer alphabet used as names; non-trivial: the name contains a pointer, a reserved type or is cut off."),
                sub("deep", 2_000, 50_000, c03_deep, "Pointer chains of depth 10-4000 and names of thousands of labels; non-trivial: depth above 10."),
            ],
            assumptions: vec!["the reference name reader in harness/src/wire.rs (ref_name) is right"],
        },
        Prop {
            id: "C04",
            subs: vec![
                sub("roundtrip", 200_000, 5_000_000, c04_roundtrip, "Random header, questions and records through MessageEncoder into a junk-filled buffer, finished or dropped, then read by uwuhi's decoder and by the reference parser; non-trivial: at least two entries."),
                sub("big", 1_200, 30_000, c04_big, "As roundtrip with 255-700 entries per section, or TXT data up to 60000 bytes; non-trivial: more than 255 entries or a message above 4096 bytes."),
            ],
            assumptions: vec!["RDATA above 65535 bytes and strings above 255 bytes are outside the encoder's domain (it panics by contract)"],
        },
        Prop {
            id: "C05",
            subs: vec![
                sub("every_size", 12_000, 300_000, c05_sizes, "A random message is encoded into buffers of every size from the 12 byte header to 3 bytes more than needed (a sample of sizes above 700 bytes), each a separate encoder run checked against the complete message; non-trivial: at least one entry and one truncating size."),
                sub("counts", 20, 20, c05_counts, "65534 to 65538 entries in each of the sections, in a buffer large enough for all; non-trivial: always."),
            ],
            assumptions: vec!["buffers are at least 12 bytes (smaller ones panic by contract)"],
        },
        Prop {
            id: "C06",
            subs: vec![
                sub("all_flag_words", 65_536, 65_536, c06_words, "Every one of the 65536 flag words (case index = flag word): all accessors, and every setter from it; non-trivial: always."),
                sub("sequences", 300_000, 8_000_000, c06_seq, "Random 12-byte headers and sequences of 1-12 setter calls, checked after each call and after transmission through encoder and decoder; non-trivial: at least two setters."),
            ],
            assumptions: vec![],
        },
        Prop {
            id: "C07",
            subs: vec![
                sub("labels", 300_000, 8_000_000, c07_labels, "Byte strings of length 0-70 (0, 1, 62-65 over-represented) and pairs of them for equality, order and hash; non-trivial: length at a boundary or two related labels."),
                sub("text", 300_000, 8_000_000, c07_text, "Strings built from parts of boundary lengths, dots and arbitrary Unicode, parsed as names; non-trivial: at least one dot or a boundary length."),
                sub("build", 200_000, 5_000_000, c07_build, "Names built by push, both extends, both collects and parsing, compared label by label, iterated by value and by reference, displayed and parsed back; non-trivial: at least two labels."),
            ],
            assumptions: vec!["parsing the empty string is left open"],
        },
        Prop {
            id: "C08",
            subs: vec![
                sub("rdata", 500_000, 12_000_000, c08_rdata, "Records of all types with well-formed (and compressed), cut, extended, mutated or random data, between sentinel records; non-trivial: a supported type with data that is malformed, compressed or has left-over bytes."),
                sub("exact", 200_000, 5_000_000, c08_exact, "Well-formed data of each supported type cut at every byte; non-trivial: always."),
            ],
            assumptions: vec!["data left over after a complete value may be ignored or rejected"],
        },
        Prop {
            id: "C09",
            subs: vec![
                sub("qtypes", 65_536, 65_536, c09_qtypes, "Every query type code (case index = code) against 300 record types: all codes 0-270 and related or random others; non-trivial: always."),
                sub("qclasses", 65_536, 65_536, c09_qclasses, "Every query class code against all classes 0-260 and related or random others; non-trivial: always."),
                sub("constants", 300, 2_000, c09_constants, "Each named constant's code, debug text and display text against an independent table of IANA codes; a random constant per case plus all constants in case 0; non-trivial: always."),
            ],
            assumptions: vec![],
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C01

/// Walks `buf` in the given way while rendering everything; checks counts and silence.
fn hostile(s: &mut Src, ctx: &mut Ctx, buf: &[u8]) -> Result<usize, String> {
    crate::logcap::enable(true);
    let plan = Plan::gen(s);
    let mut budget = 60usize;
    let mut entries = 0usize;
    let dbg_ok = buf.len() < 1000;
    let mut probe = |_sec: usize, r: &ResourceRecord<'_>| -> Result<(), String> {
        entries += 1;
        if budget > 0 {
            budget -= 1;
            let t = format!("{r}");
            ensure!(!t.is_empty(), "empty text for a record");
            if dbg_ok {
                let _ = format!("{r:?}");
            }
            if let Some(Ok(x)) = r.as_enum() {
                let _ = format!("{x} {x:?}");
                ensure!(x.record_type() == r.type_(), "record type changes in the typed view");
            }
        }
        ensure!(r.rdata().len() <= buf.len(), "record data longer than the message");
        Ok(())
    };
    let w = walk(buf, &plan, &mut probe)?;
    match w {
        Err(_) => {
            ensure!(buf.len() < 12, "a complete header is rejected");
            ctx.class("no header");
        }
        Ok(w) => {
            ensure!(buf.len() >= 12, "a message of {} bytes has a header", buf.len());
            let count = |i: usize| (buf[4 + 2 * i] as usize) << 8 | buf[5 + 2 * i] as usize;
            let got = [w.q.len(), w.rr[0].len(), w.rr[1].len(), w.rr[2].len()];
            for i in 0..4 {
                ensure!(got[i] <= count(i), "section {i} yields {} entries but announces {}", got[i], count(i));
                ctx.class_if(got[i] > 0, ["question", "answer", "authority", "additional"][i]);
            }
            entries += w.q.len();
            ctx.class(if w.err.is_some() { "error reported" } else { "no error" });
            if w.err.is_some() || entries > 0 {
                ctx.nontrivial = true;
            }
            // Everything as a log line, as the tap writes it.
            let mut dec = MessageDecoder::new(buf).map_err(|e| format!("second decoder: {e:?}"))?;
            let _ = format!("{:?}", dec.header());
            for q in dec.iter().take(60) {
                match q {
                    Ok(q) => {
                        let _ = format!("{q} {q:?}");
                    }
                    Err(e) => {
                        let _ = format!("{e} {e:?} {}", std::io::Error::from(e));
                    }
                }
            }
        }
    }
    Ok(entries)
}

/// Byte strings with a plausible header now and then.
pub fn gen_bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let mut b = Vec::new();
    if s.chance(4, 5) {
        b.extend_from_slice(&s.u16().to_be_bytes());
        b.extend_from_slice(&gen_flags(s).to_be_bytes());
        for _ in 0..4 {
            let c: u16 = match s.below(4) {
                0 => 0,
                1 => 1,
                2 => s.below(6) as u16,
                _ => s.edgy16(),
            };
            b.extend_from_slice(&c.to_be_bytes());
        }
    }
    match s.below(4) {
        0 => {
            let n = s.range(0, 40);
            b.extend(s.bytes(n));
        }
        1 => {
            let n = s.range(0, 60);
            for _ in 0..n {
                b.push(*s.pick(&[0u8, 1, 2, 3, b'a', 0xc0, 12, 13, 14, 0x3f, 0x40, 16, 28, 33, 4]));
            }
        }
        2 => {
            // many plausible records
            while b.len() < max && s.more(0, 6, usize::MAX) {
                match s.below(3) {
                    0 => b.push(0),
                    1 => b.extend_from_slice(&[1, b'a', 0]),
                    _ => b.extend_from_slice(&[0xc0, 12]),
                }
                let t = if s.bool() { *s.pick(&SUPPORTED) } else { s.edgy16() };
                b.extend_from_slice(&t.to_be_bytes());
                b.extend_from_slice(&s.pick(&[1u16, 0x8001, 255, 0]).to_be_bytes());
                if s.bool() {
                    b.extend_from_slice(&s.u32().to_be_bytes());
                    let n = s.range(0, 24);
                    let l = if s.chance(1, 8) { s.edgy16() as usize } else { n };
                    b.extend_from_slice(&(l as u16).to_be_bytes());
                    b.extend(s.bytes(n));
                }
            }
        }
        _ => {
            let n = s.range(0, max);
            b.extend(s.bytes(n));
        }
    }
    b.truncate(max);
    b
}

fn c01_bytes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = gen_bytes(s, 600);
    ctx.note(|| hex(&b));
    hostile(s, ctx, &b)?;
    Ok(())
}

fn c01_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_msg(s, true, 0);
    let mut b = gen_encoded(s, &m).bytes;
    mutate(s, &mut b);
    ctx.note(|| hex(&b));
    hostile(s, ctx, &b)?;
    Ok(())
}

fn c01_names(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = if s.bool() { soup_msg(s).0 } else { chain_msg(s).0 };
    ctx.note(|| hex(&b));
    hostile(s, ctx, &b)?;
    if let Some(r) = ref_parse(&b) {
        ctx.class_if(r.hops > 0, "pointer followed");
    }
    Ok(())
}

fn c01_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = vec![0, 1, (s.below(2) as u8) << 7, 0];
    let counts: Vec<u16> = (0..4).map(|_| *s.pick(&[300u16, 0, 1, 10, 40, 0xffff])).collect();
    for c in &counts {
        b.extend_from_slice(&c.to_be_bytes());
    }
    let size = s.range(1000, 9000);
    let mut starts: Vec<usize> = vec![12];
    let (mut sec, mut k) = (0usize, 0u16);
    while b.len() < size {
        while sec < 3 && k >= counts[sec] {
            sec += 1;
            k = 0;
        }
        k = k.saturating_add(1);
        // The owner name: a run of labels, then the end or a pointer to any earlier run.
        let here = b.len();
        if s.bool() {
            for _ in 0..s.range(1, 12) {
                b.extend_from_slice(&[1, b'a' + s.below(26) as u8]);
            }
        }
        if starts.len() > 1 && s.chance(3, 4) {
            let t = *s.pick(&starts[1..]);
            b.extend_from_slice(&(0xc000 | t as u16).to_be_bytes());
        } else {
            b.push(0);
        }
        starts.push(here);
        if sec == 0 {
            b.extend_from_slice(&[0, 255, 0, 1]);
            continue;
        }
        b.extend_from_slice(&[0, *s.pick(&[2u8, 5, 6, 12, 15, 16, 33]), 0, 1, 0, 0, 0, 9, 0]);
        let rd = b.len() + 1;
        let t = *s.pick(&starts);
        let d: Vec<u8> = match s.below(4) {
            0 => (0xc000 | t as u16).to_be_bytes().to_vec(),
            1 => vec![0, 1, 0xc0, 12],
            2 => vec![0, 0, 0, 0, 0, 0, 0xc0 | (t >> 8) as u8, t as u8],
            _ => vec![1, b'b', 0xc0 | (t >> 8) as u8, t as u8],
        };
        b.push(d.len() as u8);
        b.extend(d);
        starts.push(rd);
    }
    if s.chance(1, 3) {
        mutate(s, &mut b);
    }
    ctx.note(|| hex(&b));
    let n = hostile(s, ctx, &b)?;
    ctx.nontrivial = n > 20;
    Ok(())
}

fn c01_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = vec![0, 1, (s.below(2) as u8) << 7, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let rec = |b: &mut Vec<u8>, owner: &[u8], t: u8, data: &[u8]| {
        b.extend_from_slice(owner);
        b.extend_from_slice(&[0, t, 0, 1, 0, 0, 0, 9]);
        b.extend_from_slice(&(data.len() as u16).to_be_bytes());
        b.extend_from_slice(data);
    };
    let sec = 1 + s.below(3) as usize;
    let mut count = [0u16; 4];
    let what = s.below(5);
    match what {
        0 | 1 => {
            // A chain of pointers in opaque or typed data, then names that end in it.
            let step = s.range(0, 3);
            let max = 16_300 / (2 + 2 * step);
            let depth = *s.pick(&[max, max - 1, max / 2, max / 4, 300]);
            let at = b.len() + 11;
            let mut d = vec![0];
            let mut prev = at;
            for _ in 0..depth {
                let here = at + d.len();
                if here > 0x3fff {
                    break;
                }
                for _ in 0..step {
                    d.extend_from_slice(b"\x01a");
                }
                d.extend_from_slice(&(0xc000 | prev as u16).to_be_bytes());
                prev = here;
            }
            let t = *s.pick(&[10u8, 99, 2, 5, 6, 12, 15, 16, 33]);
            rec(&mut b, &[0], t, &d);
            count[sec] = 1;
            let p = (0xc000 | prev as u16).to_be_bytes();
            for _ in 0..s.range(1, 4) {
                let t = *s.pick(&[1u8, 2, 5, 6, 12, 15, 33]);
                let mut d = vec![0; match t { 15 => 2, 33 => 6, _ => 0 }];
                d.extend_from_slice(&p);
                rec(&mut b, &p, t, &d);
                count[sec] += 1;
            }
            ctx.class("pointer chain");
            ctx.nontrivial = depth > 1000;
        }
        2 => {
            // Tens of thousands of the smallest questions.
            let n = s.range(1000, 13_000);
            for _ in 0..n {
                b.extend_from_slice(&[0, 0, 255, 0, 1]);
            }
            count[0] = *s.pick(&[n as u16, 0xffff, n as u16 - 1]);
            ctx.class("many questions");
            ctx.nontrivial = b.len() > 16_384;
        }
        3 => {
            let n = s.range(1000, 5_900);
            let t = s.u8();
            for _ in 0..n {
                rec(&mut b, &[0], t, &[]);
            }
            count[sec] = *s.pick(&[n as u16, 0xffff, n as u16 - 1]);
            ctx.class("many records");
            ctx.nontrivial = b.len() > 16_384;
        }
        _ => {
            // Data up to the largest length.
            let n = *s.pick(&[65_000usize, 65_509, 65_511, 40_000, 20_000, 30_000]);
            let (k, v) = (s.u8() % 64, s.u8());
            let d: Vec<u8> = if s.bool() { (0..n).map(|i| if i % (k as usize + 1) == 0 { k } else { v }).collect() } else { vec![k; n] };
            rec(&mut b, &[0], *s.pick(&[16u8, 12, 5, 2, 6, 33, 15, 1, 28, 99]), &d);
            count[sec] = s.range(1, 2) as u16;
            ctx.class("large data");
            ctx.nontrivial = true;
        }
    }
    for (i, c) in count.iter().enumerate() {
        b[4 + 2 * i..6 + 2 * i].copy_from_slice(&c.to_be_bytes());
    }
    if s.chance(1, 6) {
        let k = b.len() - 12;
        b.truncate(12 + s.below(k as u64) as usize);
        ctx.class("cut");
    }
    ctx.note(|| format!("shape {what}, {} bytes, counts {count:?}: {}", b.len(), hex(&b[..b.len().min(100)])));
    let nt = ctx.nontrivial;
    hostile(s, ctx, &b)?;
    ctx.nontrivial = nt;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C02

fn sane(enc: &Encoded, m: &Msg) -> Res {
    // The two halves of the reference must agree; anything else is an error of the harness.
    let r = check_ref_parses_to(&enc.bytes, m).map_err(|e| format!("HARNESS: reference encoder and parser disagree: {e}"));
    if let Err(e) = r {
        eprintln!("{e}");
        std::process::exit(2);
    }
    Ok(())
}

fn c02_valid(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_msg(s, true, 0);
    let enc = gen_encoded(s, &m);
    sane(&enc, &m)?;
    let mut b = enc.bytes.clone();
    let n = if s.chance(1, 3) { s.range(1, 30) } else { 0 };
    b.extend(s.bytes(n));
    ctx.class_if(n > 0, "trailing bytes");
    let plan = Plan::gen(s);
    ctx.note(|| format!("{} pointers={} trailing={} plan={:?}", show_msg(&m), enc.pointers, n, plan));
    let entries = enc.ends.len();
    ctx.nontrivial = entries >= 2 && enc.pointers > 0;
    ctx.class_if(entries == 0, "empty message");
    ctx.class_if(enc.pointers > 0, "compressed");
    ctx.class_if(plan.jump.is_some(), "sections skipped");
    let r = ref_parse(&b).ok_or("no header")?;
    let w = walk(&b, &plan, &mut |_, _| Ok(()))?.map_err(|e| format!("header rejected: {e:?}"))?;
    compare(&w, &r, &b, &plan)?;
    check_header(&b)?;
    check_decodes_to(&b, &m)
}

/// The header accessors against the bytes.
fn check_header(b: &[u8]) -> Res {
    let d = MessageDecoder::new(b).map_err(|e| format!("header rejected: {e:?}"))?;
    let w = |i: usize| (b[i] as u16) << 8 | b[i + 1] as u16;
    accessors(d.header(), w(0), w(2), [w(4), w(6), w(8), w(10)])
}

fn c02_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_big_msg(s);
    let enc = gen_encoded(s, &m);
    sane(&enc, &m)?;
    ctx.note(|| format!("{} bytes={} pointers={} max target={}", show_msg(&m), enc.bytes.len(), enc.pointers, enc.max_target));
    ctx.nontrivial = enc.ends.len() > 255 || enc.max_target > 255;
    ctx.class_if(enc.max_target > 255, "target>255");
    ctx.class_if(enc.max_target > 4095, "target>4095");
    ctx.class_if(enc.bytes.len() > 16383, "offset>16383");
    ctx.class_if(enc.ends.len() > 255, ">255 entries");
    let plan = Plan::gen(s);
    let r = ref_parse(&enc.bytes).ok_or("no header")?;
    let w = walk(&enc.bytes, &plan, &mut |_, _| Ok(()))?.map_err(|e| format!("header rejected: {e:?}"))?;
    compare(&w, &r, &enc.bytes, &plan)?;
    check_decodes_to(&enc.bytes, &m)
}

fn against_ref(s: &mut Src, ctx: &mut Ctx, b: &[u8], plan: Plan) -> Res {
    let _ = s;
    match ref_parse(b) {
        None => {
            ctx.class("no header");
            match MessageDecoder::new(b) {
                Err(Error::Eof) => Ok(()),
                Err(e) => Err(format!("a message without complete header is rejected with {e:?}")),
                Ok(_) => Err("a message without complete header is accepted".into()),
            }
        }
        Some(r) => {
            let w = walk(b, &plan, &mut |_, _| Ok(()))?.map_err(|e| format!("a complete header is rejected: {e:?}"))?;
            ctx.class(match r.err {
                None => "well-formed",
                Some((0, _)) => "damage in questions",
                Some((1, _)) => "damage in answers",
                Some((2, _)) => "damage in authority",
                Some(_) => "damage in additional",
            });
            compare(&w, &r, b, &plan)
        }
    }
}

fn c02_damaged(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_msg(s, true, 0);
    let mut b = gen_encoded(s, &m).bytes;
    mutate(s, &mut b);
    let plan = Plan::gen(s);
    ctx.note(|| format!("{} plan={plan:?}", hex(&b)));
    ctx.nontrivial = b.len() > 12 && (!m.q.is_empty() || m.rr.iter().any(|x| !x.is_empty()));
    against_ref(s, ctx, &b, plan)
}

// ---------------------------------------------------------------------------------------------
// C03

/// Appends a run of labels ended by a pointer, a terminator, or something broken.
/// `starts` are offsets where a name may sensibly begin.
fn push_run(s: &mut Src, b: &mut Vec<u8>, starts: &mut Vec<usize>, allow_broken: bool) {
    let run_start = b.len();
    starts.push(b.len());
    let mut k = 0;
    while s.more(k, 1, 6) {
        k += 1;
        let n = match s.weighted(&[8, 2, 1]) {
            0 => s.range(1, 4),
            1 => s.range(1, 63),
            _ => 63,
        };
        b.push(n as u8);
        if s.chance(1, 5) {
            // label content that itself looks like names
            for _ in 0..n {
                b.push(*s.pick(&[0u8, 1, b'z', 0xc0, 12, 13, 2]));
            }
        } else {
            let c = *s.pick(b"abcdefgh");
            b.extend(std::iter::repeat(c).take(n));
        }
        starts.push(b.len());
    }
    match s.weighted(&[5, 3, if allow_broken { 2 } else { 0 }]) {
        0 => {
            // pointer to a sensible place strictly before the run
            let c: Vec<usize> = starts.iter().copied().filter(|t| *t < run_start).collect();
            if c.is_empty() {
                b.push(0);
            } else {
                let t = *s.pick(&c);
                b.extend_from_slice(&(0xc000 | (t as u16 & 0x3fff)).to_be_bytes());
            }
        }
        1 => b.push(0),
        _ => match s.below(7) {
            // to the run itself, into it, behind it, into the header, anywhere
            0 => b.extend_from_slice(&(0xc000 | run_start as u16 & 0x3fff).to_be_bytes()),
            1 => {
                let t = run_start + s.below((b.len() - run_start + 1) as u64) as usize;
                b.extend_from_slice(&(0xc000 | t as u16 & 0x3fff).to_be_bytes());
            }
            2 => {
                let t = b.len() + s.below(20) as usize;
                b.extend_from_slice(&(0xc000 | t as u16 & 0x3fff).to_be_bytes());
            }
            3 => b.extend_from_slice(&(0xc000 | s.below(13) as u16).to_be_bytes()),
            4 => b.extend_from_slice(&(0xc000 | s.below(b.len() as u64) as u16 & 0x3fff).to_be_bytes()),
            5 => b.push(*s.pick(&[0x40u8, 0x41, 0x7f, 0x80, 0xbf])),
            _ => b.extend_from_slice(&[0xff, s.u8()]),
        },
    }
}

/// A message whose names are built of runs; returns it and the plan to read it.
fn chain_msg(s: &mut Src) -> (Vec<u8>, Plan) {
    let mut b: Vec<u8> = Vec::new();
    // Header bytes can be pointer targets as well: the id may hold a label or a terminator.
    b.extend_from_slice(s.pick(&[[0u8, 0], [1, b'x'], [0x30, 0x39], [0xc0, 0], [2, 0]]));
    b.extend_from_slice(&gen_flags(s).to_be_bytes());
    b.extend_from_slice(&[0; 8]);
    let mut starts: Vec<usize> = vec![];
    if s.chance(1, 3) {
        starts.extend([0usize, 1, 4, 8, 11]);
    }
    let mut counts = [0u16; 4];
    // Questions with names built directly.
    if s.bool() {
        while s.more(counts[0] as usize, 2, 8) {
            counts[0] += 1;
            push_run(s, &mut b, &mut starts, s_broken(counts[0]));
            b.extend_from_slice(&[0, 1, 0, counts[0] as u8]);
        }
    }
    // A region of runs inside raw record data.
    if s.bool() {
        counts[1] += 1;
        b.push(0);
        b.extend_from_slice(&[0, 10, 0, 1, 0, 0, 0, 7, 0, 0]);
        let at = b.len();
        if s.chance(1, 4) {
            let n = *s.pick(&[200usize, 256, 1000, 4096, 9000, 16300, 16384]);
            b.extend(std::iter::repeat(0u8).take(n));
        }
        let mut k = 0;
        while s.more(k, 4, 24) {
            k += 1;
            push_run(s, &mut b, &mut starts, true);
        }
        let len = (b.len() - at) as u16;
        b[at - 2..at].copy_from_slice(&len.to_be_bytes());
    }
    // Records with names as owner and in their data.
    for sec in 1..4 {
        while s.more(counts[sec] as usize, 1, 5) {
            counts[sec] += 1;
            push_run(s, &mut b, &mut starts, counts[sec] > 2);
            let t = *s.pick(&[5u16, 12, 2, 15, 33, 6, 16, 1]);
            b.extend_from_slice(&t.to_be_bytes());
            b.extend_from_slice(&[0, 1, 0, 0, 1, counts[sec] as u8, 0, 0]);
            let at = b.len();
            match t {
                15 => {
                    b.extend_from_slice(&[0, 5]);
                    push_run(s, &mut b, &mut starts, true);
                }
                33 => {
                    b.extend_from_slice(&[0, 5, 0, 6, 0, 7]);
                    push_run(s, &mut b, &mut starts, true);
                }
                6 => {
                    push_run(s, &mut b, &mut starts, true);
                    push_run(s, &mut b, &mut starts, true);
                    b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]);
                }
                16 => b.extend_from_slice(&[2, b'k', b'v']),
                1 => b.extend_from_slice(&[127, 0, 0, 1]),
                _ => push_run(s, &mut b, &mut starts, true),
            }
            let len = (b.len() - at) as u16;
            b[at - 2..at].copy_from_slice(&len.to_be_bytes());
        }
    }
    for i in 0..4 {
        let extra = if s.chance(1, 12) { 1 } else { 0 };
        b[4 + 2 * i..6 + 2 * i].copy_from_slice(&(counts[i] + extra).to_be_bytes());
    }
    if s.chance(1, 6) {
        let cut = s.below((b.len().min(12)) as u64 + 1) as usize;
        b.truncate(b.len() - cut);
    }
    (b, Plan::all())
}

fn s_broken(count: u16) -> bool {
    count > 2
}

fn soup_msg(s: &mut Src) -> (Vec<u8>, Plan) {
    let mut b: Vec<u8> = vec![0x30, 0x39];
    b.extend_from_slice(&gen_flags(s).to_be_bytes());
    let layout = s.below(3);
    let counts: [u16; 4] = match layout {
        0 => [*s.pick(&[1u16, 2, 3, 20]), 0, 0, 0],
        1 => [0, *s.pick(&[1u16, 2, 3]), 1, 1],
        _ => [0, 2, 0, 0],
    };
    for c in counts {
        b.extend_from_slice(&c.to_be_bytes());
    }
    let soup = |s: &mut Src, b: &mut Vec<u8>| {
        let n = s.range(1, 24);
        for _ in 0..n {
            match s.weighted(&[3, 3, 2, 4, 2, 1]) {
                0 => b.push(0),
                1 => b.extend_from_slice(&[1, *s.pick(b"ab")]),
                2 => b.push(s.range(2, 6) as u8),
                3 => {
                    let t = s.below(b.len() as u64 + 3) as u16;
                    b.extend_from_slice(&(0xc000 | t).to_be_bytes());
                }
                4 => b.push(*s.pick(&[0xc0u8, 0xc0, 0x40, 0x80, 0xff])),
                _ => b.push(s.u8()),
            }
        }
    };
    if layout == 2 {
        // names in record data: a name record behind a region
        b.extend_from_slice(&[0, 0, 10, 0, 1, 0, 0, 0, 1, 0, 0]);
        let at = b.len();
        soup(s, &mut b);
        let l = (b.len() - at) as u16;
        b[at - 2..at].copy_from_slice(&l.to_be_bytes());
        b.extend_from_slice(&[0, 0, *s.pick(&[5u8, 12, 2, 15, 33, 6]), 0, 1, 0, 0, 0, 1, 0, 0]);
        let at = b.len();
        soup(s, &mut b);
        let l = (b.len() - at) as u16;
        b[at - 2..at].copy_from_slice(&l.to_be_bytes());
    } else {
        for _ in 0..s.range(1, 3) {
            soup(s, &mut b);
            b.extend_from_slice(&[0, 0, 1, 0, 1]);
            if layout == 1 {
                b.extend_from_slice(&[0, 0, 0, 5, 0, 0]);
            }
        }
    }
    if s.chance(1, 3) {
        let cut = s.below(b.len().min(12) as u64 + 1) as usize;
        b.truncate(b.len() - cut);
    }
    (b, Plan::all())
}

/// Everything the decoder says about names in `b`, against the reference.
fn names_check(ctx: &mut Ctx, b: &[u8], plan: &Plan) -> Res {
    let Some(r) = ref_parse(b) else { return Ok(()) };
    let mut idx = [0usize; 4];
    let mut typed = Vec::new();
    let mut probe = |sec: usize, rr: &ResourceRecord<'_>| -> Result<(), String> {
        let v = match rr.as_enum() {
            None => None,
            Some(Ok(v)) => Some(Ok(model(&v)?)),
            Some(Err(e)) => Some(Err(e)),
        };
        typed.push((sec, idx[sec], v));
        idx[sec] += 1;
        Ok(())
    };
    let w = walk(b, plan, &mut probe)?.map_err(|e| format!("a complete header is rejected: {e:?}"))?;
    let mut rdata_names = false;
    compare(&w, &r, b, plan)?;
    for (sec, i, v) in typed {
        if let Some(rr) = r.rr[sec - 1].get(i) {
            let t = ref_typed(b, rr);
            compare_typed(&v, &t).map_err(|e| format!("section {sec} record {i}: {e}"))?;
            if let (Some(Err(e)), RefTyped::Bad(k)) = (&v, &t) {
                // The kind of error is part of the rule, for data that is just one name.
                if matches!(rr.rtype, 2 | 5 | 12) {
                    ensure!(same_err(*e, *k), "section {sec} record {i}: name in record data is rejected with {e:?} instead of {k:?}");
                }
                rdata_names = true;
                ctx.class("bad name in data");
            }
        }
    }
    ctx.class_if(r.hops > 0, "pointer followed");
    ctx.class_if(r.hops > 1, "chain");
    ctx.class_if(r.overlap, "overlapping run");
    match r.err {
        Some((_, Bad::PointerLoop)) => ctx.class("loop refused"),
        Some((_, Bad::InvalidValue)) => ctx.class("reserved type refused"),
        Some((_, Bad::Eof)) => ctx.class("cut off"),
        None => ctx.class("well-formed"),
    }
    ctx.nontrivial = r.hops > 0 || r.err.is_some() || rdata_names;
    Ok(())
}

fn c03_chains(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, plan) = chain_msg(s);
    ctx.note(|| hex(&b));
    names_check(ctx, &b, &plan)
}

fn c03_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, plan) = soup_msg(s);
    ctx.note(|| hex(&b));
    names_check(ctx, &b, &plan)
}

fn c03_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b: Vec<u8> = vec![0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0];
    b.extend_from_slice(&[0, 0, 10, 0, 1, 0, 0, 0, 1, 0, 0]);
    let at = b.len();
    let depth = match s.below(3) {
        0 => s.range(10, 40),
        1 => s.range(10, 400),
        _ => s.range(400, 8100),
    };
    b.push(0);
    let mut prev = at;
    let step = s.range(0, 2);
    for i in 0..depth {
        if b.len() > 16000 {
            break;
        }
        let here = b.len();
        for _ in 0..step {
            b.extend_from_slice(&[1, b'a' + (i % 26) as u8]);
        }
        b.extend_from_slice(&(0xc000 | prev as u16).to_be_bytes());
        prev = here;
    }
    let l = (b.len() - at) as u16;
    b[at - 2..at].copy_from_slice(&l.to_be_bytes());
    for t in [12u8, 5] {
        b.extend_from_slice(&[1, b'x']);
        b.extend_from_slice(&(0xc000 | prev as u16).to_be_bytes());
        b.extend_from_slice(&[0, t, 0, 1, 0, 0, 0, 2, 0, 2]);
        b.extend_from_slice(&(0xc000 | prev as u16).to_be_bytes());
    }
    ctx.note(|| format!("chain of depth {depth} with {step} labels per hop"));
    names_check(ctx, &b, &Plan::all())?;
    ctx.nontrivial = depth > 10;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04

fn final_flags(m: &Msg) -> Msg {
    // The encoder owns the truncation bit.
    Msg { flags: m.flags & !TC, ..m.clone() }
}

fn roundtrip(s: &mut Src, ctx: &mut Ctx, m: &Msg) -> Res {
    let exact = encode(&final_flags(m), Compress::Never);
    let slack = match s.below(3) {
        0 => 0,
        1 => s.range(1, 40),
        _ => 2000,
    };
    // Enough for any layout that does not use compression.
    let mut buf = vec![*s.pick(&[0u8, 0xff, 0xc0, 0xa5]); exact.bytes.len() + slack];
    let header = header_from(m.id, m.flags, [s.edgy16(), s.edgy16(), 1, 0xffff]);
    let fin = if s.bool() { Finish::Drop } else { Finish::Finish };
    let total = exact.ends.len();
    let want = final_flags(m);
    let junk = buf.clone();
    let len = match uw_encode(m, &mut buf, total + s.below(2) as usize, header, fin) {
        Some(r) => {
            ctx.class("finished");
            r.map_err(|e| format!("encoding a message of {} bytes into {} bytes fails with {e:?}", exact.bytes.len(), junk.len()))?
        }
        None => {
            ctx.class("dropped");
            // The length is not reported: the message must be complete anyway.
            let r = ref_parse(&buf).ok_or("no header")?;
            ensure!(r.err.is_none(), "the dropped encoder leaves a malformed message: {:?}", r.err);
            r.end
        }
    };
    ensure!(len <= buf.len(), "reported length {len} exceeds the buffer");
    ensure!(buf[len..] == junk[len..], "bytes behind the message were changed");
    check_ref_parses_to(&buf[..len], &want)?;
    check_decodes_to(&buf[..len], &want)?;
    check_decodes_to(&buf, &want)
}

fn c04_roundtrip(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_msg(s, false, 1);
    let n = m.q.len() + m.rr.iter().map(|x| x.len()).sum::<usize>();
    ctx.note(|| show_msg(&m));
    ctx.nontrivial = n >= 2;
    ctx.class_if(n == 0, "no entries");
    ctx.class_if(m.flags & TC != 0, "header with TC set");
    roundtrip(s, ctx, &m)
}

/// Large messages with supported records only.
fn gen_big_supported(s: &mut Src) -> Msg {
    let mut m = gen_big_msg(s);
    for sec in &mut m.rr {
        for r in sec.iter_mut() {
            if let RData::Raw(..) = r.data {
                r.data = RData::Txt(vec![vec![b'x'; 200]; 1 + (r.ttl as usize % 3) * 20]);
            }
            if let RData::Txt(v) = &mut r.data {
                if v.is_empty() {
                    v.push(vec![]);
                }
            }
        }
    }
    if s.chance(1, 4) {
        let n = *s.pick(&[255usize, 254, 200, 235]);
        m.rr[0].push(RR { name: vec![b"t".to_vec()], class: 1, flush: false, ttl: 5, data: RData::Txt(vec![vec![b'q'; 255]; n]) });
    }
    m
}

fn c04_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = gen_big_supported(s);
    ctx.note(|| show_msg(&m));
    let n = m.q.len() + m.rr.iter().map(|x| x.len()).sum::<usize>();
    ctx.class_if(n > 255, ">255 entries");
    let l = encode(&m, Compress::Never).bytes.len();
    ctx.class_if(l > 65535, ">65535 bytes");
    ctx.nontrivial = n > 255 || l > 4096;
    roundtrip(s, ctx, &m)
}

// ---------------------------------------------------------------------------------------------
// C05

fn c05_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let m = if s.chance(1, 12) {
        let mut m = gen_big_supported(s);
        // keep it affordable
        m.q.truncate(20);
        for r in &mut m.rr {
            r.truncate(20);
        }
        m
    } else {
        gen_msg(s, false, 1)
    };
    let total = m.q.len() + m.rr.iter().map(|x| x.len()).sum::<usize>();
    let header = header_from(m.id, m.flags, [7, 7, 7, 7]);
    let upper = encode(&m, Compress::Never).bytes.len() + 16;
    let mut big = vec![0u8; upper];
    // Where each entry ends in the complete message.
    let mut ends = Vec::new();
    for k in 0..=total {
        let r = uw_encode(&m, &mut big, k, header, Finish::Finish).unwrap();
        ends.push(r.map_err(|e| format!("encoding into a large buffer fails: {e:?}"))?);
    }
    let full = ends[total];
    ensure!(ends[0] == 12, "a message without entries is {} bytes long", ends[0]);
    check_decodes_to(&big[..full], &final_flags(&m))?;
    ctx.note(|| format!("{} full length {full}", show_msg(&m)));
    ctx.nontrivial = total > 0;
    let mut sizes: Vec<usize> = Vec::new();
    if full <= 700 {
        sizes.extend(12..=full + 3);
    } else {
        ctx.class("sampled sizes");
        for e in &ends {
            for d in [-2i64, -1, 0, 1, 2, 3, 10, 11] {
                let x = *e as i64 + d;
                if x >= 12 && x <= full as i64 + 3 {
                    sizes.push(x as usize);
                }
            }
        }
        for _ in 0..300 {
            sizes.push(s.range(12, full + 3));
        }
    }
    let fill = *s.pick(&[0u8, 0xff]);
    for size in sizes {
        ctx.steps += 1;
        let drop_it = (size + m.id as usize) % 5 == 0;
        let mut buf = vec![fill; size + 4];
        let r = uw_encode(&m, &mut buf[..size], total, header, if drop_it { Finish::Drop } else { Finish::Finish });
        let fits = size >= full;
        let fail = |t: String| Err(format!("buffer of {size} bytes for a message of {full}: {t}"));
        match r {
            None => {}
            Some(Ok(n)) => {
                if !fits {
                    return fail(format!("reported as complete with {n} bytes"));
                }
                if n != full {
                    return fail(format!("reported length {n}"));
                }
            }
            Some(Err(e)) => {
                if fits {
                    return fail(format!("reported {e:?}"));
                }
                if e != Error::Truncated {
                    return fail(format!("reported {e:?} instead of Truncated"));
                }
            }
        }
        if buf[size..] != [fill; 4] {
            return fail("written past the end".into());
        }
        let got_id = (buf[0] as u16) << 8 | buf[1] as u16;
        let got_flags = (buf[2] as u16) << 8 | buf[3] as u16;
        let want_flags = if fits { m.flags & !TC } else { m.flags | TC };
        if got_id != m.id || got_flags != want_flags {
            return fail(format!("header id {got_id:#x} flags {got_flags:#06x} instead of {:#x} {want_flags:#06x}", m.id));
        }
        if fits {
            check_decodes_to(&buf[..full], &final_flags(&m)).or_else(fail)?;
            check_ref_parses_to(&buf[..full], &final_flags(&m)).map(|_| ()).or_else(fail)?;
        } else {
            let complete = ends[1..].iter().filter(|e| **e <= size).count();
            ctx.class_if(complete > 0, "some entries intact");
            prefix_intact(&buf[..size], &m, complete).or_else(fail)?;
        }
    }
    Ok(())
}

/// The first `complete` entries of `m` are decoded from `bytes`, in order and in their sections.
pub fn prefix_intact(bytes: &[u8], m: &Msg, complete: usize) -> Res {
    let w = walk(bytes, &Plan::all(), &mut |_, _| Ok(()))?.map_err(|e| format!("header rejected: {e:?}"))?;
    let mut left = complete;
    let nq = left.min(m.q.len());
    ensure!(w.q.len() >= nq, "only {} of {nq} complete questions decoded", w.q.len());
    for (i, (a, b)) in w.q.iter().zip(&m.q).take(nq).enumerate() {
        ensure!(a.0 == b.name && a.1 == b.qtype && a.2 == b.qclass, "complete question {i} decoded as {} type={} class={}", show_name(&a.0), a.1, a.2);
    }
    left -= nq;
    for k in 0..3 {
        let n = left.min(m.rr[k].len());
        ensure!(w.rr[k].len() >= n, "section {}: only {} of {n} complete records decoded", k + 1, w.rr[k].len());
        for (i, (a, b)) in w.rr[k].iter().zip(&m.rr[k]).take(n).enumerate() {
            rr_eq(a, b).map_err(|e| format!("section {} complete record {i}: {e}", k + 1))?;
        }
        left -= n;
    }
    Ok(())
}

fn c05_counts(s: &mut Src, ctx: &mut Ctx) -> Res {
    // Every section with 65534 to 65538 entries in turn.
    let i = ctx_index(s, ctx) as usize;
    let n = 65534 + i / 4 % 5;
    let sec = i % 4;
    ctx.nontrivial = true;
    ctx.note(|| format!("{n} entries in section {sec}"));
    let root = DomainName::ROOT;
    let a = rec(&RData::A([1, 2, 3, 4]));
    let mut buf = vec![0u8; 12 + 70_000 * 15];
    let mut enc = MessageEncoder::new(&mut buf);
    enc.set_header(header_from(7, QR, [0; 4]));
    let q = |e: &mut MessageEncoder<'_, _>| e.question(encoder::Question::new(&root).ty(QType::A));
    let rr = || encoder::ResourceRecord::new(&root, &a).ttl(9);
    let res = if sec == 0 {
        for _ in 0..n {
            q(&mut enc);
        }
        enc.finish()
    } else {
        let mut e = enc.answers();
        if sec == 1 {
            for _ in 0..n {
                e.add_answer(rr());
            }
            e.finish()
        } else {
            let mut e = e.authority();
            if sec == 2 {
                for _ in 0..n {
                    e.add_authority(rr());
                }
                e.finish()
            } else {
                let mut e = e.additional();
                for _ in 0..n {
                    e.add_additional(rr());
                }
                e.finish()
            }
        }
    };
    let each = if sec == 0 { 5 } else { 15 };
    let tc = buf[2] & 2 != 0;
    let r = ref_parse(&buf).ok_or("no header")?;
    let parsed = if sec == 0 { r.q.len() } else { r.rr[sec - 1].len() };
    if n <= 65535 {
        ensure!(res == Ok(12 + each * n), "{n} entries that fit are reported as {res:?}");
        ensure!(!tc && parsed == n, "{n} entries: truncated={tc}, {parsed} readable");
    } else {
        ensure!(res.is_err() && tc, "{n} entries cannot be announced in a 16-bit count, but encoding reports {res:?} and truncated={tc}");
        ensure!(parsed == 65535, "{parsed} of {n} entries readable");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06

pub fn accessors(h: &Header, id: u16, flags: u16, counts: [u16; 4]) -> Res {
    let bit = |m: u16| flags & m != 0;
    let got = (
        (h.id(), h.is_query(), h.is_response(), code8(h.opcode()), h.is_authority(), h.is_truncated()),
        (h.is_recursion_desired(), h.is_recursion_available(), code8(h.rcode())),
        [h.question_count(), h.answer_count(), h.authoritative_count(), h.additional_count()],
    );
    let want = (
        (id, !bit(QR), bit(QR), (flags >> 11 & 15) as u8, bit(AA), bit(TC)),
        (bit(RD), bit(RA), (flags & 15) as u8),
        counts,
    );
    ensure!(got == want, "header id={id:#x} flags={flags:#06x} counts={counts:?}: accessors say {got:?}, expected {want:?}");
    Ok(())
}

/// One setter call on header and model; returns its name.
fn set(s: &mut Src, h: &mut Header, id: &mut u16, flags: &mut u16) -> String {
    let k = s.below(8);
    let v = s.bool();
    let mut put = |m: u16, v: bool| {
        if v {
            *flags |= m
        } else {
            *flags &= !m
        }
    };
    match k {
        0 => {
            *id = s.edgy16();
            h.set_id(*id);
            format!("id={id:#x}")
        }
        1 => {
            put(QR, v);
            h.set_response(v);
            format!("qr={v}")
        }
        2 => {
            put(TC, v);
            h.set_truncated(v);
            format!("tc={v}")
        }
        3 => {
            put(RD, v);
            h.set_recursion_desired(v);
            format!("rd={v}")
        }
        4 => {
            put(RA, v);
            h.set_recursion_available(v);
            format!("ra={v}")
        }
        5 => {
            put(AA, v);
            h.set_authority(v);
            format!("aa={v}")
        }
        6 => {
            let big = s.chance(1, 4);
            let o = if big { 16 + s.below(240) as u8 } else { s.below(16) as u8 };
            h.set_opcode(opcode(o));
            if big {
                // Only the field itself may take an arbitrary value.
                *flags = *flags & !0x7800 | (code8(h.opcode()) as u16 & 15) << 11;
            } else {
                *flags = *flags & !0x7800 | (o as u16) << 11;
            }
            format!("opcode={o}")
        }
        _ => {
            let big = s.chance(1, 4);
            let o = if big { 16 + s.below(240) as u8 } else { s.below(16) as u8 };
            h.set_rcode(rcode(o));
            if big {
                *flags = *flags & !15 | (code8(h.rcode()) as u16 & 15);
            } else {
                *flags = *flags & !15 | o as u16;
            }
            format!("rcode={o}")
        }
    }
}

fn c06_words(s: &mut Src, ctx: &mut Ctx) -> Res {
    let flags = ctx_index(s, ctx) as u16;
    ctx.nontrivial = true;
    let id = flags.wrapping_mul(40503);
    let counts = [flags ^ 0x1234, flags.rotate_left(3), !flags, flags >> 1];
    let base = header_from(id, flags, counts);
    accessors(&base, id, flags, counts)?;
    ensure!(format!("{base:?}").starts_with("Header"), "header debug text");
    for v in [false, true] {
        let put = |m: u16| if v { flags | m } else { flags & !m };
        let cases: [(fn(&mut Header, bool), u16); 5] = [
            (Header::set_response, QR),
            (Header::set_truncated, TC),
            (Header::set_recursion_desired, RD),
            (Header::set_recursion_available, RA),
            (Header::set_authority, AA),
        ];
        for (f, m) in cases {
            let mut h = base;
            f(&mut h, v);
            accessors(&h, id, put(m), counts)?;
            ensure!(header_bytes(&h) == header_bytes(&header_from(id, put(m), counts)), "setter of {m:#x} to {v} on flags {flags:#06x} gives bytes {}", hex(&header_bytes(&h)));
            ctx.steps += 1;
        }
    }
    for k in 0..16u8 {
        let mut h = base;
        h.set_opcode(opcode(k));
        let f = flags & !0x7800 | (k as u16) << 11;
        ensure!(header_bytes(&h) == header_bytes(&header_from(id, f, counts)), "set_opcode({k}) on flags {flags:#06x} gives {}", hex(&header_bytes(&h)));
        let mut h = base;
        h.set_rcode(rcode(k));
        let f = flags & !15 | k as u16;
        ensure!(header_bytes(&h) == header_bytes(&header_from(id, f, counts)), "set_rcode({k}) on flags {flags:#06x} gives {}", hex(&header_bytes(&h)));
        accessors(&h, id, f, counts)?;
        ctx.steps += 2;
    }
    ctx.note(|| format!("flags {flags:#06x}"));
    Ok(())
}

/// The case index, for exhaustive sub-checks: recorded on the tape so that it is replayed.
fn ctx_index(s: &mut Src, ctx: &Ctx) -> u64 {
    s.forced(ctx.index)
}

fn c06_seq(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut id, mut flags) = (s.edgy16(), gen_flags(s));
    let counts = [s.edgy16(), s.edgy16(), s.edgy16(), s.edgy16()];
    let mut h = header_from(id, flags, counts);
    if s.chance(1, 6) {
        h = Header::default();
        (id, flags) = (0, 0);
        accessors(&h, 0, 0, [0; 4])?;
    }
    let c2 = [h.question_count(), h.answer_count(), h.authoritative_count(), h.additional_count()];
    accessors(&h, id, flags, c2)?;
    let mut names = Vec::new();
    while names.is_empty() || s.more(names.len(), 4, 12) {
        let n = set(s, &mut h, &mut id, &mut flags);
        accessors(&h, id, flags, c2).map_err(|e| format!("after {} {n}: {e}", names.join(" ")))?;
        ensure!(header_bytes(&h) == header_bytes(&header_from(id, flags, c2)), "after {} {n}: bytes {}", names.join(" "), hex(&header_bytes(&h)));
        names.push(n);
        ctx.steps += 1;
    }
    ctx.nontrivial = names.len() > 1;
    ctx.note(|| names.join(" "));
    // Through the wire.
    let mut buf = [0xeeu8; 20];
    let mut enc = MessageEncoder::new(&mut buf);
    enc.set_header(h);
    let n = enc.finish().map_err(|e| format!("encoding just a header fails: {e:?}"))?;
    ensure!(n == 12, "a bare header takes {n} bytes");
    let d = MessageDecoder::new(&buf[..12]).map_err(|e| format!("{e:?}"))?;
    accessors(d.header(), id, flags & !TC, [0; 4]).map_err(|e| format!("transmitted header: {e}"))
}

// ---------------------------------------------------------------------------------------------
// C07

fn gen_label_bytes(s: &mut Src) -> Vec<u8> {
    if let Some(w) = s.word(5, 70) {
        return w;
    }
    let n = match s.weighted(&[4, 4, 1]) {
        0 => s.range(0, 8),
        1 => *s.pick(&[63usize, 64, 62, 65, 0, 1, 127, 128, 255, 256]),
        _ => s.range(0, 70),
    };
    s.bytes(n)
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut x = DefaultHasher::new();
    t.hash(&mut x);
    x.finish()
}

fn c07_labels(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_label_bytes(s);
    let b = match s.below(4) {
        0 => gen_label_bytes(s),
        1 => a.clone(),
        2 => {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = s.below(b.len() as u64) as usize;
                b[i] ^= 1 << s.below(8);
            }
            b
        }
        _ => {
            let mut b = a.clone();
            if s.bool() {
                b.push(s.u8());
            } else {
                b.pop();
            }
            b
        }
    };
    ctx.note(|| format!("{:?} / {:?}", a.escape_ascii().to_string(), b.escape_ascii().to_string()));
    ctx.nontrivial = matches!(a.len(), 0 | 1 | 62 | 63 | 64 | 65) || a.len().abs_diff(b.len()) <= 1;
    for x in [&a, &b] {
        let want = if x.is_empty() {
            Err(Error::InvalidEmptyLabel)
        } else if x.len() > 63 {
            Err(Error::LabelTooLong)
        } else {
            Ok(())
        };
        let got = ULabel::try_new(x);
        ensure!(got.as_ref().map(|_| ()) == want.as_ref().map(|_| ()).map_err(|e| e), "a label of {} bytes gives {:?}", x.len(), got.as_ref().map(|_| ()));
        let n = no_panic(|| ULabel::new(x));
        ensure!(n.is_ok() == want.is_ok(), "Label::new with {} bytes: {:?}", x.len(), n.map(|_| ()));
        if let Ok(l) = got {
            ensure!(l.as_bytes() == &x[..], "label bytes changed");
            ensure!(n.unwrap().as_bytes() == &x[..], "label bytes changed by new");
            ensure!(format!("{l}") == x.escape_ascii().to_string(), "label text {l} for {:02x?}", x);
            ensure!(format!("{l:?}") == format!("\"{}\"", x.escape_ascii()), "label debug text {l:?}");
        }
        if let Ok(t) = std::str::from_utf8(x) {
            let p = t.parse::<ULabel>();
            ensure!(p.as_ref().map(|l| l.as_bytes().to_vec()).map_err(|e| *e) == want.map(|_| x.to_vec()), "parsing {t:?} as a label gives {p:?}");
            ctx.class("parsed as text");
        }
    }
    if let (Ok(x), Ok(y)) = (ULabel::try_new(&a), ULabel::try_new(&b)) {
        ctx.class(if a == b { "equal pair" } else { "different pair" });
        ensure!((x == y) == (a == b), "equality of labels {:02x?} {:02x?}", a, b);
        ensure!(x.cmp(&y) == a.cmp(&b), "order of labels {:02x?} {:02x?}", a, b);
        ensure!(x.partial_cmp(&y) == Some(a.cmp(&b)), "partial order of labels");
        if a == b {
            ensure!(h(&x) == h(&y), "equal labels hash differently");
        } else {
            ensure!(h(&x) != h(&y), "the hash of {:02x?} and {:02x?} is the same", a, b);
        }
        let c = x.clone();
        ensure!(c == x && c.as_bytes() == &a[..], "clone differs");
    }
    Ok(())
}

/// The parts a domain name text has; `None` for the empty text, which is left open.
fn ref_parse_name(t: &str) -> Option<Result<Name, Error>> {
    if t.is_empty() {
        return None;
    }
    if t == "." {
        return Some(Ok(vec![]));
    }
    let body = t.strip_suffix('.').unwrap_or(t);
    let mut out = Vec::new();
    for p in body.split('.') {
        if p.is_empty() {
            return Some(Err(Error::InvalidEmptyLabel));
        }
        if p.len() > 63 {
            return Some(Err(Error::LabelTooLong));
        }
        out.push(p.as_bytes().to_vec());
    }
    Some(Ok(out))
}

fn c07_text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = String::new();
    let mut parts = 0;
    if s.chance(1, 20) {
        // many labels
        let k = *s.pick(&[10usize, 50, 126, 127, 128, 129, 255, 256, 300]);
        for i in 0..k {
            t.push((b'a' + (i % 26) as u8) as char);
            t.push('.');
        }
    }
    while s.more(parts, 3, 9) {
        parts += 1;
        if let Some(Ok(w)) = s.word(5, 70).map(String::from_utf8) {
            t.push_str(&w);
            t.push('.');
            continue;
        }
        match s.weighted(&[5, 2, 2, 2, 1]) {
            0 => t.push_str(s.pick(&WORDS_T)),
            1 => {
                let n = *s.pick(&[63usize, 64, 62, 65, 1, 200]);
                t.extend(std::iter::repeat('x').take(n));
            }
            2 => {
                // multi-byte characters around the limit
                let n = *s.pick(&[31usize, 32, 1, 21, 20]);
                t.extend(std::iter::repeat(*s.pick(&['é', '日', '😀'])).take(n));
            }
            3 => {
                let n = s.range(0, 6);
                for _ in 0..n {
                    t.push(char::from_u32(s.below(0x3000) as u32).unwrap_or('?'));
                }
            }
            _ => t.push_str(s.pick(&["\\", "\\.", "\"", "\0", " ", "\n", "\\000", "．", "。"])),
        }
        if s.chance(5, 6) {
            t.push('.');
        }
    }
    ctx.note(|| format!("{t:?}"));
    let Some(want) = ref_parse_name(&t) else {
        ctx.class("empty");
        return Ok(());
    };
    ctx.nontrivial = t.contains('.') || t.len() >= 62;
    ctx.class(match &want {
        Ok(_) => "valid",
        Err(Error::LabelTooLong) => "overlong",
        Err(_) => "empty part",
    });
    let a = DomainName::from_str(&t).map(|d| mname(&d));
    let b = t.parse::<DomainName>().map(|d| mname(&d));
    ensure!(a == b, "from_str and parse differ for {t:?}");
    // With several invalid parts either error may be reported.
    let ok = match (&a, &want) {
        (Ok(x), Ok(y)) => x == y,
        (Err(Error::LabelTooLong), Err(_)) => t.split('.').any(|p| p.len() > 63),
        (Err(Error::InvalidEmptyLabel), Err(_)) => t.strip_suffix('.').unwrap_or(&t).split('.').any(|p| p.is_empty()),
        _ => false,
    };
    ensure!(ok, "{t:?} parses as {a:?}, expected {want:?}");
    if let Ok(x) = a {
        // A trailing dot makes no difference.
        let u = if t == "." { t.clone() } else if let Some(b) = t.strip_suffix('.') { b.to_string() } else { format!("{t}.") };
        let y = u.parse::<DomainName>().map(|d| mname(&d));
        ensure!(y.as_ref() == Ok(&x), "{t:?} and {u:?} parse differently");
    }
    Ok(())
}

const WORDS_T: [&str; 8] = ["a", "com", "_tcp", "Example", "", "b-c", "x1", "My Host"];

fn c07_build(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let n = match s.weighted(&[20, 1]) {
        0 => gen_name(s, &mut pool),
        _ => {
            // Nothing limits the length of a name that is only built and displayed.
            ctx.class("over 255 octets");
            let k = *s.pick(&[100usize, 126, 127, 128, 129, 150, 200, 254, 255, 256, 257, 300]);
            let w = *s.pick(&[1usize, 2, 5, 63]);
            (0..k).map(|i| vec![b'a' + (i % 26) as u8; w]).collect()
        }
    };
    ctx.note(|| show_name(&n));
    ctx.nontrivial = n.len() >= 2;
    let ls: Vec<ULabel> = n.iter().map(|l| ulabel(l)).collect();
    let pushed = uname(&n);
    let k = s.below(n.len() as u64 + 1) as usize;
    let mut ext = DomainName::from_iter(&ls[..k]);
    let tail: DomainName = ls[k..].iter().cloned().collect();
    if s.bool() {
        ext.extend(&tail);
    } else {
        ext.extend(tail.clone());
    }
    let mut ext2 = DomainName::ROOT;
    ext2.extend(ls.iter());
    let mut ext3 = DomainName::ROOT;
    ext3.extend(ls.clone());
    let coll: DomainName = ls.iter().collect();
    for (i, d) in [&ext, &ext2, &ext3, &coll, &pushed.clone()].into_iter().enumerate() {
        ensure!(*d == pushed && mname(d) == n, "construction {i} gives {d} instead of {pushed}");
        ensure!(d.labels().len() == n.len(), "label count");
    }
    let by_ref: Name = (&pushed).into_iter().map(|l| l.as_bytes().to_vec()).collect();
    let by_val: Name = pushed.clone().into_iter().map(|l| l.as_bytes().to_vec()).collect();
    ensure!(by_ref == n && by_val == n, "iteration of {pushed} yields other labels");
    let cow: std::borrow::Cow<'_, DomainName> = (&pushed).into();
    let cow2: std::borrow::Cow<'_, DomainName> = pushed.clone().into();
    ensure!(*cow == pushed && *cow2 == pushed, "borrowed name differs");
    // Display
    let t = pushed.to_string();
    let want = if n.is_empty() { ".".to_string() } else { n.iter().map(|l| format!("{}.", l.escape_ascii())).collect() };
    ensure!(t == want, "name displayed as {t:?} instead of {want:?}");
    ensure!(!format!("{pushed:?}").is_empty(), "debug text");
    let plain = n.iter().all(|l| l.iter().all(|c| (0x20..0x7f).contains(c) && !b".\\\"'".contains(c)));
    if plain {
        ctx.class("plain text");
        let p: DomainName = t.parse().map_err(|e| format!("{t:?} does not parse: {e:?}"))?;
        ensure!(p == pushed, "{t:?} parses as another name");
    }
    // Inequality
    let other = gen_name(s, &mut pool);
    ensure!((uname(&other) == pushed) == (other == n), "equality of names {} and {}", show_name(&other), show_name(&n));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C08

fn c08_rdata(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let names: Vec<Name> = (0..s.range(0, 3)).map(|_| gen_name(s, &mut pool)).collect();
    let mut head = Msg { id: 1, flags: QR, ..Default::default() };
    for n in &names {
        head.q.push(Q { name: n.clone(), qtype: 255, qclass: 1, qu: false });
    }
    // The record under test, compressed against what precedes it.
    let data = gen_rdata(s, &mut pool, true, 0);
    let before = RR { name: gen_name(s, &mut pool), class: 1, flush: false, ttl: 11, data: RData::A([9, 9, 9, 9]) };
    let rr = RR { name: gen_name(s, &mut pool), class: gen_class15(s), flush: s.bool(), ttl: s.edgy32(), data };
    let sec = s.below(3) as usize;
    head.rr[sec].push(before);
    head.rr[sec].push(rr.clone());
    let enc = gen_encoded(s, &head);
    let (st, en) = *enc.rdata.last().unwrap();
    let mut b = enc.bytes;
    let mut rtype = rr.data.type_code();
    let mut raw = b[st..en].to_vec();
    match s.weighted(&[4, 2, 2, 2, 2, 1, 2]) {
        0 => ctx.class("well-formed"),
        1 => {
            let n = s.below(raw.len() as u64 + 1) as usize;
            raw.truncate(n);
            ctx.class("cut");
        }
        2 => {
            let n = s.range(1, 6);
            raw.extend(s.bytes(n));
            ctx.class("extended");
        }
        3 => {
            if !raw.is_empty() {
                let i = s.below(raw.len() as u64) as usize;
                raw[i] = *s.pick(&[0u8, 1, 0x3f, 0x40, 0x80, 0xc0, 0xff, 5]);
            }
            ctx.class("mutated");
        }
        4 => {
            let n = s.range(0, 30);
            raw = s.bytes(n);
            ctx.class("random");
        }
        5 => {
            raw.clear();
            ctx.class("empty");
        }
        _ => {
            // The data of one type under another type.
            rtype = *s.pick(&SUPPORTED);
            ctx.class("other type");
        }
    }
    b.truncate(st - 10);
    b.extend_from_slice(&rtype.to_be_bytes());
    b.extend_from_slice(&(rr.class | if rr.flush { 0x8000 } else { 0 }).to_be_bytes());
    b.extend_from_slice(&rr.ttl.to_be_bytes());
    b.extend_from_slice(&(raw.len() as u16).to_be_bytes());
    b.extend_from_slice(&raw);
    // Bytes behind the record that would complete a value if they were read.
    let tail = Msg { rr: [vec![RR { name: vec![b"tail".to_vec()], class: 1, flush: false, ttl: 3, data: RData::A([1, 2, 3, 4]) }], vec![], vec![]], ..Default::default() };
    let mut te = encode(&tail, Compress::Never).bytes.split_off(12);
    if s.bool() {
        te.splice(0..0, []);
    }
    let with_tail = s.chance(4, 5);
    if with_tail {
        b.extend_from_slice(&te);
        let c = 6 + 2 * sec;
        b[c + 1] += 1;
    }
    ctx.note(|| format!("TYPE{rtype} data {} in {}", hex(&raw), hex(&b)));
    let r = ref_parse(&b).ok_or("no header")?;
    if r.err.is_some() || r.rr[sec].len() != 2 + with_tail as usize {
        eprintln!("HARNESS: c08 message malformed: {:?}", r.err);
        std::process::exit(2);
    }
    let want = ref_typed(&b, &r.rr[sec][1]);
    ctx.nontrivial = match &want {
        RefTyped::Unsupported => false,
        RefTyped::Value(_, left) => *left || raw.iter().any(|x| *x >= 0xc0),
        RefTyped::Bad(_) => true,
    };
    ctx.class(match &want {
        RefTyped::Unsupported => "unsupported",
        RefTyped::Value(_, false) => "value",
        RefTyped::Value(_, true) => "value with rest",
        RefTyped::Bad(_) => "malformed",
    });
    let w = walk(&b, &Plan::all(), &mut |_, _| Ok(()))?.map_err(|e| format!("{e:?}"))?;
    compare(&w, &r, &b, &Plan::all())?;
    compare_typed(&w.rr[sec][1].typed, &want).map_err(|e| format!("TYPE{rtype} data {}: {e}", hex(&raw)))?;
    compare_typed(&w.rr[sec][0].typed, &RefTyped::Value(RData::A([9, 9, 9, 9]), false))?;
    if with_tail {
        compare_typed(&w.rr[sec][2].typed, &RefTyped::Value(RData::A([1, 2, 3, 4]), false))?;
    }
    // The bytes behind the record have no influence on its view.
    let end = r.rr[sec][1].end;
    let mut b2 = b.clone();
    for x in &mut b2[end..] {
        *x = !*x;
    }
    let w2 = walk(&b2, &Plan::all(), &mut |_, _| Ok(()))?.map_err(|e| format!("{e:?}"))?;
    ensure!(w2.rr[sec].len() >= 2 && w2.rr[sec][1].typed == w.rr[sec][1].typed, "the typed view depends on bytes behind the record");
    Ok(())
}

fn c08_exact(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let data = gen_rdata(s, &mut pool, false, 0);
    let m = Msg { rr: [vec![RR { name: vec![], class: 1, flush: false, ttl: 0, data: data.clone() }], vec![], vec![]], ..Default::default() };
    let enc = encode(&m, Compress::Never);
    let (st, en) = enc.rdata[0];
    ctx.nontrivial = true;
    ctx.note(|| show_rdata(&data));
    let mut cuts: Vec<usize> = (0..=en - st).collect();
    if cuts.len() > 200 {
        s.shuffle(&mut cuts);
        cuts.truncate(100);
        cuts.push(en - st);
    }
    for n in cuts {
        ctx.steps += 1;
        // Cut data, followed by the rest of it as if it were another record.
        let mut b = enc.bytes.clone();
        b[st - 2..st].copy_from_slice(&(n as u16).to_be_bytes());
        let r = ref_parse(&b).ok_or("no header")?;
        let want = ref_typed(&b, &r.rr[0][0]);
        let mut dec = MessageDecoder::new(&b).map_err(|e| format!("{e:?}"))?.answers().map_err(|e| format!("{e:?}"))?;
        let rr = dec.next().ok_or("no record")?.map_err(|e| format!("{e:?}"))?;
        ensure!(rr.rdata() == &b[st..st + n], "raw data of {n} bytes: {}", hex(rr.rdata()));
        let got = match rr.as_enum() {
            None => None,
            Some(Ok(v)) => Some(Ok(model(&v)?)),
            Some(Err(e)) => Some(Err(e)),
        };
        compare_typed(&got, &want).map_err(|e| format!("{} cut to {n} of {} bytes: {e}", show_rdata(&data), en - st))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C09

fn ref_qtype_matches(q: u16, t: u16) -> bool {
    match q {
        252 | 254 => false,
        253 => (7..=9).contains(&t),
        255 => true,
        _ => q == t,
    }
}

fn related(s: &mut Src, v: u16) -> Vec<u16> {
    let mut o = vec![v, v.wrapping_add(1), v.wrapping_sub(1), v ^ 0x8000, v ^ 0x100, v & 0xff, v.swap_bytes(), 0xffff, 0x8000, 0xff00 | v & 0xff];
    for _ in 0..12 {
        o.push(s.u16());
    }
    o
}

fn c09_qtypes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let q = ctx_index(s, ctx) as u16;
    ctx.nontrivial = true;
    ctx.note(|| format!("query type {q}"));
    for t in (0..=270).chain(related(s, q)) {
        ctx.steps += 1;
        let got = qtype(q).matches(rtype(t));
        ensure!(got == ref_qtype_matches(q, t), "query type {q} and record type {t}: matches() is {got}");
    }
    // Codes survive the way over the wire unchanged.
    let mut buf = [0u8; 64];
    let m = Msg { q: vec![Q { name: vec![b"a".to_vec()], qtype: q, qclass: 1, qu: false }], ..Default::default() };
    let n = uw_encode(&m, &mut buf, 1, header_from(0, 0, [0; 4]), Finish::Finish).unwrap().map_err(|e| format!("{e:?}"))?;
    check_ref_parses_to(&buf[..n], &m)?;
    let mut d = MessageDecoder::new(&buf[..n]).map_err(|e| format!("{e:?}"))?;
    let dq = d.next().ok_or("no question")?.map_err(|e| format!("{e:?}"))?;
    ensure!(dq.qtype() == qtype(q), "query type {q} is read back as {:?}", dq.qtype());
    Ok(())
}

fn c09_qclasses(s: &mut Src, ctx: &mut Ctx) -> Res {
    let q = ctx_index(s, ctx) as u16;
    ctx.nontrivial = true;
    ctx.note(|| format!("query class {q}"));
    for t in (0..=260).chain(related(s, q)) {
        ctx.steps += 1;
        let got = qclass(q).matches(class(t));
        ensure!(got == (q == 255 || q == t), "query class {q} and class {t}: matches() is {got}");
    }
    Ok(())
}

macro_rules! table {
    ($ty:ident: $($n:ident = $v:expr),+ $(,)?) => { vec![$((stringify!($n), code_of($ty::$n), $v as u16, format!("{:?}", $ty::$n), format!("{}", $ty::$n))),+] };
}

fn code_of<T: bytemuck::Pod>(v: T) -> u16 {
    if std::mem::size_of::<T>() == 1 {
        bytemuck::cast::<T, u8>(v) as u16
    } else {
        bytemuck::cast::<T, u16>(v)
    }
}

fn constants() -> Vec<(&'static str, u16, u16, String, String)> {
    let mut v = table!(Opcode: QUERY = 0, IQUERY = 1, STATUS = 2, NOTIFY = 4, UPDATE = 5);
    v.extend(table!(RCode: NO_ERROR = 0, FORM_ERR = 1, SERV_FAIL = 2, NX_DOMAIN = 3, NOT_IMP = 4, REFUSED = 5, YX_DOMAIN = 6, YX_RR_SET = 7, NX_RR_SET = 8, NOT_AUTH = 9, NOT_ZONE = 10, DSO_TYPE_NI = 11, BAD_KEY = 17, BAD_TIME = 18, BAD_MODE = 19, BAD_NAME = 20, BAD_ALG = 21, BAD_TRUNC = 22, BAD_COOKIE = 23));
    v.extend(table!(Class: IN = 1, CS = 2, CH = 3, HS = 4));
    v.extend(table!(QClass: IN = 1, CS = 2, CH = 3, HS = 4, ANY = 255));
    v.extend(table!(Type: A = 1, NS = 2, MD = 3, MF = 4, CNAME = 5, SOA = 6, MB = 7, MG = 8, MR = 9, NULL = 10, WKS = 11, PTR = 12, HINFO = 13, MINFO = 14, MX = 15, TXT = 16, RP = 17, AFSDB = 18, SIG = 24, KEY = 25, AAAA = 28, LOC = 29, SRV = 33, NAPTR = 35, KX = 36, CERT = 37, DNAME = 39, APL = 42, DS = 43, SSHFP = 44, IPSECKEY = 45, RRSIG = 46, NSEC = 47, DNSKEY = 48, DHCID = 49, NSEC3 = 50, NSEC3PARAM = 51, TLSA = 52, SMIMEA = 53, HIP = 55, CDS = 59, CDNSKEY = 60, OPENPGPKEY = 61, CSYNC = 62, ZONEMD = 63, SVCB = 64, HTTPS = 65, EUI48 = 108, EUI64 = 109, TKEY = 249, TSIG = 250, URI = 256, CAA = 257));
    v.extend(table!(QType: A = 1, NS = 2, MD = 3, MF = 4, CNAME = 5, SOA = 6, MB = 7, MG = 8, MR = 9, NULL = 10, WKS = 11, PTR = 12, HINFO = 13, MINFO = 14, MX = 15, TXT = 16, RP = 17, AFSDB = 18, SIG = 24, KEY = 25, AAAA = 28, LOC = 29, SRV = 33, NAPTR = 35, KX = 36, CERT = 37, DNAME = 39, APL = 42, DS = 43, SSHFP = 44, IPSECKEY = 45, RRSIG = 46, NSEC = 47, DNSKEY = 48, DHCID = 49, NSEC3 = 50, NSEC3PARAM = 51, TLSA = 52, SMIMEA = 53, HIP = 55, CDS = 59, CDNSKEY = 60, OPENPGPKEY = 61, CSYNC = 62, ZONEMD = 63, SVCB = 64, HTTPS = 65, EUI48 = 108, EUI64 = 109, TKEY = 249, TSIG = 250, URI = 256, CAA = 257, AXFR = 252, MAILB = 253, MAILA = 254, ALL = 255));
    v
}

fn c09_constants(s: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    let all = constants();
    let (lo, hi) = if ctx_index(s, ctx) == 0 { (0, all.len()) } else { let i = s.below(all.len() as u64) as usize; (i, i + 1) };
    for (n, got, want, dbg, disp) in &all[lo..hi] {
        ensure!(got == want, "constant {n} has code {got} instead of {want}");
        ensure!(dbg == n && disp == n, "constant {n} (code {want}) is written {dbg} / {disp}");
        ctx.note(|| format!("{n} = {got}"));
        ctx.steps += 1;
    }
    ensure!(code_of(RCode::BAD_VERS) == 16 && code_of(RCode::BAD_SIG) == 16, "BAD_VERS/BAD_SIG");
    // Unknown codes must be told apart in text.
    let a = s.u16() | 0x4000;
    let b = s.u16() | 0x4000;
    for (x, y) in [(format!("{}", rtype(a)), format!("{}", rtype(b))), (format!("{}", qtype(a)), format!("{}", qtype(b))), (format!("{}", class(a)), format!("{}", class(b))), (format!("{}", qclass(a)), format!("{}", qclass(b)))] {
        ensure!((x == y) == (a == b), "codes {a:#x} and {b:#x} are written {x} and {y}");
    }
    Ok(())
}
