//! What the text form of network data must look like.

use crate::engine::Res;
use crate::model::*;
use crate::wire::{RefRR, RefTyped};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn name_text(n: &[Label]) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| format!("{}.", l.escape_ascii())).collect()
}

/// Printable ASCII, tabs as separators and the replacement character.
pub fn inert(t: &str) -> Res {
    match t.chars().find(|c| !matches!(c, ' '..='~' | '\t' | '\u{fffd}')) {
        Some(c) => Err(format!("the text contains {c:?}: {t:?}")),
        None => Ok(()),
    }
}

pub fn no_controls(t: &str) -> Res {
    match t.chars().find(|c| c.is_control()) {
        Some(c) => Err(format!("the text contains {c:?}: {t:?}")),
        None => Ok(()),
    }
}

const TYPES: &[(u16, &str)] = &[(1, "A"), (2, "NS"), (3, "MD"), (4, "MF"), (5, "CNAME"), (6, "SOA"), (7, "MB"), (8, "MG"), (9, "MR"), (10, "NULL"), (11, "WKS"), (12, "PTR"), (13, "HINFO"), (14, "MINFO"), (15, "MX"), (16, "TXT"), (17, "RP"), (18, "AFSDB"), (24, "SIG"), (25, "KEY"), (28, "AAAA"), (29, "LOC"), (33, "SRV"), (35, "NAPTR"), (36, "KX"), (37, "CERT"), (39, "DNAME"), (42, "APL"), (43, "DS"), (44, "SSHFP"), (45, "IPSECKEY"), (46, "RRSIG"), (47, "NSEC"), (48, "DNSKEY"), (49, "DHCID"), (50, "NSEC3"), (51, "NSEC3PARAM"), (52, "TLSA"), (53, "SMIMEA"), (55, "HIP"), (59, "CDS"), (60, "CDNSKEY"), (61, "OPENPGPKEY"), (62, "CSYNC"), (63, "ZONEMD"), (64, "SVCB"), (65, "HTTPS"), (108, "EUI48"), (109, "EUI64"), (249, "TKEY"), (250, "TSIG"), (256, "URI"), (257, "CAA")];

fn column(col: &str, code: u16, name: Option<&str>) -> bool {
    match name {
        Some(n) => col == n,
        // However it is spelled: the number must be there.
        None => col.to_ascii_lowercase().contains(&format!("{code:x}")) || col.contains(&code.to_string()),
    }
}

fn type_column(col: &str, t: u16, query: bool) -> bool {
    let name = TYPES.iter().find(|x| x.0 == t).map(|x| x.1);
    let q = match t {
        252 => Some("AXFR"),
        253 => Some("MAILB"),
        254 => Some("MAILA"),
        255 => Some("ALL"),
        _ => None,
    };
    column(col, t, name.or(if query { q } else { None }))
}

fn class_column(col: &str, c: u16, query: bool) -> bool {
    let name = match c {
        1 => Some("IN"),
        2 => Some("CS"),
        3 => Some("CH"),
        4 => Some("HS"),
        255 if query => Some("ANY"),
        _ => None,
    };
    column(col, c, name)
}

/// Checks that the columns satisfy the tests, in any order.
fn columns(cols: &[&str], tests: &[(&str, &dyn Fn(&str) -> bool)]) -> Res {
    let mut used = vec![false; cols.len()];
    // Exact matching by backtracking over at most 3 columns.
    fn go(i: usize, cols: &[&str], tests: &[(&str, &dyn Fn(&str) -> bool)], used: &mut Vec<bool>) -> bool {
        if i == tests.len() {
            return true;
        }
        for k in 0..cols.len() {
            if !used[k] && tests[i].1(cols[k]) {
                used[k] = true;
                if go(i + 1, cols, tests, used) {
                    return true;
                }
                used[k] = false;
            }
        }
        false
    }
    if cols.len() == tests.len() && go(0, cols, tests, &mut used) {
        return Ok(());
    }
    let miss: Vec<&str> = tests.iter().filter(|t| !cols.iter().any(|c| t.1(c))).map(|t| t.0).collect();
    Err(format!("columns {cols:?} (missing: {miss:?})"))
}

pub fn check_q_text(t: &str, q: &Q) -> Res {
    inert(t)?;
    let owner = name_text(&q.name);
    let rest = t.strip_prefix(owner.as_str()).and_then(|r| r.strip_prefix('\t')).ok_or_else(|| format!("text {t:?} does not start with the name {owner:?}"))?;
    let cols: Vec<&str> = rest.split('\t').collect();
    columns(&cols, &[("class", &|c| class_column(c, q.qclass, true)), ("type", &|c| type_column(c, q.qtype, true))]).map_err(|e| format!("question {}: {e}", show_q(q)))
}

/// The fields must come in order, with only whitespace between them.
fn fields(mut t: &str, want: &[String]) -> Res {
    let all = t;
    for (i, w) in want.iter().enumerate() {
        // At least one separator; the field itself may start with a blank.
        let blanks = t.bytes().take_while(|b| matches!(b, b' ' | b'\t')).count();
        let k = (i.min(1)..=blanks).find(|k| t[*k..].strip_prefix(w.as_str()).is_some_and(|r| r.is_empty() || r.starts_with([' ', '\t'])));
        let k = k.ok_or_else(|| format!("field {w:?} expected at {t:?} of {all:?}"))?;
        t = &t[k + w.len()..];
    }
    if !t.trim().is_empty() {
        return Err(format!("left over text {t:?} of {all:?}"));
    }
    Ok(())
}

/// TXT strings: a graphic byte is shown as itself, any other as a replacement character.
fn txt_text(t: &str, entries: &[Vec<u8>]) -> Res {
    let mut it = t.chars().peekable();
    for (i, e) in entries.iter().enumerate() {
        if i != 0 {
            match it.next() {
                Some(' ' | '\t') => {}
                c => return Err(format!("{c:?} between TXT strings of {t:?}")),
            }
        }
        for b in e {
            let c = it.next();
            let ok = if b.is_ascii_graphic() { c == Some(*b as char) } else { c == Some('\u{fffd}') || *b == b' ' && c == Some(' ') };
            if !ok {
                return Err(format!("byte {b:#x} of TXT string {i} is shown as {c:?} in {t:?}"));
            }
        }
    }
    match it.next() {
        None => Ok(()),
        c => Err(format!("{c:?} after the TXT strings of {t:?}")),
    }
}

pub fn check_data_text(t: &str, d: &RData) -> Res {
    inert(t)?;
    let s = |x: &u16| x.to_string();
    let w = match d {
        RData::A(a) => vec![Ipv4Addr::from(*a).to_string()],
        RData::Aaaa(a) => {
            return match t.trim().parse::<Ipv6Addr>() {
                Ok(x) if x.octets() == *a => Ok(()),
                _ => Err(format!("address {a:x?} is shown as {t:?}")),
            }
        }
        RData::Cname(n) | RData::Ns(n) | RData::Ptr(n) => vec![name_text(n)],
        RData::Mx(p, n) => vec![s(p), name_text(n)],
        RData::Srv(a, b, c, n) => vec![s(a), s(b), s(c), name_text(n)],
        RData::Soa(a, b, x) => {
            let mut v = vec![name_text(a), name_text(b)];
            v.extend(x.iter().map(|x| x.to_string()));
            v
        }
        RData::Txt(v) => return txt_text(t, v),
        RData::Raw(_, raw) => {
            let digits: String = t.chars().filter(|c| c.is_ascii_hexdigit()).collect();
            let want: String = raw.iter().map(|b| format!("{b:02x}")).collect();
            return if digits.eq_ignore_ascii_case(&want) { Ok(()) } else { Err(format!("data {want} is shown as {t:?}")) };
        }
    };
    fields(t, &w)
}

pub fn check_rr_text(t: &str, rr: &RefRR, typed: &RefTyped) -> Res {
    inert(t)?;
    let owner = name_text(&rr.name);
    let rest = t.strip_prefix(owner.as_str()).and_then(|r| r.strip_prefix('\t')).ok_or_else(|| format!("text {t:?} does not start with the name {owner:?}"))?;
    let mut it = rest.splitn(4, '\t');
    let cols: Vec<&str> = it.by_ref().take(3).collect();
    let data = it.next().ok_or_else(|| format!("text {t:?} has no data column"))?;
    columns(&cols, &[("ttl", &|c| c == rr.ttl.to_string()), ("class", &|c| class_column(c, rr.class, false)), ("type", &|c| type_column(c, rr.rtype, false))])
        .map_err(|e| format!("record {} type {} class {:#x} ttl {}: {e}", show_name(&rr.name), rr.rtype, rr.class, rr.ttl))?;
    match typed {
        RefTyped::Unsupported => check_data_text(data, &RData::Raw(rr.rtype, rr.raw.clone())),
        RefTyped::Value(v, false) => check_data_text(data, v),
        // Left-over bytes: the value or an error text.
        RefTyped::Value(_, true) => Ok(()),
        RefTyped::Bad(_) if data.trim().is_empty() => Err(format!("malformed data leaves no trace in {t:?}")),
        RefTyped::Bad(_) => Ok(()),
    }
}
