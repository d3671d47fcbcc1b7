//! Dictionary of literals from the sources under test.
//!
//! Like the token dictionaries of coverage-guided fuzzers: string and integer literals found in the
//! current sources that are not in the committed baseline (`harness/dict_base.txt`) are offered to
//! the generators as labels, keys, prefixes, numbers, lengths and counts. This only shifts the
//! odds of inputs that could be generated anyway; no verdict depends on it. The words used are
//! stored in the replay file, so that a replay decodes the same way whatever the sources say.

use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default, Clone, Debug)]
pub struct Dict {
    pub words: Vec<Vec<u8>>,
    pub ints: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
static EMPTY: Dict = Dict { words: Vec::new(), ints: Vec::new() };

pub fn get() -> &'static Dict {
    DICT.get().unwrap_or(&EMPTY)
}

pub fn set(d: Dict) {
    let _ = DICT.set(d);
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tok {
    Str(Vec<u8>),
    Int(u64),
}

/// String, character and integer literals of Rust source text, comments left out.
pub fn literals(src: &str) -> Vec<Tok> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let c = b[i];
        let rest = &b[i..];
        if rest.starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if rest.starts_with(b"/*") {
            let mut depth = 0;
            while i < b.len() {
                if b[i..].starts_with(b"/*") {
                    depth += 1;
                    i += 2;
                } else if b[i..].starts_with(b"*/") {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if c == b'"' {
            i += 1;
            let mut v = Vec::new();
            while i < b.len() && b[i] != b'"' {
                i = unescape(b, i, &mut v);
            }
            i += 1;
            out.push(Tok::Str(v));
        } else if c == b'\'' {
            // A character, or a lifetime.
            let close = if b.get(i + 1) == Some(&b'\\') {
                (i + 3..(i + 14).min(b.len())).find(|&k| b[k] == b'\'')
            } else {
                (i + 2..(i + 6).min(b.len())).find(|&k| b[k] == b'\'').filter(|&k| k == i + 2 || b[i + 1] >= 0x80)
            };
            match close {
                Some(k) => {
                    let mut v = Vec::new();
                    let mut j = i + 1;
                    while j < k {
                        j = unescape(b, j, &mut v);
                    }
                    out.push(Tok::Str(v));
                    i = k + 1;
                }
                None => i += 1,
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < b.len() && ident(b[i]) {
                i += 1;
            }
            let t: String = src[start..i].chars().filter(|c| *c != '_').collect();
            let (digits, radix) = match t.get(..2) {
                Some("0x") => (&t[2..], 16),
                Some("0b") => (&t[2..], 2),
                Some("0o") => (&t[2..], 8),
                _ => (&t[..], 10),
            };
            // Without a type suffix.
            let end = digits.find(|c: char| c == 'u' || c == 'i' || !c.is_digit(radix)).unwrap_or(digits.len());
            if let Ok(n) = u64::from_str_radix(&digits[..end], radix) {
                out.push(Tok::Int(n));
            }
        } else if ident(c) {
            let start = i;
            while i < b.len() && ident(b[i]) {
                i += 1;
            }
            // Raw strings.
            if matches!(&b[start..i], b"r" | b"br" | b"cr") {
                let mut j = i;
                while j < b.len() && b[j] == b'#' {
                    j += 1;
                }
                if b.get(j) == Some(&b'"') {
                    let hashes = j - i;
                    let body = j + 1;
                    let mut k = body;
                    while k < b.len() && !(b[k] == b'"' && b[k + 1..].iter().take(hashes).filter(|c| **c == b'#').count() == hashes) {
                        k += 1;
                    }
                    out.push(Tok::Str(b[body..k.min(b.len())].to_vec()));
                    i = k + 1 + hashes;
                }
            }
        } else {
            i += 1;
        }
    }
    out
}

fn unescape(b: &[u8], i: usize, v: &mut Vec<u8>) -> usize {
    if b[i] != b'\\' {
        v.push(b[i]);
        return i + 1;
    }
    match b.get(i + 1) {
        Some(b'n') => v.push(b'\n'),
        Some(b'r') => v.push(b'\r'),
        Some(b't') => v.push(b'\t'),
        Some(b'0') => v.push(0),
        Some(b'x') => {
            let h = std::str::from_utf8(b.get(i + 2..i + 4).unwrap_or(b"")).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
            v.push(h.unwrap_or(b'?'));
            return i + 4;
        }
        Some(b'u') => {
            let end = (i..b.len()).find(|&k| b[k] == b'}').unwrap_or(b.len() - 1);
            let h = std::str::from_utf8(b.get(i + 3..end).unwrap_or(b"")).unwrap_or("");
            if let Some(c) = u32::from_str_radix(h, 16).ok().and_then(char::from_u32) {
                v.extend(c.to_string().bytes());
            }
            return end + 1;
        }
        Some(b'\n') => {}
        Some(c) => v.push(*c),
        None => {}
    }
    i + 2
}

const SOURCES: [&str; 2] = ["src", "uwuhi-async/src"];

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

fn count(toks: Vec<Tok>) -> BTreeMap<Tok, u64> {
    let mut m = BTreeMap::new();
    for t in toks {
        *m.entry(t).or_default() += 1;
    }
    m
}

fn current() -> BTreeMap<Tok, u64> {
    let mut files = Vec::new();
    // Only for experiments on scratch copies is this another directory.
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    for d in SOURCES {
        walk(&std::path::Path::new(&root).join(d), &mut files);
    }
    files.sort();
    let mut toks = Vec::new();
    for f in files {
        if let Ok(t) = std::fs::read(&f) {
            toks.extend(literals(&String::from_utf8_lossy(&t)));
        }
    }
    count(toks)
}

/// The committed form of the baseline: one literal per line, with its number of uses.
pub fn baseline_text() -> String {
    let mut s = String::new();
    for (t, n) in current() {
        match t {
            Tok::Int(v) => s.push_str(&format!("{n} i {v}\n")),
            Tok::Str(v) => s.push_str(&format!("{n} s {}\n", hex(&v))),
        }
    }
    s
}

fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{b:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn baseline() -> BTreeMap<Tok, u64> {
    let mut m = BTreeMap::new();
    for l in include_str!("../dict_base.txt").lines() {
        let mut f = l.splitn(3, ' ');
        let (Some(n), Some(k), v) = (f.next().and_then(|n| n.parse().ok()), f.next(), f.next().unwrap_or("")) else { continue };
        match k {
            "i" => {
                if let Ok(v) = v.parse() {
                    m.insert(Tok::Int(v), n);
                }
            }
            _ => {
                m.insert(Tok::Str(unhex(v)), n);
            }
        }
    }
    m
}

/// Literals used more often than in the baseline.
pub fn load() -> Dict {
    let base = baseline();
    let mut d = Dict::default();
    for (t, n) in current() {
        if n <= base.get(&t).copied().unwrap_or(0) {
            continue;
        }
        match t {
            Tok::Int(v) => {
                if v > 1 {
                    d.ints.push(v);
                }
            }
            Tok::Str(v) => {
                if v.is_empty() || v.len() > 255 || v.contains(&b'{') {
                    continue;
                }
                // Byte and character literals compare with numbers, too.
                if v.len() == 1 {
                    d.ints.push(v[0] as u64);
                }
                for part in v.split(|b| *b == b'.').filter(|p| !p.is_empty() && p.len() < v.len()) {
                    d.words.push(part.to_vec());
                }
                d.words.push(v);
            }
        }
    }
    d.words.sort();
    d.words.dedup();
    d.ints.sort();
    d.ints.dedup();
    d.words.truncate(40);
    d.ints.truncate(40);
    d
}

/// For the replay file.
pub fn to_json() -> String {
    let d = get();
    let w: Vec<String> = d.words.iter().map(|w| format!("\"{}\"", hex(w))).collect();
    let i: Vec<String> = d.ints.iter().map(|i| i.to_string()).collect();
    format!("\"dict_words\": [{}],\n \"dict_ints\": [{}]", w.join(","), i.join(","))
}

pub fn from_json(text: &str) -> Dict {
    let list = |k: &str| -> Vec<String> {
        let Some(i) = text.find(&format!("\"{k}\": [")) else { return vec![] };
        let body: String = text[i + k.len() + 5..].chars().take_while(|c| *c != ']').collect();
        body.split(',').map(|x| x.trim().trim_matches('"').to_string()).filter(|x| !x.is_empty()).collect()
    };
    Dict {
        words: list("dict_words").iter().map(|h| unhex(h)).collect(),
        ints: list("dict_ints").iter().filter_map(|x| x.parse().ok()).collect(),
    }
}
