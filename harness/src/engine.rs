//! Choice-sequence property engine: tapes, search, shrinking, replay, evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::{Relaxed, SeqCst}};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// PRNG (xoshiro256** seeded by splitmix64): a pure function of the seed.

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

fn fnv(h: &mut u64, bytes: &[u8]) {
    for b in bytes {
        *h ^= *b as u64;
        *h = h.wrapping_mul(0x100_0000_01b3);
    }
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    fnv(&mut h, &seed.to_le_bytes());
    fnv(&mut h, prop.as_bytes());
    fnv(&mut h, b"/");
    fnv(&mut h, sub.as_bytes());
    fnv(&mut h, &idx.to_le_bytes());
    splitmix(&mut h)
}

// ---------------------------------------------------------------------------------------------
// The source of choices.

enum Mode {
    Record(Rng),
    Replay(Vec<u64>),
    Bytes(Vec<u8>, usize),
}

/// Source of all random decisions of a case.
pub struct Src {
    mode: Mode,
    /// The choices actually made, in order.
    pub used: Vec<u64>,
}

const MAX_CHOICES: usize = 400_000;

impl Src {
    pub fn record(seed: u64) -> Self {
        Src { mode: Mode::Record(Rng::new(seed)), used: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(tape), used: Vec::new() }
    }
    pub fn bytes_src(data: &[u8]) -> Self {
        Src { mode: Mode::Bytes(data.to_vec(), 0), used: Vec::new() }
    }

    fn tape(self) -> Vec<u64> {
        match self.mode {
            Mode::Replay(t) => t,
            _ => self.used,
        }
    }

    /// Uniform choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let i = self.used.len();
        let v = if i >= MAX_CHOICES {
            0
        } else {
            match &mut self.mode {
                Mode::Record(r) => {
                    let x = r.next();
                    if n == u64::MAX { x.min(n - 1) } else { ((x as u128 * n as u128) >> 64) as u64 }
                }
                Mode::Replay(t) => t.get(i).copied().unwrap_or(0).min(n - 1),
                Mode::Bytes(d, p) => {
                    let w = if n <= 1 { 0 } else if n <= 1 << 8 { 1 } else if n <= 1 << 16 { 2 } else if n <= 1 << 32 { 4 } else { 8 };
                    let mut v = 0u64;
                    for k in 0..w {
                        v |= (d.get(*p + k).copied().unwrap_or(0) as u64) << (8 * k);
                    }
                    *p += w;
                    v % n
                }
            }
        };
        self.used.push(v);
        v
    }
    /// A choice that search sets to `v` and replay takes from the tape.
    pub fn forced(&mut self, v: u64) -> u64 {
        let i = self.used.len();
        let v = match &self.mode {
            Mode::Record(_) => v,
            Mode::Replay(t) => t.get(i).copied().unwrap_or(0),
            Mode::Bytes(..) => return self.below(1 << 32),
        };
        self.used.push(v);
        v
    }
    /// Whether a byte source has run dry (fuzz mode only).
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Bytes(d, p) => *p >= d.len(),
            _ => self.used.len() >= MAX_CHOICES,
        }
    }
    pub fn u8(&mut self) -> u8 {
        match self.dict_int(0, 255, 10) {
            Some(v) => v as u8,
            None => self.below(256) as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.dict_int(0, 0xffff, 8) {
            Some(v) => v as u16,
            None => self.below(1 << 16) as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.dict_int(0, 0xffff_ffff, 8) {
            Some(v) => v as u32,
            None => self.below(1 << 32) as u32,
        }
    }
    /// `lo..=hi`; shrinks towards `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        match self.dict_int(lo as u64, hi as u64, 6) {
            Some(v) => v as usize,
            None => lo + self.below((hi - lo + 1) as u64) as usize,
        }
    }
    /// Once in `den` draws, a number near one of the dictionary's in `lo..=hi`.
    fn dict_int(&mut self, lo: u64, hi: u64, den: u64) -> Option<u64> {
        let d = &crate::dict::get().ints;
        if d.is_empty() || hi - lo < 2 {
            return None;
        }
        let xs: Vec<u64> = d.iter().copied().filter(|v| (lo..=hi).contains(v)).collect();
        if xs.is_empty() || self.below(den) != den - 1 {
            return None;
        }
        let v = *self.pick(&xs);
        Some(match self.below(4) {
            0 | 1 => v,
            2 => (v + 1).min(hi),
            _ => v.saturating_sub(1).max(lo),
        })
    }
    /// Once in `den` draws, a text of at most `max` bytes made from one of the dictionary's words.
    pub fn word(&mut self, den: u64, max: usize) -> Option<Vec<u8>> {
        let d = &crate::dict::get().words;
        if d.is_empty() || self.below(den) != den - 1 {
            return None;
        }
        let w = self.pick(d).clone();
        let mut w = match self.below(8) {
            0..=3 => w,
            4 => w.iter().map(|b| if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() }).collect(),
            5 => {
                let n = self.below(4) as usize + 1;
                [w, self.bytes(n)].concat()
            }
            6 => {
                let n = self.below(4) as usize + 1;
                [self.bytes(n), w].concat()
            }
            _ => {
                let k = self.below(w.len() as u64) as usize;
                let x = *self.pick(b"aA_-.0\0");
                [&w[..k], &[x], &w[k..]].concat()
            }
        };
        w.truncate(max);
        Some(w)
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // drawn so that 0 (the shrink target) means false
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Index chosen with the given weights; shrinks towards index 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Number of elements, geometric-ish around `avg`, at most `max`. Each element costs one
    /// "go on" choice, so that deleting a block of choices deletes elements.
    pub fn more(&mut self, count: usize, avg: u64, max: usize) -> bool {
        let near = crate::dict::get().ints.iter().copied().find(|v| (count as u64) < *v && *v <= max as u64);
        let avg = near.map_or(avg, |v| avg.max(v / 2));
        count < max && self.below(avg + 1) != 0
    }
    /// `n` bytes. Long runs are expanded from one choice.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 80 {
            (0..n).map(|_| self.u8()).collect()
        } else {
            let s = self.below(1 << 32);
            if s == 0 {
                return vec![b'a'; n];
            }
            let mut r = Rng::new(s);
            (0..n).map(|_| r.next() as u8).collect()
        }
    }
    /// An integer with boundary values over-represented.
    pub fn edgy16(&mut self) -> u16 {
        if let Some(v) = self.dict_int(0, 0xffff, 4) {
            return v as u16;
        }
        match self.below(4) {
            0 => *self.pick(&[0u16, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0x8001, 0xc000, 0xfffe, 0xffff]),
            1 => self.below(256) as u16,
            2 => 1 << self.below(16),
            _ => self.u16(),
        }
    }
    pub fn edgy32(&mut self) -> u32 {
        if let Some(v) = self.dict_int(0, 0xffff_ffff, 4) {
            return v as u32;
        }
        match self.below(4) {
            0 => *self.pick(&[0u32, 1, 120, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff]),
            1 => self.below(65536) as u32,
            2 => 1 << self.below(32),
            _ => self.u32(),
        }
    }
    /// Fisher-Yates; the all-zero tape leaves the order alone.
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len() {
            let j = i + self.below((xs.len() - i) as u64) as usize;
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Per-case context.

#[derive(Default)]
pub struct Ctx {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub want_note: bool,
    pub note: String,
    /// Units of work inside the case (buffer sizes tried, packets sent, ...).
    pub steps: u64,
    pub inconclusive: bool,
    pub thorough: bool,
    /// Index of the case; exhaustive sub-checks enumerate by it (through `Src::forced`).
    pub index: u64,
}

impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note && self.note.len() < 6000 {
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            let s = f();
            self.note.push_str(&s);
        }
    }
}

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)+) => { if !$c { return Err(format!($($arg)+)); } };
}

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    pub net: bool,
}

impl Sub {
    /// Whether the cases are an enumeration by index.
    pub fn exhaustive(&self) -> bool {
        matches!(self.name, "all_flag_words" | "qtypes" | "qclasses" | "constants" | "counts")
    }
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub assumptions: Vec<&'static str>,
}

// ---------------------------------------------------------------------------------------------
// Panic capture, memory guard.

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panicked at {loc}: {msg}");
        if std::env::var_os("VERIF_TRACE_PANICS").is_some() {
            eprintln!("{text}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

const LIVE_LIMIT: isize = 1 << 30;

pub struct GuardAlloc;

unsafe impl GlobalAlloc for GuardAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        track(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        track(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        track(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        track(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Bytes this thread holds on the heap (since the case began).
pub fn live_bytes() -> isize {
    LIVE.with(|l| l.get())
}

static COUNTING: AtomicBool = AtomicBool::new(false);
static HELD: AtomicI64 = AtomicI64::new(0);
thread_local! { static UNCOUNTED: Cell<bool> = const { Cell::new(false) }; }

/// Bytes all threads but the uncounted ones hold on the heap, since the first call. It may be negative.
pub fn held_bytes() -> i64 {
    COUNTING.store(true, SeqCst);
    HELD.load(SeqCst)
}

/// What this thread does with the heap does not count from here on.
pub fn uncounted() {
    UNCOUNTED.with(|u| u.set(true));
}

fn track(by: isize) {
    if COUNTING.load(Relaxed) && !UNCOUNTED.try_with(|u| u.get()).unwrap_or(false) {
        HELD.fetch_add(by as i64, Relaxed);
    }
    let over = LIVE
        .try_with(|c| {
            let v = c.get() + by;
            c.set(v);
            v > LIVE_LIMIT && by > 0
        })
        .unwrap_or(false);
    if over && GUARDED.try_with(|g| g.replace(false)).unwrap_or(false) {
        give_up("memory", "the case holds more than 1 GiB");
    }
}

// ---------------------------------------------------------------------------------------------
// Watchdog.

struct Slot {
    clock: AtomicI64,
    base_ns: AtomicU64,
    idx: AtomicU64,
    active: AtomicBool,
}

struct Active {
    prop: &'static str,
    sub: &'static str,
    seed: u64,
    tier: String,
}

static ACTIVE: Mutex<Option<Active>> = Mutex::new(None);
thread_local! { static MY_IDX: Cell<u64> = const { Cell::new(u64::MAX) }; }

fn clock_ns(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn thread_cpu() -> Duration {
    Duration::from_nanos(clock_ns(libc::CLOCK_THREAD_CPUTIME_ID))
}

/// A case that cannot be brought to an end: the code under test gives no result where the property
/// wants one. Ordinary cases stay below these limits by several orders of magnitude.
fn give_up(what: &str, text: &str) -> ! {
    give_up_idx(what, text, MY_IDX.try_with(|i| i.get()).unwrap_or(u64::MAX))
}

/// What ended a case that took the process with it: a stack overflow or an abort. The signal handler
/// only leaves a mark; a thread that waits for it does the rest.
static CRASH: AtomicU64 = AtomicU64::new(0);
static CRASH_IDX: AtomicU64 = AtomicU64::new(u64::MAX);

extern "C" fn on_crash(signal: libc::c_int) {
    if CRASH.compare_exchange(0, signal as u64, SeqCst, SeqCst).is_ok() {
        CRASH_IDX.store(MY_IDX.try_with(|i| i.get()).unwrap_or(u64::MAX), SeqCst);
    }
    loop {
        unsafe { libc::pause() };
    }
}

fn crashed() -> Option<(String, u64)> {
    let n = CRASH.load(SeqCst);
    (n != 0).then(|| {
        std::thread::sleep(Duration::from_millis(20));
        (format!("signal {n}: {}", if n == libc::SIGABRT as u64 { "the process was aborted" } else { "memory fault, as from a stack overflow" }), CRASH_IDX.load(SeqCst))
    })
}

/// Stack overflows and aborts end up in `on_crash` (on the alternate stack std gives every thread).
pub fn install_crash_handler() {
    unsafe {
        for n in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(n, &a, std::ptr::null_mut());
        }
    }
}

/// The stack of the threads that run cases: what Rust gives a thread by default.
const STACK: usize = 2 << 20;

fn give_up_idx(what: &str, text: &str, idx: u64) -> ! {
    let (prop, sub, seed, tier) = {
        let g = ACTIVE.lock().unwrap_or_else(|e| e.into_inner());
        match &*g {
            Some(a) => (a.prop, a.sub, a.seed, a.tier.clone()),
            None => {
                println!("{what} limit reached outside a case");
                unsafe { libc::_exit(2) }
            }
        }
    };
    let path = format!("replays/{prop}-{sub}.json");
    let _ = std::fs::create_dir_all("replays");
    let _ = std::fs::write(
        &path,
        format!("{{\"property\":\"{prop}\",\"sub\":\"{sub}\",\"seed\":{seed},\"index\":{idx},\"why\":\"{what}: {text}\",\n {}}}\n", crate::dict::to_json()),
    );
    println!("{what} guard in {prop}/{sub} case {idx} (seed {seed}): {text}");
    let ev = format!("{{\"property\":\"{prop}\",\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":1,\"rule\":\"run ended by the {what} guard\",\"samples\":[\"{sub} case {idx}\"]}},\"wall_s\":0,\"violations\":1}}\n", idx.saturating_add(1).min(1 << 40));
    let _ = std::fs::create_dir_all("evidence");
    let _ = std::fs::write(format!("evidence/{prop}.json"), ev);
    println!("VIOLATION property={prop} replay={path}");
    unsafe { libc::_exit(1) }
}

/// CPU time (not wall time) one in-memory case may use. Ordinary cases need micro- to milliseconds.
const CASE_CPU_LIMIT: u64 = 30_000_000_000;
const NET_WALL_LIMIT: Duration = Duration::from_secs(400);

// ---------------------------------------------------------------------------------------------
// Running.

pub struct Failure {
    pub sub: &'static str,
    pub index: u64,
    pub tape: Vec<u64>,
    pub original_len: usize,
    pub error: String,
    pub note: String,
    pub shrinks: u64,
}

#[derive(Default)]
pub struct SubStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
    pub steps: u64,
    pub inconclusive: u64,
    pub unconfirmed: Vec<String>,
    pub max_case_ms: u64,
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    LIVE.with(|l| l.set(0));
    GUARDED.with(|g| g.set(true));
    crate::logcap::reset();
    let r = match panic::catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    };
    GUARDED.with(|g| g.set(false));
    r
}

fn tape_hash(t: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for v in t {
        fnv(&mut h, &v.to_le_bytes());
    }
    h
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8)
}

fn run_sub(p: &Prop, sub: &Sub, seed: u64, n: u64, tier: &str) -> (SubStats, Option<Failure>) {
    *ACTIVE.lock().unwrap() = Some(Active { prop: p.id, sub: sub.name, seed, tier: tier.into() });
    let nw = if sub.net { crate::net::net_workers() } else { workers() };
    let next = Arc::new(AtomicU64::new(0));
    let min_fail = Arc::new(AtomicU64::new(u64::MAX));
    let slots: Vec<Arc<Slot>> = (0..nw)
        .map(|_| Arc::new(Slot { clock: AtomicI64::new(0), base_ns: AtomicU64::new(0), idx: AtomicU64::new(0), active: AtomicBool::new(false) }))
        .collect();
    let done = Arc::new(AtomicBool::new(false));
    let mon = {
        let (slots, done, net) = (slots.clone(), done.clone(), sub.net);
        std::thread::spawn(move || {
            let mut since: Vec<(u64, Instant)> = slots.iter().map(|_| (u64::MAX, Instant::now())).collect();
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                if let Some((why, idx)) = crashed() {
                    // Threads started by a case do not know its number.
                    let any = || slots.iter().filter(|s| s.active.load(SeqCst)).map(|s| s.idx.load(SeqCst)).min().unwrap_or(0);
                    give_up_idx("crash", &why, if idx == u64::MAX { any() } else { idx });
                }
                for (s, w) in slots.iter().zip(since.iter_mut()) {
                    if !s.active.load(SeqCst) {
                        w.0 = u64::MAX;
                        continue;
                    }
                    let idx = s.idx.load(SeqCst);
                    let base = s.base_ns.load(SeqCst);
                    let cpu = clock_ns(s.clock.load(SeqCst) as libc::clockid_t).saturating_sub(base);
                    if s.idx.load(SeqCst) != idx || !s.active.load(SeqCst) {
                        continue;
                    }
                    if cpu > CASE_CPU_LIMIT {
                        give_up_idx("cpu", "one case used more than 30 s of CPU time", idx);
                    }
                    if net {
                        if w.0 != idx {
                            *w = (idx, Instant::now());
                        } else if w.1.elapsed() > NET_WALL_LIMIT {
                            println!("a network case did not end within its wall-clock limit");
                            give_up_idx_err(idx);
                        }
                    }
                }
            }
        })
    };
    let mut hs = Vec::new();
    for slot in slots.iter().cloned() {
        let (sub, next, min_fail, pid, thorough) = (sub.clone(), next.clone(), min_fail.clone(), p.id, tier == "thorough");
        hs.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    if sub.net {
                        crate::net::worker_init();
                    }
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    slot.clock.store(clk as i64, SeqCst);
                    let mut st = SubStats::default();
                    let mut fails: Vec<(u64, Vec<u64>, String)> = Vec::new();
                    loop {
                        let idx = next.fetch_add(1, SeqCst);
                        if idx >= n || idx > min_fail.load(SeqCst) {
                            break;
                        }
                        MY_IDX.with(|m| m.set(idx));
                        let cs = case_seed(seed, pid, sub.name, idx);
                        let mut src = Src::record(cs);
                        let mut ctx = Ctx { want_note: idx % (n / 3 + 1) == 1, thorough, index: idx, ..Default::default() };
                        slot.base_ns.store(clock_ns(clk), SeqCst);
                        slot.idx.store(idx, SeqCst);
                        slot.active.store(true, SeqCst);
                        let t0 = Instant::now();
                        let r = run_case(sub.run, &mut src, &mut ctx);
                        if !(sub.net && r.is_err()) {
                            slot.active.store(false, SeqCst);
                        }
                        st.max_case_ms = st.max_case_ms.max(t0.elapsed().as_millis() as u64);
                        st.evaluations += 1;
                        st.steps += ctx.steps;
                        if ctx.inconclusive {
                            st.inconclusive += 1;
                        }
                        for c in ctx.classes {
                            *st.classes.entry(c).or_default() += 1;
                        }
                        if ctx.nontrivial {
                            st.nontrivial += 1;
                            st.distinct.insert(tape_hash(&src.used));
                        }
                        if !ctx.note.is_empty() {
                            st.samples.push((idx, ctx.note));
                        }
                        if let Err(e) = r {
                            let mut confirmed = !sub.net;
                            if sub.net {
                                // Scheduling can starve a socket case: it must fail again.
                                for _ in 0..2 {
                                    let mut s2 = Src::replay(src.used.clone());
                                    if run_case(sub.run, &mut s2, &mut Ctx::default()).is_err() {
                                        confirmed = true;
                                        break;
                                    }
                                }
                                slot.active.store(false, SeqCst);
                            }
                            if confirmed {
                                min_fail.fetch_min(idx, SeqCst);
                                fails.push((idx, src.used, e));
                            } else {
                                st.unconfirmed.push(format!("case {idx}: {e}"));
                            }
                        }
                    }
                    (st, fails)
                })
                .unwrap(),
        );
    }
    let mut st = SubStats::default();
    let mut fails = Vec::new();
    for h in hs {
        let (s, f) = match h.join() {
            Ok(x) => x,
            Err(_) => {
                eprintln!("worker thread died: harness error");
                std::process::exit(2);
            }
        };
        st.evaluations += s.evaluations;
        st.nontrivial += s.nontrivial;
        st.steps += s.steps;
        st.inconclusive += s.inconclusive;
        st.distinct.extend(s.distinct);
        st.max_case_ms = st.max_case_ms.max(s.max_case_ms);
        for (c, k) in s.classes {
            *st.classes.entry(c).or_default() += k;
        }
        st.samples.extend(s.samples);
        st.unconfirmed.extend(s.unconfirmed);
        fails.extend(f);
    }
    st.samples.sort();
    done.store(true, SeqCst);
    let _ = mon.join();
    fails.sort_by_key(|f| f.0);
    let failure = fails.into_iter().next().map(|(index, tape, error)| {
        println!("{}/{} case {index} failed: {}", p.id, sub.name, clip(&error, 600));
        shrunk(sub, index, tape, error)
    });
    (st, failure)
}

fn give_up_idx_err(idx: u64) -> ! {
    println!("case index {idx}");
    unsafe { libc::_exit(2) }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

/// Shrinks a failing case on a thread of its own; a candidate that does not come to an end is left
/// behind, with the best case so far.
fn shrunk(sub: &Sub, index: u64, tape: Vec<u64>, error: String) -> Failure {
    let original_len = tape.len();
    let best: Best = Arc::new(Mutex::new((tape, error, 0)));
    let (tx, rx) = std::sync::mpsc::channel();
    let (sub2, best2) = (sub.clone(), best.clone());
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            MY_IDX.with(|m| m.set(index));
            if sub2.net {
                crate::net::worker_init();
            }
            let _ = tx.send(shrink(&sub2, &best2));
        })
        .unwrap();
    let t0 = Instant::now();
    let limit = Duration::from_secs(if sub.net { 150 } else { 60 });
    let note = loop {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(n) => break n,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) if t0.elapsed() < limit && crashed().is_none() => {}
            Err(_) => break String::new(),
        }
    };
    let (tape, error, shrinks) = best.lock().unwrap().clone();
    Failure { sub: sub.name, index, original_len, tape, error, note, shrinks }
}

type Best = Arc<Mutex<(Vec<u64>, String, u64)>>;

/// Tape shrinking: shortlex-smaller tapes that still fail. Returns the rendered case.
fn shrink(sub: &Sub, shared: &Best) -> String {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if sub.net { 20 } else { 30 });
    let max_execs = if sub.net { 120 } else { 30_000 };
    let mut execs = 0u64;
    let mut best = shared.lock().unwrap().0.clone();
    let mut shrinks = 0;
    let note = RefCell::new(String::new());
    let try_tape = |cand: Vec<u64>, best: &mut Vec<u64>, execs: &mut u64, shrinks: &mut u64| -> bool {
        if *execs >= max_execs || t0.elapsed() > limit {
            return false;
        }
        *execs += 1;
        let mut src = Src::replay(cand);
        let mut ctx = Ctx { want_note: sub.net, ..Default::default() };
        if let Err(e) = run_case(sub.run, &mut src, &mut ctx) {
            let used = src.used;
            if used.len() < best.len() || (used.len() == best.len() && used < *best) {
                *best = used;
                *shrinks += 1;
                *note.borrow_mut() = ctx.note;
                *shared.lock().unwrap() = (best.clone(), e, *shrinks);
                return true;
            }
        }
        false
    };
    loop {
        let before = shrinks;
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    try_tape(c, &mut best, &mut execs, &mut shrinks);
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    try_tape(c, &mut best, &mut execs, &mut shrinks);
                }
                i += size;
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_tape(c, &mut best, &mut execs, &mut shrinks) {
                    hi = best.get(i).copied().unwrap_or(0).min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if shrinks == before || execs >= max_execs || t0.elapsed() > limit {
            break;
        }
    }
    if sub.net && !note.borrow().is_empty() {
        // Another run could take long.
        return note.into_inner();
    }
    let mut ctx = Ctx { want_note: true, ..Default::default() };
    let mut src = Src::replay(best.clone());
    if let Err(e) = run_case(sub.run, &mut src, &mut ctx) {
        shared.lock().unwrap().1 = e;
    }
    ctx.note
}

// ---------------------------------------------------------------------------------------------
// JSON, evidence, replay.

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(p: &Prop, seed: u64, f: &Failure) -> String {
    let _ = std::fs::create_dir_all("replays");
    let path = format!("replays/{}-{}.json", p.id, f.sub);
    write_replay_to(&path, p, seed, f);
    path
}

/// Saves a failing case as a replay file, as it is.
pub fn write_tape(p: &Prop, sub: &Sub, tape: &[u64], error: &str, path: &str) {
    let f = Failure { sub: sub.name, index: 0, tape: tape.to_vec(), original_len: tape.len(), error: error.into(), note: String::new(), shrinks: 0 };
    write_replay_to(path, p, 0, &f);
}

fn write_replay_to(path: &str, p: &Prop, seed: u64, f: &Failure) {
    let tape: Vec<String> = f.tape.iter().map(|v| v.to_string()).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"seed\": {},\n \"index\": {},\n \"error\": {},\n \"case\": {},\n \"shrunk_from\": {},\n \"shrink_steps\": {},\n {},\n \"tape\": [{}]\n}}\n",
        jstr(p.id), jstr(f.sub), seed, f.index, jstr(&f.error), jstr(&clip(&f.note, 6000)), f.original_len, f.shrinks, crate::dict::to_json(), tape.join(",")
    );
    let _ = std::fs::write(path, body);
}

struct Totals {
    parts: Vec<(Sub, SubStats)>,
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, t: &Totals, wall: f64, violations: u64) {
    let evals: u64 = t.parts.iter().map(|(_, s)| s.evaluations).sum();
    let distinct: u64 = t.parts.iter().map(|(_, s)| s.distinct.len() as u64).sum();
    let mut subs = Vec::new();
    let mut rules = Vec::new();
    let mut samples = Vec::new();
    for (sub, s) in &t.parts {
        rules.push(format!("[{}] {}", sub.name, sub.rule));
        for (i, n) in s.samples.iter().take(2) {
            samples.push(jstr(&format!("{}#{}: {}", sub.name, i, clip(n, 1200))));
        }
        let classes: Vec<String> = s.classes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
        let unc: Vec<String> = s.unconfirmed.iter().take(5).map(|x| jstr(&clip(x, 300))).collect();
        subs.push(format!(
            "{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"steps\": {}, \"inconclusive\": {}, \"unconfirmed\": [{}], \"max_case_ms\": {}, \"classes\": {{{}}}}}",
            jstr(sub.name), s.evaluations, s.nontrivial, s.distinct.len(), s.steps, s.inconclusive, unc.join(", "), s.max_case_ms, classes.join(", ")
        ));
    }
    // Left by bin/thorough, which runs the coverage-guided search first.
    let fuzz = std::env::var("VERIF_FUZZ_STATS").ok().and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_else(|| "{}".into());
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| jstr(a)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"sub_checks\": {{{}}},\n  \"coverage_guided\": {},\n  \"exhaustive\": false\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(p.id), jstr(tier), seed, evals, distinct, jstr(&rules.join(" ")), samples.join(",\n   "), subs.join(",\n   "), fuzz, assumptions.join(", "), wall, violations
    );
    let _ = std::fs::create_dir_all("evidence");
    if let Err(e) = std::fs::write(format!("evidence/{}.json", p.id), body) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

/// Runs one property; returns the process exit code.
pub fn run_prop(p: &Prop, tier: &str, seed: u64, only: Option<&str>, scale: f64) -> i32 {
    let t0 = Instant::now();
    let mut tot = Totals { parts: Vec::new() };
    for sub in &p.subs {
        if only.is_some_and(|o| o != sub.name) {
            continue;
        }
        if sub.net && !crate::net::available() {
            println!("{}/{}: skipped, no usable sockets in this sandbox", p.id, sub.name);
            tot.parts.push((sub.clone(), SubStats::default()));
            continue;
        }
        let n = if tier == "thorough" { sub.thorough } else { sub.quick };
        let n = ((n as f64 * scale) as u64).max(1);
        let t1 = Instant::now();
        let (st, fail) = run_sub(p, sub, seed, n, tier);
        println!(
            "{}/{}: {} cases, {} distinct non-trivial, {} steps, {:.1}s{}",
            p.id, sub.name, st.evaluations, st.distinct.len(), st.steps, t1.elapsed().as_secs_f64(),
            if st.unconfirmed.is_empty() { String::new() } else { format!(", {} unconfirmed", st.unconfirmed.len()) }
        );
        tot.parts.push((sub.clone(), st));
        if let Some(f) = fail {
            let path = write_replay(p, seed, &f);
            write_evidence(p, tier, seed, &tot, t0.elapsed().as_secs_f64(), 1);
            println!("minimal case: {}", clip(&f.note, 2000));
            println!("error: {}", clip(&f.error, 2000));
            println!("VIOLATION property={} replay={}", p.id, path);
            return 1;
        }
    }
    write_evidence(p, tier, seed, &tot, t0.elapsed().as_secs_f64(), 0);
    0
}

/// Re-runs a saved case without the search.
pub fn replay(p: &Prop, file: &str, minimise: bool) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    crate::dict::set(crate::dict::from_json(&text));
    let field = |k: &str| -> Option<&str> {
        let i = text.find(&format!("\"{k}\":"))? + k.len() + 3;
        Some(text[i..].trim_start())
    };
    let sub_name: String = field("sub").map(|s| s.trim_start_matches('"').chars().take_while(|c| *c != '"').collect()).unwrap_or_default();
    let Some(sub) = p.subs.iter().find(|s| s.name == sub_name).cloned() else {
        eprintln!("unknown sub-check {sub_name}");
        return 2;
    };
    let num = |k: &str| field(k).map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|s| s.parse::<u64>().ok());
    let mut src = match field("tape") {
        Some(t) => {
            let inner: String = t.trim_start_matches('[').chars().take_while(|c| *c != ']').collect();
            Src::replay(inner.split(',').filter_map(|x| x.trim().parse().ok()).collect())
        }
        None => Src::record(case_seed(num("seed").unwrap_or(0), p.id, sub.name, num("index").unwrap_or(0))),
    };
    let pid = p.id;
    let index = num("index").unwrap_or(0);
    if minimise {
        let tape = std::mem::replace(&mut src, Src::replay(vec![])).tape();
        let sub2 = sub.clone();
        let t2 = tape.clone();
        let r = std::thread::Builder::new().stack_size(STACK).spawn(move || run_case(sub2.run, &mut Src::replay(t2), &mut Ctx::default())).unwrap().join();
        return match r {
            Ok(Err(e)) => {
                let f = shrunk(&sub, index, tape, e);
                let path = write_replay(p, 0, &f);
                println!("minimal case: {}", clip(&f.note, 2000));
                println!("error: {}", clip(&f.error, 2000));
                println!("VIOLATION property={pid} replay={path}");
                1
            }
            _ => {
                println!("holds");
                0
            }
        };
    }
    let name = file.to_string();
    let (tx, rx) = std::sync::mpsc::channel();
    let net = sub.net;
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            if sub.net {
                crate::net::worker_init();
            }
            let mut ctx = Ctx { want_note: true, index, ..Default::default() };
            let r = run_case(sub.run, &mut src, &mut ctx);
            println!("case: {}", ctx.note);
            let _ = tx.send(r);
        })
        .unwrap();
    let t0 = Instant::now();
    let limit = Duration::from_secs(if net { 400 } else { 120 });
    let r = loop {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) if t0.elapsed() < limit && crashed().is_none() => {}
            r => break r,
        }
    };
    if let Some((why, _)) = crashed() {
        println!("error: {why}");
        println!("VIOLATION property={pid} replay={name}");
        return 1;
    }
    match r {
        Ok(Ok(())) => {
            println!("holds");
            0
        }
        Ok(Err(e)) => {
            println!("error: {e}");
            println!("VIOLATION property={pid} replay={name}");
            1
        }
        Err(_) => {
            println!("error: the case does not come to an end");
            println!("VIOLATION property={pid} replay={name}");
            1
        }
    }
}
