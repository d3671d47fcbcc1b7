//! A global logger: formats every record where formatting is switched on, and can capture them.

use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};

pub type Capture = Arc<Mutex<Vec<(log::Level, String)>>>;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static SINK: RefCell<String> = const { RefCell::new(String::new()) };
    static CAP: RefCell<Option<Capture>> = const { RefCell::new(None) };
}

struct L;
static LOGGER: L = L;

impl log::Log for L {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        ON.try_with(|o| o.get()).unwrap_or(false)
    }
    fn log(&self, r: &log::Record<'_>) {
        if !ON.try_with(|o| o.get()).unwrap_or(false) {
            return;
        }
        let cap = CAP.with(|c| c.borrow().clone());
        match cap {
            Some(c) => {
                let s = r.args().to_string();
                c.lock().unwrap_or_else(|e| e.into_inner()).push((r.level(), s));
            }
            None => SINK.with(|s| {
                let mut s = s.borrow_mut();
                s.clear();
                let _ = write!(s, "{}", r.args());
            }),
        }
    }
    fn flush(&self) {}
}

pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
}

/// Whether log arguments are formatted on this thread (as an application with logging enabled does).
pub fn enable(on: bool) {
    ON.with(|o| o.set(on));
}

pub fn capture(c: Option<Capture>) {
    ON.with(|o| o.set(c.is_some()));
    CAP.with(|x| *x.borrow_mut() = c);
}

pub fn reset() {
    let _ = ON.try_with(|o| o.set(false));
    let _ = CAP.try_with(|x| *x.borrow_mut() = None);
}
