//! `check <ID> [--tier quick|thorough] [--seed N] [--only SUB] [--scale F] [--replay FILE | --shrink FILE] [--list]`

use uwuhi_verif::{dict, engine, logcap, net, props};

#[global_allocator]
static ALLOC: engine::GuardAlloc = engine::GuardAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut id = None;
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let (mut only, mut replay, mut scale, mut list, mut shrink) = (None, None, 1.0f64, false, false);
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_else(|| usage());
        match a.as_str() {
            "--tier" => tier = val(),
            "--seed" => seed = val().parse().unwrap_or_else(|_| usage()),
            "--only" => only = Some(val()),
            "--scale" => scale = val().parse().unwrap_or_else(|_| usage()),
            "--replay" => replay = Some(val()),
            "--shrink" => {
                replay = Some(val());
                shrink = true;
            }
            "--list" => list = true,
            "--dict-baseline" => {
                print!("{}", dict::baseline_text());
                return;
            }
            x if !x.starts_with('-') && id.is_none() => id = Some(x.to_string()),
            _ => usage(),
        }
    }
    if tier != "quick" && tier != "thorough" {
        usage();
    }
    let all = props::all();
    if list {
        for p in &all {
            for s in &p.subs {
                println!("{} {} quick={} thorough={}{}", p.id, s.name, s.quick, s.thorough, if s.net || s.exhaustive() { "" } else { " fuzz" });
            }
        }
        return;
    }
    let Some(id) = id else { usage() };
    let Some(p) = all.into_iter().find(|p| p.id == id) else {
        eprintln!("no such property: {id}");
        std::process::exit(2);
    };
    if p.subs.iter().any(|s| s.net) {
        net::enter_namespace(&args);
    }
    engine::install_panic_hook();
    engine::install_crash_handler();
    logcap::install();
    let code = match replay {
        Some(f) => engine::replay(&p, &f, shrink),
        None => {
            dict::set(dict::load());
            let d = dict::get();
            if !d.words.is_empty() || !d.ints.is_empty() {
                println!("dictionary: {} words, {} numbers not in the baseline", d.words.len(), d.ints.len());
            }
            engine::run_prop(&p, &tier, seed, only.as_deref(), scale)
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // Detached service threads may still be blocked in system calls.
    unsafe { libc::_exit(code) }
}

fn usage() -> ! {
    eprintln!("usage: check ID [--tier quick|thorough] [--seed N] [--only SUB] [--scale F] [--replay FILE | --shrink FILE] [--list]");
    std::process::exit(2)
}
