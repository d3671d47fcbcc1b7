//! Coverage-guided search of one sub-check: libFuzzer's bytes are the tape of a case.
//! FUZZ_PROP and FUZZ_SUB select the sub-check; a failing case is written to FUZZ_OUT as a replay file.
#![no_main]
use std::sync::OnceLock;
use uwuhi_verif::engine::{self, Ctx, Prop, Src, Sub};
use uwuhi_verif::{dict, logcap, props};

fn target() -> &'static (Prop, Sub) {
    static T: OnceLock<(Prop, Sub)> = OnceLock::new();
    T.get_or_init(|| {
        let (id, name) = (std::env::var("FUZZ_PROP").expect("FUZZ_PROP"), std::env::var("FUZZ_SUB").expect("FUZZ_SUB"));
        let p = props::all().into_iter().find(|p| p.id == id).expect("property");
        let s = p.subs.iter().find(|s| s.name == name).expect("sub-check").clone();
        engine::install_panic_hook();
        logcap::install();
        dict::set(dict::load());
        (p, s)
    })
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let (p, sub) = target();
    let mut src = Src::bytes_src(data);
    let mut ctx = Ctx { thorough: true, ..Default::default() };
    if let Err(e) = engine::run_case(sub.run, &mut src, &mut ctx) {
        let out = std::env::var("FUZZ_OUT").unwrap_or_else(|_| "fuzz.json".into());
        engine::write_tape(p, sub, &src.used, &e, &out);
        println!("failing case: {e}");
        std::process::abort();
    }
});
