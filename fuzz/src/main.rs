//! Coverage-guided search (libFuzzer) over the generators of the harness: the
//! bytes libFuzzer mutates are the random stream from which a property's
//! strategy makes the case, so every input is a valid case, and the oracle is
//! the property's own check. Run through /verif/check.sh fuzz.
#![no_main]
#![allow(dead_code)]
#[path = "../../harness/src/dispatch.rs"]
#[macro_use]
mod dispatch;
#[path = "../../harness/src/dd.rs"]
mod dd;
#[path = "../../harness/src/fw.rs"]
mod fw;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/props/mod.rs"]
mod props;
#[path = "../../harness/src/refm.rs"]
mod refm;
#[path = "../../harness/src/runner.rs"]
mod runner;

use runner::{Opts, Tier};

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}
extern "C" fn summary() {
    runner::FUZZ_STATS.with(|s| {
        let s = s.borrow();
        eprintln!("fuzz-summary evals={} nontrivial={} no_case={}", s.evals, s.nontrivial, s.no_case);
    })
}

fn setup() {
    fw::install_panic_hook();
    let var = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
    let id = var("FUZZ_PROP").expect("FUZZ_PROP");
    let seed = var("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let o = Opts { tier: Tier::Thorough, seed, verif: var("VERIF_DIR").unwrap_or_else(|| "/verif".into()), scale: 1.0 };
    let rc = match var("FUZZ_SEEDS") {
        // only write starting inputs
        Some(dir) => std::process::exit(dispatch!(id.as_str(), fuzz_seeds, &o, &dir)),
        None => dispatch!(id.as_str(), fuzz_start, &o, &var("FUZZ_NAME").unwrap_or_else(|| "fuzz".into())),
    };
    if rc != 0 {
        std::process::exit(rc)
    }
    unsafe { atexit(summary) };
}

libfuzzer_sys::fuzz_target!(init: setup(), |data: &[u8]| {
    runner::FUZZ.with(|t| (t.borrow().as_ref().expect("target"))(data))
});
