//! Property-based checks of tofas. See /verif/DESIGN.md.
#[macro_use]
mod dispatch;
mod dd;
mod fw;
mod gen;
mod props;
mod refm;
mod runner;

use runner::{Opts, Tier};

fn main() {
    fw::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = match std::env::var("VERIF_SEED").ok().filter(|s| !s.is_empty()).map(|s| s.parse::<u64>()) {
        None => 1,
        Some(Ok(s)) => s,
        Some(Err(_)) => {
            eprintln!("error: VERIF_SEED is not a number");
            std::process::exit(2)
        }
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let o = Opts { tier, seed, verif, scale };
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") if args.len() == 2 => {
            let file = &args[1];
            let v: serde_json::Value = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
                Ok(v) => v,
                Err(e) => {
                    eprintln!("error: {file}: {e}");
                    std::process::exit(2)
                }
            };
            let id = v["property"].as_str().unwrap_or("").to_string();
            dispatch!(id.as_str(), replay, &v, file)
        }
        Some("fuzz") if args.len() == 5 => match args[4].parse() {
            Ok(secs) => runner::fuzz_drive(&args[1], &o, &args[2], &args[3], secs),
            Err(_) => 2,
        },
        Some("ops") if args.len() == 1 => props::sys::child(),
        Some(id) if args.len() == 1 => dispatch!(id, run, &o),
        _ => {
            eprintln!("usage: tofas-verif C01..C30 | replay FILE");
            2
        }
    };
    std::process::exit(code)
}
