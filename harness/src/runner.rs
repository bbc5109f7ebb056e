//! Drives one property: enumerated cases, then generated cases, on a fixed
//! number of independently seeded shards; shrinks the first failure, writes the
//! replay file and the evidence file.
use crate::fw::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick {
            "quick"
        } else {
            "thorough"
        }
    }
}

/// Does the case exercise the property beyond the trivial?
pub type Outcome = Res<bool>;

pub trait Prop {
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const ASSUME: &'static [&'static str] = &[];
    /// how often a saved case is run again (what fails may depend on earlier calls)
    const REPLAYS: u32 = 1;
    type Case: Debug + Clone + Serialize + DeserializeOwned + 'static;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// number of generated cases (all shards together)
    fn cases(tier: Tier) -> u64;
    /// enumerated cases, run before the generated ones (split over the shards)
    fn sweep(_tier: Tier) -> Box<dyn Iterator<Item = Self::Case>> {
        Box::new(std::iter::empty())
    }
    fn check(c: &Self::Case) -> Outcome;
}

pub const SHARDS: u64 = 8;
/// Only a safety net (slow machine): reached, the run stops early and says so.
const WALL_CAP: [u64; 2] = [600, 40_000];

/// Distinct cases are counted up to this many per shard (memory).
const MAX_DISTINCT: usize = 6_000_000;

pub fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    // splitmix over the seed, the property and the shard
    let mut h = seed ^ 0x9e3779b97f4a7c15;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= shard.wrapping_mul(0xd1342543de82ef95);
    let mut out = [0u8; 32];
    for k in 0..4 {
        h = h.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        out[8 * k..8 * k + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn hash_of<T: Debug>(c: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{c:?}").hash(&mut h);
    h.finish()
}

pub struct Failure {
    pub case_json: serde_json::Value,
    pub case_dbg: String,
    pub message: String,
    pub origin: String,
    pub shrinks: u64,
}
#[derive(Default)]
struct Shard {
    evals: u64,
    sweep_evals: u64,
    sweep_nontrivial: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    sweep_samples: Vec<String>,
    log: Log,
    failure: Option<Failure>,
    timed_out: bool,
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
    pub scale: f64,
}

/// proptest's own shrinking loop, with bounded work
fn shrink<P: Prop>(tree: &mut dyn ValueTree<Value = P::Case>, c: P::Case, m: String) -> (P::Case, String, u64) {
    let (mut best, mut msg) = (c, m);
    let mut shrinks = 0;
    let ts = Instant::now();
    let mut steps = 0;
    if tree.simplify() {
        while steps < 20_000 && ts.elapsed() < Duration::from_secs(30) {
            steps += 1;
            let c = tree.current();
            match P::check(&c) {
                Err(m) => {
                    best = c;
                    msg = m;
                    shrinks += 1;
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(_) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    (best, msg, shrinks)
}

fn run_shard<P: Prop>(o: &Opts, shard: u64, stop: &AtomicBool, t0: Instant) -> Shard {
    let mut s = Shard::default();
    LOG.with(|l| *l.borrow_mut() = Log::default());
    let cap = Duration::from_secs(WALL_CAP[(o.tier == Tier::Thorough) as usize]);
    let fail = |c: &P::Case, m: String, origin: String, shrinks: u64| Failure {
        case_json: serde_json::to_value(c).expect("case to JSON"),
        case_dbg: format!("{c:?}"),
        message: m,
        origin,
        shrinks,
    };
    for (i, c) in P::sweep(o.tier).enumerate() {
        if i as u64 % SHARDS != shard {
            continue;
        }
        s.evals += 1;
        s.sweep_evals += 1;
        match P::check(&c) {
            Ok(nt) => {
                s.sweep_nontrivial += nt as u64;
                if nt && s.sweep_samples.len() < 1 && i > 1000 {
                    s.sweep_samples.push(format!("enumerated {c:?}"))
                }
            }
            Err(m) => {
                s.failure = Some(fail(&c, m, format!("enumerated case {i}"), 0));
                stop.store(true, Ordering::SeqCst);
                break;
            }
        }
        if i as u64 % 512 == shard && (stop.load(Ordering::Relaxed) || t0.elapsed() > cap) {
            s.timed_out = t0.elapsed() > cap;
            break;
        }
    }
    if s.failure.is_none() && !stop.load(Ordering::SeqCst) {
        let strat = P::strategy(o.tier);
        let n = ((P::cases(o.tier) as f64 * o.scale) as u64).div_ceil(SHARDS);
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(o.seed, P::ID, shard));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        for i in 0..n {
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => panic!("generator gave up: {e}"),
            };
            let c = tree.current();
            s.evals += 1;
            match P::check(&c) {
                Ok(nt) => {
                    if nt {
                        if s.distinct.len() < MAX_DISTINCT {
                            s.distinct.insert(hash_of(&c));
                        }
                        if s.samples.len() < 2 && (i * 7) % 13 == 3 {
                            s.samples.push(format!("{c:?}"));
                        }
                    }
                }
                Err(m) => {
                    stop.store(true, Ordering::SeqCst);
                    let (best, msg, shrinks) = shrink::<P>(tree.as_mut(), c, m);
                    s.failure = Some(fail(&best, msg, format!("generated case {i} of shard {shard}"), shrinks));
                    break;
                }
            }
            if i % 64 == 0 && (stop.load(Ordering::Relaxed) || t0.elapsed() > cap) {
                s.timed_out = t0.elapsed() > cap;
                break;
            }
        }
    }
    s.log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    s
}

/// Exit status of the check.
pub fn run<P: Prop>(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let shards: Vec<Shard> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..SHARDS)
            .map(|k| {
                let stop = &stop;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || run_shard::<P>(o, k, stop, t0))
                    .unwrap()
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(s) => s,
                Err(_) => {
                    eprintln!("error: the harness itself failed");
                    std::process::exit(2)
                }
            })
            .collect()
    });
    let mut all = HashSet::new();
    let mut log = Log::default();
    let (mut evals, mut sw, mut swn) = (0, 0, 0);
    let mut samples: Vec<String> = vec![];
    let mut timed_out = false;
    for s in &shards {
        all.extend(s.distinct.iter().cloned());
        evals += s.evals;
        sw += s.sweep_evals;
        swn += s.sweep_nontrivial;
        timed_out |= s.timed_out;
        samples.extend(s.samples.iter().cloned());
        log.absorb(&s.log);
    }
    samples.truncate(10);
    samples.extend(shards.iter().flat_map(|s| s.sweep_samples.iter().cloned()).take(2));
    // the failure with the smallest description, for a stable report
    let fl = shards.iter().filter_map(|s| s.failure.as_ref()).min_by_key(|f| (f.case_dbg.len(), f.case_dbg.clone()));
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": o.tier.name(),
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": all.len() as u64 + swn,
            "enumerated": sw,
            "generated": evals - sw,
            "generated_distinct_nontrivial": all.len(),
            "distinct_counted_up_to": MAX_DISTINCT as u64 * SHARDS,
            "numeric_comparisons": log.comparisons,
            "rule": P::RULE,
            "samples": samples,
            "labels": log.labels,
            "largest_error_over_tolerance": log.margin,
            "stopped_early_by_time": timed_out,
            "shards": SHARDS,
        },
        "assumptions": P::ASSUME,
        "wall_s": wall,
        "violations": fl.is_some() as u8,
    });
    let path = format!("{}/evidence/{}.json", o.verif, P::ID);
    std::fs::create_dir_all(format!("{}/evidence", o.verif)).ok();
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("error: cannot write {path}: {e}");
        return 2;
    }
    println!(
        "{}: {} cases ({} enumerated), {} distinct non-trivial, {} comparisons, {:.1} s, seed {}, {}",
        P::ID,
        evals,
        sw,
        all.len() as u64 + swn,
        log.comparisons,
        wall,
        o.seed,
        o.tier.name()
    );
    match fl {
        None => 0,
        Some(f) => report(P::ID, o, f),
    }
}

pub fn report(id: &str, o: &Opts, f: &Failure) -> i32 {
    report_as(id, o, f, &format!("seed{}", o.seed))
}
fn report_as(id: &str, o: &Opts, f: &Failure, name: &str) -> i32 {
    let dir = format!("{}/replays", o.verif);
    std::fs::create_dir_all(&dir).ok();
    let file = format!("{dir}/{id}-{name}.json");
    let r = serde_json::json!({
        "property": id, "case": f.case_json, "case_debug": f.case_dbg, "message": f.message,
        "origin": f.origin, "shrink_steps": f.shrinks, "seed": o.seed, "tier": o.tier.name(),
        "how": format!("/verif/check.sh replay {file}"),
    });
    if let Err(e) = std::fs::write(&file, serde_json::to_string_pretty(&r).unwrap() + "\n") {
        eprintln!("error: cannot write {file}: {e}");
        return 2;
    }
    println!("  case:    {}", f.case_dbg);
    println!("  failure: {}", f.message);
    println!("VIOLATION property={id} replay={file}");
    1
}

/// One saved case.
pub fn replay<P: Prop>(v: &serde_json::Value, file: &str) -> i32 {
    let c: P::Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("error: bad replay file: {e}");
            return 2;
        }
    };
    println!("replaying {}: {c:?}", P::ID);
    let r = (0..P::REPLAYS).map(|_| P::check(&c)).find(|r| r.is_err()).unwrap_or(Ok(true));
    match r {
        Ok(_) => {
            println!("{}: the property holds on this case", P::ID);
            0
        }
        Err(m) => {
            println!("  failure: {m}");
            println!("VIOLATION property={} replay={file}", P::ID);
            1
        }
    }
}


// ------------------------------------------------------------------ coverage-guided search

/// Size of the random stream libFuzzer works on.
const FUZZ_LEN: usize = 2048;
const FUZZ_PROCESSES: u64 = 8;

/// Runs the libFuzzer target of one property (built from /verif/fuzz, library instrumented) in
/// several processes that share their finds, and adds what it did to the evidence file.
pub fn fuzz_drive(id: &str, o: &Opts, bin: &str, work: &str, secs: u64) -> i32 {
    use std::process::{Command, Stdio};
    let t0 = Instant::now();
    let fail = |m: String| {
        eprintln!("error: {m}");
        2
    };
    std::fs::remove_dir_all(work).ok();
    let corpus = format!("{work}/corpus");
    if let Err(e) = std::fs::create_dir_all(&corpus) {
        return fail(format!("{corpus}: {e}"));
    }
    let base = |name: String| {
        let mut c = Command::new(bin);
        c.env("FUZZ_PROP", id).env("FUZZ_NAME", name).env("VERIF_DIR", &o.verif).env("VERIF_SEED", o.seed.to_string()).current_dir(work).stdin(Stdio::null());
        c
    };
    match base("seeds".into()).env("FUZZ_SEEDS", &corpus).stdout(Stdio::null()).stderr(Stdio::null()).status() {
        Ok(s) if s.success() => (),
        r => return fail(format!("{bin} made no starting inputs: {r:?}")),
    }
    let mut kids = vec![];
    for k in 0..FUZZ_PROCESSES {
        let out = |x: &str| std::fs::File::create(format!("{work}/{x}{k}"));
        let (Ok(so), Ok(se)) = (out("out"), out("err")) else { return fail(format!("cannot write into {work}")) };
        let kid = base(format!("fuzz-seed{}-{k}", o.seed))
            .arg(&corpus)
            .args([format!("-seed={}", (o.seed.wrapping_mul(64) + k) % 2_000_000_000 + 1), format!("-max_total_time={secs}"), format!("-max_len={FUZZ_LEN}"), format!("-artifact_prefix={work}/")])
            .args(["-timeout=300", "-reload=1", "-print_final_stats=1", "-use_value_profile=1", "-rss_limit_mb=3000"])
            .stdout(so)
            .stderr(se)
            .spawn();
        match kid {
            Ok(c) => kids.push((k, c)),
            Err(e) => return fail(format!("{bin}: {e}")),
        }
    }
    let read = |x: &str, k: u64| String::from_utf8_lossy(&std::fs::read(format!("{work}/{x}{k}")).unwrap_or_default()).into_owned();
    let mut rc = 0;
    let (mut evals, mut nontrivial, mut feats) = (0u64, 0u64, 0u64);
    while !kids.is_empty() && rc == 0 {
        std::thread::sleep(Duration::from_millis(200));
        let mut left = vec![];
        for (k, mut c) in kids.drain(..) {
            match c.try_wait() {
                Ok(None) => left.push((k, c)),
                Ok(Some(s)) if rc == 0 => {
                    let (so, se) = (read("out", k), read("err", k));
                    let num = |key: &str| se.rsplit_once(key).and_then(|(_, t)| t.split(|c: char| !c.is_ascii_digit()).next()?.parse::<u64>().ok());
                    match s.code() {
                        Some(1) if so.contains(&format!("VIOLATION property={id} ")) => {
                            print!("{so}");
                            rc = 1;
                        }
                        Some(0) => {
                            let (Some(e), Some(n)) = (num("fuzz-summary evals="), num("nontrivial=")) else {
                                rc = fail(format!("no summary from the fuzzer: {}", &se[se.len().saturating_sub(500)..]));
                                continue;
                            };
                            evals += e;
                            nontrivial += n;
                            feats = feats.max(num(" ft: ").unwrap_or(0));
                        }
                        _ => rc = fail(format!("the fuzzer ended with {s}: {}", String::from_utf8_lossy(&se.as_bytes()[se.len().saturating_sub(1500)..]))),
                    }
                }
                Ok(Some(_)) => (),
                Err(e) => rc = fail(format!("{e}")),
            }
        }
        kids = left;
    }
    for (_, mut c) in kids {
        c.kill().ok();
        c.wait().ok();
    }
    let n_corpus = std::fs::read_dir(&corpus).map(|d| d.count()).unwrap_or(0);
    std::fs::remove_dir_all(work).ok();
    if rc == 2 {
        return 2;
    }
    let path = format!("{}/evidence/{id}.json", o.verif);
    let mut ev: serde_json::Value = match std::fs::read_to_string(&path).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => return fail(format!("{path}: {e} (run the check itself first)")),
    };
    ev["coverage"]["coverage_guided"] = serde_json::json!({
        "engine": "libFuzzer, library instrumented, bytes = random stream of the strategy", "processes": FUZZ_PROCESSES,
        "executions": evals, "nontrivial_executions": nontrivial, "features": feats, "corpus": n_corpus, "wall_s": t0.elapsed().as_secs_f64(),
    });
    if rc == 1 {
        ev["violations"] = serde_json::json!(1);
    }
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        return fail(format!("cannot write {path}: {e}"));
    }
    println!("{id}: coverage-guided: {evals} executions, {nontrivial} non-trivial, {feats} features, {n_corpus} inputs kept, {:.0} s", t0.elapsed().as_secs_f64());
    rc
}

#[allow(dead_code)]
pub struct FuzzStats {
    pub evals: u64,
    pub nontrivial: u64,
    pub no_case: u64,
}
thread_local! {
    #[allow(dead_code)]
    /// libFuzzer runs its target on one thread
    pub static FUZZ: std::cell::RefCell<Option<Box<dyn Fn(&[u8])>>> = const { std::cell::RefCell::new(None) };
    #[allow(dead_code)]
    pub static FUZZ_STATS: std::cell::RefCell<FuzzStats> = const { std::cell::RefCell::new(FuzzStats { evals: 0, nontrivial: 0, no_case: 0 }) };
}

#[allow(dead_code)] // used by /verif/fuzz
/// Writes starting inputs (the random streams of generated cases) into a folder.
pub fn fuzz_seeds<P: Prop>(o: &Opts, dir: &str) -> i32 {
    let strat = P::strategy(o.tier);
    for k in 0..400u64 {
        let rng = TestRng::from_seed(RngAlgorithm::Recorder, &seed_bytes(o.seed, P::ID, 1000 + k));
        let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        if strat.new_tree(&mut runner).is_ok() {
            let b = runner.bytes_used();
            if b.len() <= FUZZ_LEN && std::fs::write(format!("{dir}/seed-{k:04}"), b).is_err() {
                eprintln!("error: cannot write into {dir}");
                return 2;
            }
        }
    }
    0
}

#[allow(dead_code)] // used by /verif/fuzz
/// Makes the fuzz target: the bytes are the random stream of the strategy. A
/// failing case is shrunk and reported as usual, and the process ends with 1.
pub fn fuzz_start<P: Prop>(o: &Opts, name: &str) -> i32 {
    let strat = P::strategy(o.tier);
    let o = Opts { verif: o.verif.clone(), ..*o };
    let name = name.to_string();
    // integer ranges are drawn by rejection, so the stream must not run dry into zeros
    let mut tail = vec![];
    for k in 0..1024 {
        tail.extend(seed_bytes(0, "tail", k));
    }
    let f = move |data: &[u8]| {
        let data = [data, &tail].concat();
        let cfg = Config { failure_persistence: None, max_local_rejects: 256, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, &data));
        let r = strat.new_tree(&mut runner);
        FUZZ_STATS.with(|s| {
            let mut s = s.borrow_mut();
            s.evals += 1;
            s.no_case += r.is_err() as u64;
        });
        let Ok(mut tree) = r else { return };
        let c = tree.current();
        match P::check(&c) {
            Ok(nt) => FUZZ_STATS.with(|s| s.borrow_mut().nontrivial += nt as u64),
            Err(m) => {
                let (best, msg, shrinks) = shrink::<P>(tree.as_mut(), c, m);
                let fl = Failure { case_json: serde_json::to_value(&best).expect("case to JSON"), case_dbg: format!("{best:?}"), message: msg, origin: "coverage-guided search".into(), shrinks };
                let rc = report_as(P::ID, &o, &fl, &name);
                use std::io::Write;
                std::io::stdout().flush().ok();
                extern "C" {
                    fn _exit(code: i32) -> !;
                }
                unsafe { _exit(rc) }
            }
        }
    };
    FUZZ.with(|t| *t.borrow_mut() = Some(Box::new(f)));
    0
}
