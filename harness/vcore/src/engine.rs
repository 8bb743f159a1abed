//! The case runner: fixed work, sharded, deterministic in VERIF_SEED.
use crate::shrink;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::Hasher;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a case reports about itself while it is checked.
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    /// A directory private to this shard, inside the run's scratch directory.
    pub dir: PathBuf,
}

impl Ctx {
    pub fn new(dir: PathBuf) -> Ctx {
        Ctx { nontrivial: false, labels: BTreeMap::new(), dir }
    }
    /// Whether this is a replay, in a process that has done nothing else.
    pub fn replaying(&self) -> bool {
        self.dir.ends_with("replay")
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.label(l)
        }
    }
    pub fn count(&mut self, l: &'static str, n: u64) {
        *self.labels.entry(l).or_insert(0) += n;
    }
}

pub trait Prop {
    type Case: Clone + Debug + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    /// Number of cases in the quick and the thorough tier.
    const CASES: (u64, u64);
    const THREADS: usize = 8;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Result<(), String>;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are results here, not noise on stderr.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}

/// Run a check; a panic anywhere inside it is a failure of the case.
pub fn run_case<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| P::check(case, ctx))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn rng_seed(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let mut h = DefaultHasher::new();
        h.write_u64(seed);
        h.write(id.as_bytes());
        h.write_u64(shard);
        h.write_u64(i as u64);
        chunk.copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

pub fn runner(seed: [u8; 32]) -> TestRunner {
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    h.write(b);
    h.finish()
}

/// Dirs of the run.
pub struct Env {
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub seed: u64,
    pub tier: Tier,
    /// Multiplies the number of cases (for long sweeps by hand).
    pub scale: f64,
    pub write_evidence: bool,
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

const SHARDS: u64 = 16;

struct ShardOut<C> {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    failure: Option<(C, String)>,
    sizes: [u64; 3],
}

fn shard_dir(env: &Env, name: &str) -> PathBuf {
    let d = env.scratch.join(name);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Watch {
    started: AtomicU64,
    /// Holds the case that is being run, for the supervising process.
    slot: Mutex<Option<std::fs::File>>,
}

impl Watch {
    fn note(&self, bytes: &[u8]) {
        if let Some(f) = self.slot.lock().unwrap().as_ref() {
            let _ = f.set_len(0);
            let _ = f.write_all_at(bytes, 0);
        }
    }
}

/// How long a case, or a whole minimisation, may take.
pub const PATIENCE: Duration = Duration::from_secs(150);
/// Exit code of a run that gave up on a case.
pub const STUCK: i32 = 3;

/// Where a run leaves the cases it is busy with.
pub fn slots(scratch: &Path) -> PathBuf {
    scratch.join("slots")
}

fn note_failure<P: Prop>(env: &Env, case: &P::Case, msg: &str) {
    let doc = json!({ "property": P::ID, "case": case, "message": msg });
    let _ = std::fs::write(slots(&env.scratch).join("failed.tmp"), doc.to_string());
    let _ = std::fs::rename(slots(&env.scratch).join("failed.tmp"), slots(&env.scratch).join("failed.json"));
}

/// Gives up the process when a step on the main thread takes too long.
struct Alarm(std::sync::Arc<AtomicBool>);

impl Alarm {
    fn set() -> Alarm {
        let done = std::sync::Arc::new(AtomicBool::new(false));
        let d = done.clone();
        std::thread::spawn(move || {
            let t = Instant::now();
            while t.elapsed() < PATIENCE {
                std::thread::sleep(Duration::from_millis(100));
                if d.load(Ordering::SeqCst) {
                    return;
                }
            }
            std::process::exit(STUCK);
        });
        Alarm(done)
    }
}

impl Drop for Alarm {
    fn drop(&mut self) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Runs a property; returns the exit code.
pub fn run<P: Prop>(env: &Env) -> i32
where
    P::Case: Send,
{
    let t0 = Instant::now();
    let id = P::ID;
    // Saved minimal inputs first: a seconds-long replay tier.
    let mut replayed = 0u64;
    let rdir = env.root.join("regress").join(id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&rdir)
        .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "json")).collect())
        .unwrap_or_default();
    files.sort();
    let mut failure: Option<(P::Case, String)> = None;
    let mut origin = "generated";
    let sdir = slots(&env.scratch);
    let _ = std::fs::create_dir_all(&sdir);
    let slot = |n: usize| std::fs::File::create(sdir.join(format!("{n}.json"))).ok();
    let saved = Watch { started: AtomicU64::new(0), slot: Mutex::new(if files.is_empty() { None } else { slot(1000) }) };
    for f in &files {
        let case = match load_case::<P>(f) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("ERROR: {}: {}", f.display(), e);
                return 4;
            }
        };
        let mut ctx = Ctx::new(shard_dir(env, "regress"));
        replayed += 1;
        let _alarm = Alarm::set();
        saved.note(&serde_json::to_vec(&case).expect("case serialises"));
        if let Err(e) = run_case::<P>(&case, &mut ctx) {
            failure = Some((case, e));
            origin = "saved input";
            break;
        }
    }

    saved.note(b"");
    let total = match env.tier {
        Tier::Quick => P::CASES.0,
        Tier::Thorough => P::CASES.1,
    };
    let total = ((total as f64) * env.scale).ceil() as u64;
    let per = total.div_ceil(SHARDS);
    let next = AtomicUsize::new(0);
    let stop_above = AtomicU64::new(u64::MAX);
    let outs: Mutex<BTreeMap<u64, ShardOut<P::Case>>> = Mutex::new(BTreeMap::new());
    let watches: Vec<Watch> =
        (0..P::THREADS).map(|n| Watch { started: AtomicU64::new(0), slot: Mutex::new(slot(n)) }).collect();
    let slow = std::env::var_os("VERIF_SLOW").is_some();
    let done = AtomicBool::new(false);
    let gen_errors = AtomicU64::new(0);

    if failure.is_none() {
        std::thread::scope(|s| {
            let mut handles = Vec::new();
            for w in watches.iter() {
                let (next, outs, stop_above, gen_errors) = (&next, &outs, &stop_above, &gen_errors);
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst) as u64;
                            if shard >= SHARDS {
                                break;
                            }
                            let dir = shard_dir(env, &format!("s{shard}"));
                            let mut r = runner(rng_seed(env.seed, id, shard));
                            let strat = P::strategy(env.tier);
                            let mut o = ShardOut {
                                evaluations: 0,
                                distinct: HashSet::new(),
                                labels: BTreeMap::new(),
                                samples: Vec::new(),
                                failure: None,
                                sizes: [0; 3],
                            };
                            for i in 0..per {
                                if stop_above.load(Ordering::Relaxed) < shard {
                                    break;
                                }
                                let mut tree = match strat.new_tree(&mut r) {
                                    Ok(t) => t,
                                    Err(_) => {
                                        gen_errors.fetch_add(1, Ordering::Relaxed);
                                        continue;
                                    }
                                };
                                let case = tree.current();
                                w.started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                let bytes = serde_json::to_vec(&case).expect("case serialises");
                                w.note(&bytes);
                                o.sizes[if bytes.len() < 300 { 0 } else if bytes.len() < 3000 { 1 } else { 2 }] += 1;
                                let mut ctx = Ctx::new(dir.clone());
                                let t = Instant::now();
                                let res = run_case::<P>(&case, &mut ctx);
                                if slow && t.elapsed() > Duration::from_secs(2) {
                                    eprintln!("{:.1} s: {}", t.elapsed().as_secs_f64(), truncate(&String::from_utf8_lossy(&bytes), 600));
                                }
                                o.evaluations += 1;
                                for (k, v) in &ctx.labels {
                                    *o.labels.entry(k).or_insert(0) += v;
                                }
                                if ctx.nontrivial {
                                    o.distinct.insert(hash_bytes(&bytes));
                                    if o.samples.is_empty() && i >= per / 2 && bytes.len() < 2500 {
                                        o.samples.push(serde_json::from_slice(&bytes).unwrap_or(Value::Null));
                                    }
                                }
                                if let Err(e) = res {
                                    stop_above.fetch_min(shard, Ordering::SeqCst);
                                    note_failure::<P>(env, &case, &e);
                                    let (c, e) = tree_shrink::<P>(&mut *tree, case, e, &dir, w, t0);
                                    o.failure = Some((c, e));
                                    break;
                                }
                                w.started.store(0, Ordering::Relaxed);
                            }
                            w.started.store(0, Ordering::Relaxed);
                            w.note(b"");
                            outs.lock().unwrap().insert(shard, o);
                        })
                        .expect("thread"),
                );
            }
            // Watchdog: a case that does not come back ends the run; the
            // supervising process judges it on its own.
            let (watches, done) = (&watches, &done);
            let wd = s.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64;
                    for w in watches {
                        let st = w.started.load(Ordering::Relaxed);
                        if st != 0 && now > st + PATIENCE.as_millis() as u64 {
                            std::process::exit(STUCK);
                        }
                    }
                }
            });
            for h in handles {
                let _ = h.join();
            }
            done.store(true, Ordering::SeqCst);
            let _ = wd.join();
        });
    }
    let outs = outs.into_inner().unwrap();
    let mut evaluations = replayed;
    let mut distinct = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut sizes = [0u64; 3];
    for (_, o) in outs {
        evaluations += o.evaluations;
        distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        for i in 0..3 {
            sizes[i] += o.sizes[i];
        }
        if samples.len() < 6 {
            samples.extend(o.samples);
        }
        if failure.is_none() {
            failure = o.failure;
        }
    }
    let expected = per * SHARDS;
    let gen_errors = gen_errors.into_inner();
    if failure.is_none() && evaluations + gen_errors < expected {
        eprintln!("ERROR: property {id}: only {evaluations} of {expected} cases ran");
        return 5;
    }
    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((case, msg)) = failure {
        note_failure::<P>(env, &case, &msg);
        let _alarm = Alarm::set();
        let (case, msg) = json_shrink::<P>(case, msg, &shard_dir(env, "shrink"));
        let file = write_replay::<P>(env, &case, &msg);
        println!("property {id} fails on a {origin} case: {msg}");
        println!("minimal case: {}", truncate(&serde_json::to_string(&case).unwrap(), 2000));
        println!("VIOLATION property={id} replay={}", file.display());
        violation = json!({ "message": truncate(&msg, 4000), "replay": file });
        code = 1;
    }
    if env.write_evidence {
        let ev = json!({
            "property": id,
            "tier": env.tier.name(),
            "seed": env.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct.len(),
                "rule": P::RULE,
                "samples": samples,
                "labels": labels,
                "saved_inputs_replayed": replayed,
                "case_bytes_lt300_lt3000_more": sizes,
                "generator_rejects": gen_errors,
            },
            "assumptions": P::ASSUMPTIONS,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": if code == 1 { 1 } else { 0 },
            "violation": violation,
        });
        let dir = env.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{id}.json"));
        if let Err(e) = std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("ERROR: cannot write {}: {e}", f.display());
            return 6;
        }
    }
    if code == 0 {
        println!(
            "property {id} ({}, seed {}): {} cases, {} distinct non-trivial, held on all, {:.1} s",
            env.tier.name(),
            env.seed,
            evaluations,
            distinct.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}

fn tree_shrink<P: Prop>(
    tree: &mut dyn ValueTree<Value = P::Case>,
    case: P::Case,
    err: String,
    dir: &Path,
    w: &Watch,
    t0: Instant,
) -> (P::Case, String) {
    let start = Instant::now();
    let mut best = (case, err);
    let mut n = 0;
    if !tree.simplify() {
        return best;
    }
    while n < 3000 && start.elapsed() < Duration::from_secs(15) {
        n += 1;
        w.started.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        let cur = tree.current();
        let mut ctx = Ctx::new(dir.to_path_buf());
        match run_case::<P>(&cur, &mut ctx) {
            Err(e) => {
                best = (cur, e);
                if !tree.simplify() {
                    break;
                }
            }
            Ok(()) => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    w.started.store(0, Ordering::Relaxed);
    best
}

fn json_shrink<P: Prop>(case: P::Case, msg: String, dir: &Path) -> (P::Case, String) {
    let v = match serde_json::to_value(&case) {
        Ok(v) => v,
        Err(_) => return (case, msg),
    };
    let mut fails = |v: &Value| -> bool {
        match serde_json::from_value::<P::Case>(v.clone()) {
            Ok(c) => {
                let mut ctx = Ctx::new(dir.to_path_buf());
                run_case::<P>(&c, &mut ctx).is_err()
            }
            Err(_) => false,
        }
    };
    // A failure that does not repeat is still a failure: keep it as it was found.
    if !fails(&v) {
        return (case, msg);
    }
    let best = shrink::shrink(v, Duration::from_secs(25), &mut fails);
    let c: P::Case = serde_json::from_value(best).expect("shrunk case");
    let mut ctx = Ctx::new(dir.to_path_buf());
    match run_case::<P>(&c, &mut ctx) {
        Err(e) => (c, e),
        Ok(()) => (case, msg),
    }
}

fn write_replay<P: Prop>(env: &Env, case: &P::Case, msg: &str) -> PathBuf {
    let dir = env.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::to_value(case).unwrap_or(Value::Null);
    let h = hash_bytes(v.to_string().as_bytes());
    let f = dir.join(format!("{}-{:016x}.json", P::ID, h));
    let doc = json!({ "property": P::ID, "case": v, "message": msg });
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&doc).unwrap() + "\n");
    f
}

pub fn load_case<P: Prop>(f: &Path) -> Result<P::Case, String> {
    let s = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
    let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    let c = v.get("case").cloned().unwrap_or(v);
    serde_json::from_value(c).map_err(|e| e.to_string())
}

/// Writes the replay file for a case that ended or held up the process.
pub fn write_raw(env: &Env, id: &str, case: &Value, msg: &str) -> PathBuf {
    let dir = env.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{:016x}.json", id, hash_bytes(case.to_string().as_bytes())));
    let doc = json!({ "property": id, "case": case, "message": msg });
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&doc).unwrap() + "\n");
    f
}

/// Replays one saved case; exit 1 if it still fails.
pub fn replay<P: Prop>(env: &Env, f: &Path) -> i32 {
    match load_case::<P>(f) {
        Err(e) => {
            eprintln!("ERROR: {}: {e}", f.display());
            4
        }
        Ok(c) => {
            let mut ctx = Ctx::new(shard_dir(env, "replay"));
            match run_case::<P>(&c, &mut ctx) {
                Ok(()) => {
                    println!("{}: holds", f.display());
                    0
                }
                Err(e) => {
                    println!("{e}");
                    println!("VIOLATION property={} replay={}", P::ID, f.display());
                    1
                }
            }
        }
    }
}

/// A case decoded from fuzzer bytes: the bytes are the generator's randomness.
pub fn case_from_bytes<P: Prop>(strat: &BoxedStrategy<P::Case>, data: &[u8]) -> Option<P::Case> {
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, data));
    strat.new_tree(&mut r).ok().map(|t| t.current())
}

/// One fuzzer execution: check, and on failure minimise, write the replay file and
/// report. Returns false on failure.
pub fn fuzz_one<P: Prop>(env: &Env, strat: &BoxedStrategy<P::Case>, data: &[u8], ctx: &mut Ctx) -> bool {
    let Some(case) = case_from_bytes::<P>(strat, data) else { return true };
    if let Err(e) = run_case::<P>(&case, ctx) {
        let (c, m) = json_shrink::<P>(case, e, &shard_dir(env, "shrink"));
        let f = write_replay::<P>(env, &c, &m);
        println!("property {} fails on a fuzzed case: {m}", P::ID);
        println!("VIOLATION property={} replay={}", P::ID, f.display());
        return false;
    }
    true
}
