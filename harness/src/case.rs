//! Case runner: deterministic sub-seeds, parallel workers, panic capture, evidence and replay files.
use rand::prelude::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
    /// The case this thread runs; 0 if none.
    static RUNNING: Cell<u64> = const { Cell::new(0) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let msg = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
        if !quiet && std::env::var("VERIF_PANICS").is_ok() {
            default(info);
        }
    }));
}

extern "C" {
    fn signal(signum: i32, handler: usize) -> usize;
    fn alarm(seconds: u32) -> u32;
    fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    fn _exit(status: i32) -> !;
}
const SIGABRT: i32 = 6;
const RLIMIT_AS: i32 = 9;
/// Address space a check may use: what it needs many times over, less than the machine has.
const MAX_MEMORY: u64 = 20 << 30;
/// Seconds after which a case (they take milliseconds) counts as never ending.
const MAX_CASE_SECS: u64 = 120;
static PROPERTY: OnceLock<&'static str> = OnceLock::new();
static LAST_STARTED: AtomicU64 = AtomicU64::new(0);

/// Reports a case which the process does not survive.
fn report_fatal(case_seed: u64, key: &str, what: &str) {
    let id = PROPERTY.get().copied().unwrap_or("?");
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{case_seed}.json"));
    let doc = json!({
        "property": id, "key": key, "what": what, "case_seed": case_seed.to_string(), "verif_seed": env_seed(),
        "tier": format!("{:?}", env_tier()).to_lowercase(), "rerun": format!("./check.sh {id} --case {case_seed}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    println!("  [{key}] {what} (case {case_seed})");
    println!("VIOLATION property={id} replay={}", path.display());
}

/// The code under test ran out of memory or stack, or panicked while panicking.
extern "C" fn on_abort(_: i32) {
    unsafe { alarm(20) };
    let seed = match RUNNING.with(|c| c.get()) {
        0 => LAST_STARTED.load(Ordering::SeqCst),
        s => s,
    };
    report_fatal(seed, "abort", "the process aborts (memory or stack exhausted, or a panic while panicking) on an input of the property's domain");
    unsafe { _exit(1) }
}

/// Runs f; Err(panic message with location) if it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|e| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

#[derive(Clone)]
pub struct Failure {
    pub key: String,
    pub msg: String,
    pub case_seed: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub seed: u64,
    pub rng: StdRng,
    pub tier: Tier,
    pub index: u64,
    pub fails: Vec<Failure>,
    counters: BTreeMap<String, u64>,
    sigs: Vec<u64>,
    sample: Option<Value>,
}

impl Case {
    pub fn new(seed: u64, index: u64, tier: Tier) -> Self {
        Self {
            seed,
            rng: StdRng::seed_from_u64(seed),
            tier,
            index,
            fails: vec![],
            counters: BTreeMap::new(),
            sigs: vec![],
            sample: None,
        }
    }
    pub fn fail(&mut self, key: &str, msg: impl Into<String>) {
        if self.fails.len() < 20 {
            self.fails.push(Failure { key: key.into(), msg: msg.into(), case_seed: self.seed });
        }
    }
    pub fn check(&mut self, cond: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.count("oracle_checks", 1);
        if !cond {
            self.fail(key, msg());
        }
        cond
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.into(), n);
        }
    }
    /// Marks the case (or a part of it) as non-trivial, with a signature of what was observed.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, observed: &T) {
        self.sigs.push(hash(observed));
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.sample.is_none() && self.index < 3 {
            self.sample = Some(v());
        }
    }
}

pub struct Spec {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// Counters (besides distinct_nontrivial) which must not be zero for a conclusive run.
    pub require: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub threads: usize,
    pub time_cap: [u64; 2],
}

impl Spec {
    pub fn new(id: &'static str, quick: u64, thorough: u64, rule: &'static str) -> Self {
        Spec {
            id,
            quick,
            thorough,
            rule,
            require: &[],
            assumptions: &[],
            level: "exploration",
            threads: 0,
            time_cap: [120, 840],
        }
    }
    pub fn require(mut self, r: &'static [&'static str]) -> Self {
        self.require = r;
        self
    }
    pub fn assume(mut self, a: &'static [&'static str]) -> Self {
        self.assumptions = a;
        self
    }
    pub fn level(mut self, l: &'static str) -> Self {
        self.level = l;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn repo_dir() -> PathBuf {
    std::env::var("VERIF_REPO").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/repo"))
}
pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
pub fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn known_findings(id: &str) -> HashSet<String> {
    // Lines: "finding: property=<id> key=<key> <description>"
    std::fs::read_to_string(verif_dir().join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("finding:")?.trim();
            let mut it = l.split_whitespace();
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            (p == id).then(|| k.to_string())
        })
        .collect()
}

/// Runs the cases of a property and exits the process: 0 held, 1 violated, 2 inconclusive.
pub fn run(spec: Spec, f: impl Fn(&mut Case) + Sync) -> ! {
    std::process::exit(run_code(spec, f))
}

pub fn run_code(spec: Spec, f: impl Fn(&mut Case) + Sync) -> i32 {
    run_code2(spec, f, |_| {})
}

/// Like run_code, with a last check over what all cases observed together.
pub fn run_code2(spec: Spec, f: impl Fn(&mut Case) + Sync, last: impl FnOnce(&mut Case)) -> i32 {
    let start = Instant::now();
    let tier = env_tier();
    let seed = env_seed();
    let only: Option<u64> = {
        let args: Vec<String> = std::env::args().collect();
        args.iter().position(|a| a == "--case").map(|i| args[i + 1].parse().expect("case seed"))
    };
    let n = match (only, tier) {
        (Some(_), _) => 1,
        (_, Tier::Quick) => spec.quick,
        (_, Tier::Thorough) => spec.thorough,
    };
    let n = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let cap = Duration::from_secs(spec.time_cap[if tier == Tier::Quick { 0 } else { 1 }]);
    let threads = if spec.threads > 0 {
        spec.threads
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    };
    let base = splitmix(seed ^ hash(spec.id));
    // The others run the code under test in other processes.
    let fatal = spec.id.starts_with('C');
    if fatal {
        let _ = PROPERTY.set(spec.id);
        unsafe {
            setrlimit(RLIMIT_AS, &[MAX_MEMORY, MAX_MEMORY]);
            signal(SIGABRT, on_abort as usize);
        }
    }
    let done = AtomicBool::new(false);
    let running: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let left = AtomicUsize::new(threads);
    let next = AtomicU64::new(0);
    let nfail = AtomicUsize::new(0);
    struct Acc {
        evals: u64,
        counters: BTreeMap<String, u64>,
        sigs: HashSet<u64>,
        samples: Vec<(u64, Value)>,
        fails: Vec<Failure>,
    }
    let acc = Mutex::new(Acc {
        evals: 0,
        counters: BTreeMap::new(),
        sigs: HashSet::new(),
        samples: vec![],
        fails: vec![],
    });
    std::thread::scope(|s| {
        if fatal {
            // Counts its own wake-ups instead of the time, so that a paused machine does not count.
            s.spawn(|| {
                let mut seen: Vec<(u64, u64)> = vec![(0, 0); threads];
                while !done.load(Ordering::SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(50));
                    for (i, r) in running.iter().enumerate() {
                        let r = r.load(Ordering::SeqCst);
                        seen[i] = if r == seen[i].0 && r != 0 { (r, seen[i].1 + 1) } else { (r, 0) };
                        if seen[i].1 >= MAX_CASE_SECS * 20 {
                            report_fatal(r, "hang", &format!("no end after {MAX_CASE_SECS} s on an input of the property's domain"));
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        for t in 0..threads {
            let (acc, f, next, nfail, running, done, left) = (&acc, &f, &next, &nfail, &running[t], &done, &left);
            s.spawn(move || {
              loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n || start.elapsed() > cap || nfail.load(Ordering::SeqCst) >= 40 {
                    break;
                }
                let cs = only.unwrap_or_else(|| splitmix(base.wrapping_add(i)));
                let mut case = Case::new(cs, i, tier);
                RUNNING.with(|r| r.set(cs));
                running.store(cs, Ordering::SeqCst);
                LAST_STARTED.store(cs, Ordering::SeqCst);
                if let Err(p) = guard(|| f(&mut case)) {
                    let key = format!("panic:{}", p.split(" panicked at ").last().unwrap_or(&p).split(": ").next().unwrap_or(""));
                    case.fail(&key, format!("panic on an input of the property's domain: {p}"));
                }
                nfail.fetch_add(case.fails.len(), Ordering::SeqCst);
                let mut a = acc.lock().unwrap();
                a.evals += 1;
                for (k, v) in case.counters {
                    *a.counters.entry(k).or_insert(0) += v;
                }
                a.sigs.extend(case.sigs);
                if let Some(v) = case.sample {
                    a.samples.push((i, v));
                }
                a.fails.extend(case.fails);
              }
              running.store(0, Ordering::SeqCst);
              if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                  done.store(true, Ordering::SeqCst);
              }
            });
        }
    });
    let mut a = acc.into_inner().unwrap();
    // With the number of cases as index.
    let mut case = Case::new(base, a.evals, tier);
    last(&mut case);
    for (k, v) in case.counters {
        *a.counters.entry(k).or_insert(0) += v;
    }
    a.fails.extend(case.fails);
    a.samples.sort_by_key(|s| s.0);
    a.fails.sort_by_key(|f| (f.key.clone(), f.case_seed));
    finish(
        &spec,
        tier,
        seed,
        start,
        a.evals,
        a.sigs.len() as u64,
        a.counters,
        a.samples.into_iter().map(|s| s.1).collect(),
        a.fails,
        only.is_some(),
    )
}

#[allow(clippy::too_many_arguments)]
pub fn finish(
    spec: &Spec,
    tier: Tier,
    seed: u64,
    start: Instant,
    evals: u64,
    distinct: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    fails: Vec<Failure>,
    replaying: bool,
) -> i32 {
    let known = known_findings(spec.id);
    let mut violations = 0;
    let mut seen = HashSet::new();
    let mut seen_known = HashSet::new();
    for f in &fails {
        if known.contains(&f.key) {
            if seen_known.insert(f.key.clone()) {
                println!("KNOWN-FINDING: property={} key={} {}", spec.id, f.key, f.msg);
            }
            continue;
        }
        violations += 1;
        if !seen.insert(f.key.clone()) || seen.len() > 8 {
            continue;
        }
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", spec.id, f.case_seed));
        let doc = json!({
            "property": spec.id, "key": f.key, "what": f.msg, "case_seed": f.case_seed.to_string(),
            "verif_seed": seed, "tier": format!("{tier:?}").to_lowercase(),
            "rerun": format!("./check.sh {} --case {}", spec.id, f.case_seed),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        let mut msg = f.msg.clone();
        if msg.len() > 1500 {
            let mut e = 1500;
            while !msg.is_char_boundary(e) {
                e -= 1;
            }
            msg.truncate(e);
        }
        println!("  [{}] {} (case {})", f.key, msg, f.case_seed);
        println!("VIOLATION property={} replay={}", spec.id, path.display());
    }
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(evals));
    cov.insert("distinct_nontrivial".into(), json!(distinct));
    cov.insert("rule".into(), json!(spec.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("observed".into(), json!(counters));
    let mut missing: Vec<&str> =
        spec.require.iter().filter(|k| counters.get(**k).copied().unwrap_or(0) == 0).copied().collect();
    if distinct < 2 {
        missing.push("distinct_nontrivial");
    }
    let inconclusive = violations == 0 && !replaying && !missing.is_empty();
    let ev = json!({
        "property": spec.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": spec.level,
        "coverage": cov,
        "assumptions": spec.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    if !replaying {
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("write evidence");
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {:.1} s; observed {}",
        spec.id,
        evals,
        distinct,
        violations,
        start.elapsed().as_secs_f64(),
        serde_json::to_string(&counters).unwrap()
    );
    if violations > 0 {
        1
    } else if inconclusive {
        println!("INCONCLUSIVE property={}: nothing observed for {:?}", spec.id, missing);
        2
    } else {
        0
    }
}
