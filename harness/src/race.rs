//! R01: the workload which the sanitizers and Miri watch (child-race), and the monitor which builds, runs and reads them.
use crate::case::*;
use crate::gen::*;
use crate::genetics::ByRef;
use crate::world::*;
use juno::genetics::{
    crossover::UniformCrossover, mutation::UniformMutation, reinsertion::EliteReinsertion, selection::EliteSelection, Chromosome, Generation, GeneticAlgorithm,
};
use juno::statistics::Statistics;
use juno::stop_loss::{StopLoss, StopLossParams};
use juno::strategies::{Oscillator, OscillatorParams, Signal, SignalParams, Strategy, StrategyMeta, StrategyParams};
use juno::take_profit::{TakeProfit, TakeProfitParams};
use juno::trading::{BasicEvaluation, EvaluationAggregation, EvaluationStatistic, TradingParams, TradingParamsContext};
use juno::{Candle, Interval, Timestamp};
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::os::unix::process::CommandExt;
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Barrier};
use std::time::{Duration, Instant};

/// Which of the values are in use by some thread at the same time.
struct Overlap {
    running: AtomicU64,
    seen: AtomicU64,
}
impl Overlap {
    fn new() -> Overlap {
        Overlap { running: AtomicU64::new(0), seen: AtomicU64::new(0) }
    }
    // Relaxed, in order not to synchronise what is being watched.
    fn run<T>(&self, f: impl FnOnce() -> T) -> T {
        if self.running.fetch_add(1, Ordering::Relaxed) > 0 {
            self.seen.fetch_add(1, Ordering::Relaxed);
        }
        let r = f();
        self.running.fetch_sub(1, Ordering::Relaxed);
        r
    }
}

/// Something fed with candles, whose observable state is a number.
trait Fed: Send + Sync {
    fn feed(&mut self, c: &Candle);
    fn look(&self) -> u64;
}
struct Sig(Box<dyn Signal>);
impl Fed for Sig {
    fn feed(&mut self, c: &Candle) {
        self.0.update(c)
    }
    fn look(&self) -> u64 {
        let advice = if self.0.mature() { format!("{:?}", self.0.advice()).len() as u64 } else { 0 };
        advice * 1000 + self.0.maturity() as u64 * 2 + self.0.mature() as u64
    }
}
struct Osc(Box<dyn Oscillator>);
impl Fed for Osc {
    fn feed(&mut self, c: &Candle) {
        self.0.update(c)
    }
    fn look(&self) -> u64 {
        let s = if self.0.mature() { self.0.overbought() as u64 * 2 + self.0.oversold() as u64 } else { 0 };
        s * 1000 + self.0.maturity() as u64 * 2 + self.0.mature() as u64
    }
}
struct Sl(Box<dyn StopLoss>, u64);
impl Fed for Sl {
    fn feed(&mut self, c: &Candle) {
        if self.1 % 7 == 0 {
            self.0.clear(c);
        }
        self.1 += 1;
        self.0.update(c)
    }
    fn look(&self) -> u64 {
        self.0.upside_hit() as u64 * 2 + self.0.downside_hit() as u64
    }
}
struct Tp(Box<dyn TakeProfit>, u64);
impl Fed for Tp {
    fn feed(&mut self, c: &Candle) {
        if self.1 % 7 == 0 {
            self.0.clear(c);
        }
        self.1 += 1;
        self.0.update(c)
    }
    fn look(&self) -> u64 {
        self.0.upside_hit() as u64 * 2 + self.0.downside_hit() as u64
    }
}

fn components(rng: &mut StdRng, pmax: u64) -> Vec<(String, Box<dyn Fn() -> Box<dyn Fed> + Send + Sync>)> {
    let meta = || StrategyMeta { interval: Interval(HOUR) };
    let mut out: Vec<(String, Box<dyn Fn() -> Box<dyn Fed> + Send + Sync>)> = vec![];
    for k in SIGNALS {
        let v = signal_of(rng, k, pmax);
        let p: StrategyParams = serde_json::from_value(v.clone()).unwrap();
        out.push((k.into(), Box::new(move || Box::new(Sig(p.construct(&meta()))))));
        let p: SignalParams = serde_json::from_value(v).unwrap();
        out.push((format!("{k} as signal"), Box::new(move || Box::new(Sig(p.construct(&meta()))))));
    }
    for (t, buffer) in [("Sig", false), ("Sig", true), ("SigOsc", false)] {
        let mut v = json!({"type": t, "sig": signal(rng, pmax), "persistence": rng.gen_range(0..4u32), "mid_trend_policy": policy(rng)});
        if t == "SigOsc" {
            v["osc"] = oscillator(rng, pmax);
            v["osc_filter"] = json!(pick(rng, &["Enforce", "Prevent"]));
        } else {
            v["buffer_interval"] = if buffer { json!(2 * HOUR) } else { Value::Null };
        }
        let p: StrategyParams = serde_json::from_value(v).unwrap();
        out.push((format!("{t} {buffer}"), Box::new(move || Box::new(Sig(p.construct(&meta()))))));
    }
    for i in 0..2 {
        let p: OscillatorParams = serde_json::from_value(oscillator(rng, pmax)).unwrap();
        out.push((format!("oscillator {i}"), Box::new(move || Box::new(Osc(p.construct(&meta()))))));
    }
    for i in 0..6 {
        let p: StopLossParams = serde_json::from_value(stop_loss(rng, false)).unwrap();
        out.push((format!("stop loss {i}"), Box::new(move || Box::new(Sl(p.construct(), 0)))));
        let p: TakeProfitParams = serde_json::from_value(take_profit(rng, false)).unwrap();
        out.push((format!("take profit {i}"), Box::new(move || Box::new(Tp(p.construct(), 0)))));
    }
    out
}

struct Size {
    pmax: u64,
    candles: usize,
    days: usize,
    population: usize,
    generations: usize,
    threads: usize,
    /// Components looked at (all, or some of them).
    components: usize,
}

fn silent<T: Chromosome>(_: usize, _: &Generation<T>) {}

/// One round; counts what it did, and says where parallel results differ from sequential ones.
fn round(rng: &mut StdRng, z: &Size, first: bool, counts: &mut BTreeMap<String, u64>, wrong: &mut Vec<String>) {
    let add = |counts: &mut BTreeMap<String, u64>, k: &str, n: u64| *counts.entry(k.into()).or_insert(0) += n;

    // Lazily initialised statics, raced for by their first users.
    if first {
        let gate = Barrier::new(z.threads);
        std::thread::scope(|s| {
            for i in 0..z.threads {
                let gate = &gate;
                s.spawn(move || {
                    gate.wait();
                    for j in 0..4 {
                        match (i + j) % 4 {
                            0 => drop(serde_json::from_value::<Interval>(json!("1h"))),
                            1 => drop(serde_json::from_value::<Timestamp>(json!("2020-01-02"))),
                            2 => drop(juno::easing::tween(0.3, juno::easing::Easing::QuadIn)),
                            _ => {
                                let mut ctx = TradingParamsContext::default();
                                ctx.trader.intervals = vec![Interval(HOUR)];
                                drop(TradingParams::generate(&mut StdRng::seed_from_u64(1), &ctx))
                            }
                        }
                    }
                });
            }
        });
        add(counts, "first_uses", 4 * z.threads as u64);
    }

    let t = Instant::now();
    let mark = |what: &str| {
        if std::env::var("VERIF_TIMES").is_ok() {
            eprintln!("{what} {:.1} s", t.elapsed().as_secs_f64());
        }
    };
    // Components built on one thread, used by others in turn, several of a kind at the same time.
    let shape = pick(rng, &SHAPES);
    let cs = series_with(rng, z.candles, HOUR, shape, 17_000 * DAY, 0.0).candles;
    let mut parts = components(rng, z.pmax);
    parts.shuffle(rng);
    parts.truncate(z.components);
    let o = Overlap::new();
    for (name, make) in &parts {
        let mut alone = make();
        let want: Vec<u64> = cs
            .iter()
            .map(|c| {
                alone.feed(c);
                alone.look()
            })
            .collect();
        let mut those: Vec<Box<dyn Fed>> = (0..z.threads).map(|_| make()).collect();
        // A ring of threads: each feeds some candles and passes the component on.
        let (txs, rxs): (Vec<_>, Vec<_>) = (0..z.threads).map(|_| mpsc::channel::<(Box<dyn Fed>, usize)>()).unzip();
        let (done, ended) = mpsc::channel();
        let (cs, want, o) = (&cs, &want, &o);
        let (mut bad, finished) = std::thread::scope(|s| {
            for (i, x) in those.drain(..).enumerate() {
                txs[i].send((x, 0)).unwrap();
            }
            let hs: Vec<_> = rxs
                .into_iter()
                .enumerate()
                .map(|(i, rx)| {
                    let next = txs[(i + 1) % txs.len()].clone();
                    let done = done.clone();
                    s.spawn(move || {
                        let mut bad = vec![];
                        while let Ok((mut x, mut at)) = rx.recv() {
                            if at == usize::MAX {
                                break;
                            }
                            o.run(|| {
                                for _ in 0..5 {
                                    if at == cs.len() {
                                        break;
                                    }
                                    x.feed(&cs[at]);
                                    let got = x.look();
                                    if got != want[at] {
                                        bad.push(format!("{name}: state {got} instead of {} after candle {at}", want[at]));
                                    }
                                    at += 1;
                                }
                            });
                            if at == cs.len() {
                                done.send(x).unwrap();
                            } else {
                                next.send((x, at)).unwrap();
                            }
                        }
                        bad
                    })
                })
                .collect();
            let finished: Vec<Box<dyn Fed>> = (0..z.threads).map(|_| ended.recv().unwrap()).collect();
            for tx in &txs {
                tx.send((make(), usize::MAX)).unwrap();
            }
            let bad: Vec<String> = hs.into_iter().flat_map(|h| h.join().expect("component thread")).collect();
            (bad, finished)
        });
        // Read by several threads at once.
        std::thread::scope(|s| {
            let last = *want.last().unwrap();
            let x = &finished[0];
            let readers: Vec<_> = (0..z.threads).map(|_| s.spawn(move || o.run(|| (0..3).map(|_| x.look()).collect::<Vec<_>>()))).collect();
            for r in readers {
                if r.join().expect("reader").iter().any(|l| *l != last) {
                    bad.push(format!("{name}: another state when read from several threads"));
                }
            }
        });
        wrong.extend(bad.into_iter().take(2));
        add(counts, "components", 1);
        add(counts, "candles_fed", (cs.len() * z.threads) as u64);
    }
    mark("components");
    add(counts, "overlapping_uses", o.seen.load(Ordering::Relaxed));

    // Populations evaluated, evolved and backtested by several threads at once, on shared data.
    let w = World::sized(rng, z.days);
    let (stat, agg) = (pick(rng, &EvaluationStatistic::values()), pick(rng, &EvaluationAggregation::values()));
    let eval: BasicEvaluation = w.evaluation(&w.symbols, stat, agg);
    let mut pop: Vec<TradingParams> = (0..z.population).map(|_| w.chromosome(rng)).collect();
    // One which trades whenever the price turns.
    let i = w.intervals[0].0;
    pop[0] = parse_trading(&json!({
        "strategy": {"type": "DoubleMA", "mas": [{"type": "Sma", "period": 1}, {"type": "Sma", "period": 2}]},
        "trader": {"interval": i}, "stop_loss": stop_loss(rng, false), "take_profit": take_profit(rng, false),
    }));
    mark("world");
    let ctx = w.context();
    let seed: u64 = rng.gen();
    let evolve = || {
        let ga = GeneticAlgorithm::new(
            ByRef(&eval),
            EliteSelection { shuffle: false },
            UniformCrossover::new(0.5),
            UniformMutation::new(0.25),
            EliteReinsertion::new(0.75, 0.5),
        );
        let e = ga.evolve(z.population, z.generations, 2, Some(seed), silent, &ctx);
        e.generations.iter().map(|g| g.hall_of_fame.iter().map(|i| format!("{:x} {:?}", i.fitness.to_bits(), i.chromosome)).collect::<Vec<_>>().join(";")).collect::<Vec<_>>()
    };
    let backtest = || {
        let mut out = vec![];
        for s in &w.symbols {
            for p in pop.iter().take(3) {
                let sum = w.backtest(s, p);
                let st = Statistics::compose(&sum, s, &w.prices, Interval::DAY_MS);
                out.push(serde_json::to_string(&st).unwrap());
            }
        }
        out
    };
    let evaluate = || run_evaluation(&eval, &pop).iter().map(|f| f.to_bits()).collect::<Vec<_>>();
    let want_fit = evaluate();
    mark("evaluate");
    let want_gen = evolve();
    mark("evolve");
    let want_stats = backtest();
    mark("backtest");
    let o = Overlap::new();
    let gate = Barrier::new(3 * z.threads.min(3));
    let bad: Vec<String> = std::thread::scope(|s| {
        let mut hs = vec![];
        for i in 0..3 * z.threads.min(3) {
            let (o, gate, evaluate, evolve, backtest) = (&o, &gate, &evaluate, &evolve, &backtest);
            let (want_fit, want_gen, want_stats) = (&want_fit, &want_gen, &want_stats);
            hs.push(s.spawn(move || {
                gate.wait();
                o.run(|| match i % 3 {
                    0 => (evaluate() != *want_fit).then(|| "fitness when evaluated concurrently".to_string()),
                    1 => (evolve() != *want_gen).then(|| "generations when evolved concurrently".to_string()),
                    _ => (backtest() != *want_stats).then(|| "statistics when backtested concurrently".to_string()),
                })
            }));
        }
        hs.into_iter().filter_map(|h| h.join().expect("worker")).collect()
    });
    mark("together");
    wrong.extend(bad);
    add(counts, "overlapping_runs", o.seen.load(Ordering::Relaxed));
    add(counts, "evaluations", (z.population * 3) as u64);
    add(counts, "rounds", 1);
    add(counts, "positions", want_stats.iter().map(|s| s.matches("open_time").count() as u64).sum());
}

/// child-race <native|miri> <seed> <rounds>
pub fn child() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[3].parse().expect("seed");
    let rounds: u64 = args[4].parse().expect("rounds");
    let miri = args[2] == "miri";
    let mut counts = BTreeMap::new();
    let mut wrong = vec![];
    for i in 0..rounds {
        let rng = &mut StdRng::seed_from_u64(splitmix(seed.wrapping_add(i)));
        let z = if miri {
            Size { pmax: 3, candles: 14, days: 2, population: 3, generations: 1, threads: 2, components: 10 }
        } else {
            Size { pmax: 8, candles: 60, days: rng.gen_range(2..8), population: rng.gen_range(4..14), generations: 2, threads: 4, components: 64 }
        };
        round(rng, &z, i == 0, &mut counts, &mut wrong);
    }
    println!("{}", json!({"counts": counts, "wrong": wrong.iter().take(5).collect::<Vec<_>>(), "nr_wrong": wrong.len()}));
}

// ---------------------------------------------------------------- the monitor

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tool {
    Tsan,
    Asan,
    Miri,
}
impl Tool {
    fn name(self) -> &'static str {
        match self {
            Tool::Tsan => "tsan",
            Tool::Asan => "asan",
            Tool::Miri => "miri",
        }
    }
    fn target(self) -> PathBuf {
        verif_dir().join(format!("target/race-{}", self.name()))
    }
    fn cargo(self) -> Command {
        let mut c = Command::new("cargo");
        c.arg("+nightly");
        match self {
            Tool::Miri => c.args(["miri", "run", "-q"]),
            Tool::Tsan => c.args(["build", "-q", "--release", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]).env("RUSTFLAGS", "-Zsanitizer=thread"),
            Tool::Asan => c.args(["build", "-q", "--release", "--target", "x86_64-unknown-linux-gnu"]).env("RUSTFLAGS", "-Zsanitizer=address"),
        };
        c.args(["--offline", "--locked", "--manifest-path"])
            .arg(verif_dir().join("race/Cargo.toml"))
            .arg("--target-dir")
            .arg(self.target())
            .env_remove("RUSTUP_TOOLCHAIN")
            .env_remove("CARGO_TARGET_DIR");
        c
    }
    fn run(self, seed: u64, rounds: u64) -> Command {
        let mode = if self == Tool::Miri { "miri" } else { "native" };
        let mut c = if self == Tool::Miri {
            let mut c = self.cargo();
            c.arg("--").env(
                "MIRIFLAGS",
                format!("-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-deterministic-floats -Zmiri-seed={}", seed % 1_000_000),
            );
            c.env("RAYON_NUM_THREADS", "2");
            c
        } else {
            Command::new(self.target().join("x86_64-unknown-linux-gnu/release/verif"))
        };
        c.args(["child-race", mode, &seed.to_string(), &rounds.to_string()]);
        c.env("TSAN_OPTIONS", format!("halt_on_error=0:report_signal_unsafe=0:exitcode=66:suppressions={}", verif_dir().join("race/tsan.supp").display()));
        c.env("ASAN_OPTIONS", "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=67");
        c
    }
}

struct Ran {
    tool: Tool,
    seed: u64,
    rounds: u64,
    ok: bool,
    timed_out: bool,
    out: String,
    err: String,
    secs: f64,
}

fn run_tool(tool: Tool, seed: u64, rounds: u64, limit: Duration) -> Ran {
    let t = Instant::now();
    let dir = verif_dir().join("target");
    let (po, pe) = (dir.join(format!("race-{}-{seed}.out", tool.name())), dir.join(format!("race-{}-{seed}.err", tool.name())));
    let file = |p: &Path| std::fs::File::create(p).expect("log file");
    let mut child = match tool.run(seed, rounds).process_group(0).stdin(std::process::Stdio::null()).stdout(file(&po)).stderr(file(&pe)).spawn() {
        Ok(c) => c,
        Err(e) => return Ran { tool, seed, rounds, ok: false, timed_out: true, out: String::new(), err: format!("{e}"), secs: 0.0 },
    };
    let mut timed_out = false;
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        if t.elapsed() > limit {
            timed_out = true;
            // Miri runs below cargo.
            let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).output();
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(30));
    };
    let read = |p: &Path| std::fs::read(p).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    let (out, err) = (read(&po), read(&pe));
    let _ = std::fs::remove_file(&po);
    let _ = std::fs::remove_file(&pe);
    Ran { tool, seed, rounds, ok: status.map_or(false, |s| s.success()), timed_out, out, err, secs: t.elapsed().as_secs_f64() }
}

/// The reports of a run: a signature and an excerpt of each. None if the run failed without any.
fn reports(r: &Ran) -> Option<Vec<(String, String)>> {
    let mut out = vec![];
    // The innermost frames within the code under test, or within anything.
    let signature = |text: &str| -> String {
        let mut mine: Vec<String> = vec![];
        for l in text.lines() {
            if let Some(i) = l.find("juno::") {
                let f: String = l[i..].chars().take_while(|c| !c.is_whitespace() && *c != '<' && *c != '{').collect();
                if !mine.contains(&f) {
                    mine.push(f);
                }
            }
        }
        mine.truncate(2);
        mine.join("+")
    };
    let excerpt = |text: &str| text.lines().take(24).map(|l| l.trim()).collect::<Vec<_>>().join(" | ");
    match r.tool {
        Tool::Tsan => {
            for part in r.err.split("WARNING: ThreadSanitizer:").skip(1) {
                let kind = part.lines().next().unwrap_or("").split('(').next().unwrap_or("").trim().to_string();
                out.push((format!("tsan:{kind}:{}", signature(part)), excerpt(part)));
            }
            if let Some(i) = r.err.find("ERROR: ThreadSanitizer:") {
                out.push((format!("tsan:crash:{}", signature(&r.err[i..])), excerpt(&r.err[i..])));
            }
        }
        Tool::Asan => {
            if let Some(i) = r.err.find("ERROR: AddressSanitizer:") {
                let part = &r.err[i + 24..];
                let kind = part.split_whitespace().next().unwrap_or("").to_string();
                out.push((format!("asan:{kind}:{}", signature(part)), excerpt(part)));
            }
        }
        Tool::Miri => {
            if let Some(i) = r.err.find("error: Undefined Behavior:") {
                let part = &r.err[i + 6..];
                let kind: String = part.lines().next().unwrap_or("").split(':').take(2).collect::<Vec<_>>().join(":").chars().take(60).collect();
                out.push((format!("miri:{kind}:{}", signature(part)), excerpt(part)));
            }
        }
    }
    if out.is_empty() && r.ok {
        let v: Value = serde_json::from_str(r.out.lines().last().unwrap_or("")).ok()?;
        if v["nr_wrong"] != json!(0) {
            out.push(("different results".into(), format!("{}", v["wrong"])));
        }
    } else if out.is_empty() && !r.timed_out {
        // A panic, or an abort by a check of the standard library for undefined behaviour.
        if let Some(i) = r.err.find("unsafe precondition") {
            out.push((format!("precondition:{}", signature(&r.err[i..])), excerpt(&r.err[i..])));
        } else if r.err.contains("SIGSEGV") || r.err.contains("stack overflow") {
            out.push(("crash".into(), excerpt(&r.err)));
        } else {
            return None;
        }
    }
    Some(out)
}

pub fn r01() -> ! {
    let start = Instant::now();
    let tier = env_tier();
    let seed = env_seed();
    let spec = Spec::new(
        "R01",
        0,
        0,
        "a component, population, evolution or batch of backtests used by several threads while a sanitizer or Miri watches; distinct by tool, seed and round",
    )
    .assume(&[
        "reports with a frame of crossbeam_epoch (the memory reclamation of rayon's queues) are suppressed for ThreadSanitizer, which does not understand the fences it is made of",
        "leaks are not looked for",
    ]);
    let only: Option<String> = {
        let args: Vec<String> = std::env::args().collect();
        args.iter().position(|a| a == "--case").map(|i| args[i + 1].clone())
    };
    // Build all at once.
    let built: Vec<(Tool, Result<(), String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = [Tool::Tsan, Tool::Asan, Tool::Miri]
            .into_iter()
            .map(|t| {
                s.spawn(move || {
                    let mut c = t.cargo();
                    if t == Tool::Miri {
                        // Only built: it ends at once.
                        c.args(["--", "child-race", "miri", "0", "0"]).env("MIRIFLAGS", "-Zmiri-disable-isolation");
                    }
                    let r = c.output();
                    let r = match r {
                        Ok(o) if o.status.success() => Ok(()),
                        Ok(o) => Err(String::from_utf8_lossy(&o.stderr).to_string()),
                        Err(e) => Err(e.to_string()),
                    };
                    (t, r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("build thread")).collect()
    });
    let build_secs = start.elapsed().as_secs_f64();
    for (t, r) in &built {
        if let Err(e) = r {
            let tail: Vec<&str> = e.lines().rev().take(30).collect();
            println!("INCONCLUSIVE: the workload does not build for {}: {}", t.name(), tail.into_iter().rev().collect::<Vec<_>>().join("\n"));
            std::process::exit(2);
        }
    }
    let (native_procs, native_rounds, miri_procs) = match tier {
        Tier::Quick => (6u64, 15u64, 6u64),
        Tier::Thorough => (120, 60, 60),
    };
    let limit = if tier == Tier::Quick { Duration::from_secs(270) } else { Duration::from_secs(1200) };
    let mut jobs: Vec<(Tool, u64, u64)> = vec![];
    for i in 0..native_procs {
        for t in [Tool::Tsan, Tool::Asan] {
            jobs.push((t, splitmix(seed ^ 0x7a5 ^ (i << 32)) >> 1, native_rounds));
        }
    }
    // Slow, therefore last.
    for i in 0..miri_procs {
        jobs.push((Tool::Miri, splitmix(seed ^ 0x3117 ^ (i << 32)) >> 1, 1));
    }
    if let Some(o) = &only {
        // Races do not show every time.
        let seed: u64 = o.parse().expect("case seed");
        jobs = vec![(Tool::Miri, seed, 1)];
        for t in [Tool::Tsan, Tool::Asan] {
            jobs.extend(vec![(t, seed, native_rounds); 4]);
        }
    }
    let next = AtomicU64::new(0);
    let found = AtomicBool::new(false);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let ran: Vec<Ran> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..cores)
            .map(|_| {
                let (next, jobs, found) = (&next, &jobs, &found);
                s.spawn(move || {
                    let mut out = vec![];
                    while let Some((t, s, n)) = jobs.get(next.fetch_add(1, Ordering::SeqCst) as usize) {
                        if *t == Tool::Miri && found.load(Ordering::SeqCst) {
                            continue;
                        }
                        let r = run_tool(*t, *s, *n, limit);
                        if reports(&r).map_or(false, |r| !r.is_empty()) {
                            found.store(true, Ordering::SeqCst);
                        }
                        out.push(r);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("runner thread")).collect()
    });
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut fails: Vec<Failure> = vec![];
    let mut samples = vec![];
    let mut rounds = 0;
    let mut distinct: HashSet<(&str, u64, u64)> = HashSet::new();
    let mut broken: BTreeSet<String> = BTreeSet::new();
    for r in &ran {
        let t = r.tool.name();
        let mut add = |k: String, n: u64| *counters.entry(k).or_insert(0) += n;
        match reports(r) {
            Some(rs) => {
                for (key, text) in rs {
                    add(format!("{t}_reports"), 1);
                    if fails.len() < 200 {
                        fails.push(Failure { key, msg: format!("{t} with workload seed {} ({} rounds): {text}", r.seed, r.rounds), case_seed: r.seed });
                    }
                }
            }
            None => {
                add(format!("{t}_broken_runs"), 1);
                broken.insert(format!("{t} {}: {}", r.seed, r.err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ")));
            }
        }
        add(format!("{t}_timeouts"), r.timed_out as u64);
        add(format!("{t}_ms"), (r.secs * 1000.0) as u64);
        if let Ok(v) = serde_json::from_str::<Value>(r.out.lines().last().unwrap_or("")) {
            for (k, n) in v["counts"].as_object().into_iter().flatten() {
                add(format!("{t}_{k}"), n.as_u64().unwrap_or(0));
            }
            let n = v["counts"]["rounds"].as_u64().unwrap_or(0);
            rounds += n;
            for i in 0..n {
                distinct.insert((t, r.seed, i));
            }
            if samples.len() < 3 {
                samples.push(json!({"tool": t, "seed": r.seed, "counts": v["counts"]}));
            }
        }
    }
    counters.insert("build_ms".into(), (build_secs * 1000.0) as u64);
    let spec = spec.require(&["tsan_rounds", "tsan_overlapping_uses", "tsan_overlapping_runs", "asan_rounds", "tsan_positions"]);
    for b in &broken {
        println!("broken run: {b}");
    }
    fails.sort_by_key(|f| (f.key.clone(), f.case_seed));
    let code = finish(&spec, tier, seed, start, rounds, distinct.len() as u64, counters, samples, fails, only.is_some());
    std::process::exit(if code == 0 && !broken.is_empty() { 2 } else { code })
}
