//! C08–C13: evaluation of populations, reproducibility, the genetic algorithm and its operators.
use crate::case::*;
use crate::gen::*;
use crate::world::*;
use juno::genetics::{
    crossover::{Crossover, UniformCrossover},
    mutation::{Mutation, UniformMutation},
    reinsertion::{EliteReinsertion, FitnessReinsertion, PureReinsertion, Reinsertion},
    selection::{EliteSelection, GenerateRandomSelection, Selection, TournamentSelection},
    Chromosome, Evaluation, Evolution, Generation, GeneticAlgorithm, Individual,
};
use juno::trading::{trade, BasicEvaluation, EvaluationAggregation, EvaluationStatistic, TradeInput, TradingParams, TradingParamsContext};
use rand::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- operators of a configuration

pub enum Sel {
    Elite(EliteSelection),
    Tournament(TournamentSelection),
    Random(GenerateRandomSelection),
}
impl Selection for Sel {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, rate: f32, ctx: &T::Context) {
        match self {
            Sel::Elite(s) => s.select(rng, p, o, rate, ctx),
            Sel::Tournament(s) => s.select(rng, p, o, rate, ctx),
            Sel::Random(s) => s.select(rng, p, o, rate, ctx),
        }
    }
}
pub enum Rei {
    Elite(EliteReinsertion),
    Fitness(FitnessReinsertion),
    Pure(PureReinsertion),
}
impl Reinsertion for Rei {
    fn selection_rate(&self) -> f32 {
        match self {
            Rei::Elite(r) => r.selection_rate(),
            Rei::Fitness(r) => r.selection_rate(),
            Rei::Pure(r) => r.selection_rate(),
        }
    }
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) {
        match self {
            Rei::Elite(r) => r.reinsert(rng, p, o, n, ctx),
            Rei::Fitness(r) => r.reinsert(rng, p, o, n, ctx),
            Rei::Pure(r) => r.reinsert(rng, p, o, n, ctx),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Config {
    sel: u8,
    shuffle: bool,
    tour: f32,
    rei: u8,
    sel_rate: f32,
    gen_rate: f32,
    cross: f32,
    mutation: f32,
    pop: usize,
    gens: usize,
    hof: usize,
}

fn config(rng: &mut StdRng, max_pop: usize, max_gens: usize) -> Config {
    let rei = pick(rng, &[0u8, 0, 0, 1, 2]);
    let sel_rate = match rei {
        0 => pick(rng, &[0.75f32, 0.5, 0.25, 0.9, 0.1]),
        1 => pick(rng, &[1.25f32, 1.5, 2.0]),
        _ => 1.0,
    };
    let mut pop = rng.gen_range(2..=max_pop);
    if rei == 1 && ((pop as f32 * sel_rate) as usize) <= pop {
        pop = 4;
    }
    // Elite selection cannot select more parents than there are, random selection replaces all.
    let sel = match rei {
        0 => pick(rng, &[0u8, 0, 1]),
        1 => 1,
        _ => pick(rng, &[0u8, 1, 2]),
    };
    Config {
        sel,
        shuffle: rng.gen(),
        tour: pick(rng, &[0.2f32, 0.05, 0.5, 0.9]),
        rei,
        sel_rate,
        gen_rate: pick(rng, &[0.0f32, 0.5, 0.5, 0.25, 0.9, 1.0]),
        cross: pick(rng, &[0.5f32, 0.0, 1.0, 0.1]),
        mutation: pick(rng, &[0.25f32, 0.0, 1.0, 0.1]),
        pop,
        gens: rng.gen_range(0..=max_gens),
        hof: if chance(rng, 0.1) { pop + rng.gen_range(0..5) } else { rng.gen_range(1..=pop) },
    }
}
impl Config {
    fn sel(&self) -> Sel {
        match self.sel {
            0 => Sel::Elite(EliteSelection::new(self.shuffle)),
            // The defaults of the operators are configurations like others.
            1 if self.tour == 0.2 && self.shuffle => Sel::Tournament(TournamentSelection::default()),
            1 => Sel::Tournament(TournamentSelection::new(self.tour, true)),
            _ => Sel::Random(GenerateRandomSelection {}),
        }
    }
    fn rei(&self) -> Rei {
        match self.rei {
            0 if self.sel_rate == 0.75 && self.gen_rate == 0.0 => Rei::Elite(EliteReinsertion::default()),
            0 => Rei::Elite(EliteReinsertion::new(self.sel_rate, self.gen_rate)),
            1 if self.sel_rate == 1.25 && self.shuffle => Rei::Fitness(FitnessReinsertion::default()),
            1 => Rei::Fitness(FitnessReinsertion::new(self.sel_rate)),
            _ => Rei::Pure(PureReinsertion {}),
        }
    }
    fn cross(&self) -> UniformCrossover {
        if self.cross == 0.5 && self.shuffle { UniformCrossover::default() } else { UniformCrossover::new(self.cross) }
    }
    fn mutation(&self) -> UniformMutation {
        if self.mutation == 0.1 && self.shuffle { UniformMutation::default() } else { UniformMutation::new(self.mutation) }
    }
}

fn ignore<T: Chromosome>(_: usize, _: &Generation<T>) {}

fn statistic(rng: &mut StdRng) -> (EvaluationStatistic, EvaluationAggregation) {
    (pick(rng, &EvaluationStatistic::values()), pick(rng, &EvaluationAggregation::values()))
}

// ---------------------------------------------------------------- C08

/// A pool whose threads report the CPU time they spent when they end.
fn watched_pool(n: usize, worked: &Arc<Mutex<Vec<u64>>>) -> rayon::ThreadPool {
    let worked = worked.clone();
    rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .spawn_handler(move |t| {
            let w = worked.clone();
            std::thread::spawn(move || {
                let before = cpu();
                t.run();
                w.lock().unwrap().push(cpu().saturating_sub(before));
            });
            Ok(())
        })
        .build()
        .unwrap()
}
fn cpu() -> u64 {
    std::fs::read_to_string("/proc/thread-self/schedstat")
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse().ok()))
        .unwrap_or(0)
}

pub fn c08() {
    let spec = Spec::new(
        "C08",
        3_600,
        72_000,
        "a population with at least two different fitness values, evaluated on pools of several sizes, shuffled, in parts, repeatedly and concurrently",
    )
    .threads(3)
    .require(&["evaluations_compared", "pools_with_several_working_threads", "concurrent_evaluations"]);
    run(spec, |c| {
        let rng = &mut c.rng.clone();
        let days = if c.index % 40 == 7 { 10 } else { rng.gen_range(10..40) };
        let w = World::sized(rng, days);
        let (stat, agg) = statistic(rng);
        // Populations are seldom large, but then they are.
        let n = match c.index % 40 {
            7 => rng.gen_range(100..400),
            _ => rng.gen_range(2..if c.tier == Tier::Quick { 20 } else { 60 }),
        };
        let mut pop: Vec<TradingParams> = (0..n).map(|_| w.chromosome(rng)).collect();
        // As in an evolution, many share all but some of their components.
        for i in 1..pop.len() {
            if chance(rng, 0.5) {
                let mut other = pop[rng.gen_range(0..i)];
                let at = rng.gen_range(0..TradingParams::len());
                pop[i].cross(&mut other, at);
                if chance(rng, 0.7) {
                    pop[i] = other;
                }
            }
        }
        if chance(rng, 0.5) {
            let d = pop[0];
            pop.push(d);
        }
        let eval = w.evaluation(&w.symbols, stat, agg);
        // Each alone, on one thread, with an evaluation of its own.
        let one = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
        let alone: Vec<f64> =
            pop.iter().map(|p| one.install(|| run_evaluation(&w.evaluation(&w.symbols, stat, agg), &[*p])[0])).collect();
        let cmp = |c: &mut Case, what: &str, idx: &[usize], got: &[f64]| {
            c.count("evaluations_compared", got.len() as u64);
            for (k, i) in idx.iter().enumerate() {
                c.check(got[k].to_bits() == alone[*i].to_bits(), what, || {
                    format!("individual {i} of {}: fitness {} alone, {} when {what}; {:?}", pop.len(), alone[*i], got[k], pop[*i])
                });
            }
        };
        let all: Vec<usize> = (0..pop.len()).collect();
        let of = |idx: &[usize]| idx.iter().map(|i| pop[*i]).collect::<Vec<_>>();
        for threads in [1, 2, rng.gen_range(3..9)] {
            let worked = Arc::new(Mutex::new(vec![]));
            {
                let pool = watched_pool(threads, &worked);
                let mut idx = all.clone();
                cmp(c, "evaluated together", &idx, &pool.install(|| run_evaluation(&eval, &of(&idx))));
                idx.shuffle(rng);
                cmp(c, "evaluated in another order", &idx, &pool.install(|| run_evaluation(&eval, &of(&idx))));
                let k = rng.gen_range(1..=idx.len());
                cmp(c, "evaluated in a part", &idx[..k], &pool.install(|| run_evaluation(&eval, &of(&idx[..k]))));
                // Stale fitness values must not matter.
                let mut inds: Vec<Individual<TradingParams>> =
                    idx.iter().map(|i| Individual { chromosome: pop[*i], fitness: rng.gen_range(-5.0..5.0) }).collect();
                pool.install(|| eval.evaluate(&mut inds));
                let got: Vec<f64> = inds.iter().map(|i| i.fitness).collect();
                cmp(c, "evaluated again", &idx, &got);
                for (i, ind) in idx.iter().zip(&inds) {
                    c.check(format!("{:?}", ind.chromosome) == format!("{:?}", pop[*i]), "order", || "evaluate reordered or altered chromosomes".into());
                }
            }
            for _ in 0..200 {
                if worked.lock().unwrap().len() == threads {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
            let busy = worked.lock().unwrap().iter().filter(|t| **t > 100_000).count();
            c.count("pools", 1);
            c.count("pools_with_several_working_threads", (busy > 1) as u64);
        }
        // Concurrent evaluations: of the same instance, and of another one with another statistic.
        let (stat2, agg2) = statistic(rng);
        let other = w.evaluation(&w.symbols[..1], stat2, agg2);
        let mut orders = vec![];
        for _ in 0..3 {
            let mut idx = all.clone();
            idx.shuffle(rng);
            orders.push(idx);
        }
        let results: Vec<Vec<f64>> = std::thread::scope(|s| {
            let (eval, other, of) = (&eval, &other, &of);
            let hs: Vec<_> = orders.iter().map(|idx| s.spawn(move || run_evaluation(eval, &of(idx)))).collect();
            let h = s.spawn(|| run_evaluation(other, &pop));
            let r = hs.into_iter().map(|h| h.join().expect("evaluation thread")).collect();
            h.join().expect("evaluation thread");
            r
        });
        for (idx, r) in orders.iter().zip(&results) {
            c.count("concurrent_evaluations", 1);
            cmp(c, "evaluated concurrently", idx, r);
        }
        let distinct: BTreeSet<u64> = alone.iter().map(|f| f.to_bits()).collect();
        if distinct.len() > 1 {
            c.nontrivial(&alone.iter().map(|f| f.to_bits()).collect::<Vec<_>>());
        }
        c.sample(|| json!({"population": pop.len(), "symbols": w.symbols, "fitness": alone.iter().take(5).collect::<Vec<_>>()}));
    })
}

// ---------------------------------------------------------------- C09

fn digest<T: Chromosome + std::fmt::Debug>(e: &Evolution<T>) -> Vec<String> {
    e.generations
        .iter()
        .map(|g| g.hall_of_fame.iter().map(|i| format!("{:016x} {:?}", i.fitness.to_bits(), i.chromosome)).collect::<Vec<_>>().join("\n"))
        .collect()
}

struct Optimization {
    w: World,
    eval: BasicEvaluation,
    cfg: Config,
    ctx: TradingParamsContext,
    seed: u64,
}

fn optimization(case_seed: u64) -> Optimization {
    let rng = &mut StdRng::seed_from_u64(case_seed);
    let days = rng.gen_range(3..30);
    let w = World::sized(rng, days);
    let (stat, agg) = statistic(rng);
    let cfg = if chance(rng, 0.04) { config(rng, 200, 3) } else { config(rng, 24, 6) };
    let ctx = if chance(rng, 0.3) {
        let t = serde_json::to_value(w.chromosome(rng)).unwrap();
        context_json(rng, &t, &w.intervals.iter().map(|i| i.0).collect::<Vec<_>>(), 0.3)
    } else {
        json!({"trader": {"intervals": w.intervals}})
    };
    let ctx = serde_json::from_value(ctx).expect("context");
    let eval = w.evaluation(&w.symbols, stat, agg);
    let seed = if chance(rng, 0.1) { pick(rng, &[0, u64::MAX, 1]) } else { rng.gen() };
    Optimization { w, eval, cfg, ctx, seed }
}

fn evolve_with(o: &Optimization, seed: Option<u64>) -> (Vec<String>, u64) {
    let s = optimization_evaluation(o);
    let ga = GeneticAlgorithm::new(s, o.cfg.sel(), o.cfg.cross(), o.cfg.mutation(), o.cfg.rei());
    let e = ga.evolve(o.cfg.pop, o.cfg.gens, o.cfg.hof, seed, ignore, &o.ctx);
    (digest(&e), e.seed)
}

pub struct ByRef<'a, E>(pub &'a E);
impl<E: Evaluation> Evaluation for ByRef<'_, E> {
    type Chromosome = E::Chromosome;
    fn evaluate(&self, p: &mut [Individual<E::Chromosome>]) {
        self.0.evaluate(p)
    }
}
fn optimization_evaluation(o: &Optimization) -> ByRef<'_, BasicEvaluation> {
    ByRef(&o.eval)
}

/// Entry of the child process: runs the optimization of a case and prints a digest of its generations.
pub fn c09_child() {
    let seed: u64 = std::env::args().nth(2).expect("case seed").parse().expect("case seed");
    let o = optimization(seed);
    let (d, s) = evolve_with(&o, Some(o.seed));
    let line = json!({"digest": d.iter().map(|g| hash_stable(g)).collect::<Vec<_>>(), "seed": s.to_string()});
    println!("{line}");
}

fn hash_stable(s: &str) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

pub fn c09() {
    let spec = Spec::new(
        "C09",
        1_500,
        30_000,
        "an optimization of at least one generation whose hall of fame changed over the generations, run again on other pools and in another process",
    )
    .threads(6)
    .require(&["runs_compared", "processes_compared", "unseeded_runs"]);
    run(spec, |c| {
        let o = optimization(c.seed);
        let rng = &mut c.rng.clone();
        let pool = |n: usize| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
        let (first, seed) = pool(1).install(|| evolve_with(&o, Some(o.seed)));
        c.check(seed == o.seed, "seed", || format!("seed {} was given and {seed} reported", o.seed));
        let cmp = |c: &mut Case, key: &str, what: String, a: &[String], b: &[String]| {
            c.count("runs_compared", 1);
            c.check(a == b, key, || {
                let g = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap();
                format!("{what}: halls of fame differ in generation {g}: {:?} and {:?} ({:?}, seed {})", a.get(g), b.get(g), o.cfg, o.seed)
            });
        };
        for n in [rng.gen_range(2..9), 1] {
            let (again, _) = pool(n).install(|| evolve_with(&o, Some(o.seed)));
            cmp(c, "rerun", format!("run again with {n} threads"), &first, &again);
        }
        // Another optimization at the same time, which shares nothing but the process.
        if chance(rng, 0.3) {
            let o2 = optimization(rng.gen());
            let again = std::thread::scope(|s| {
                s.spawn(|| evolve_with(&o2, None));
                evolve_with(&o, Some(o.seed)).0
            });
            cmp(c, "concurrent", "run beside another optimization".into(), &first, &again);
        }
        if chance(rng, 0.5) {
            let (a, s) = evolve_with(&o, None);
            let (b, t) = evolve_with(&o, Some(s));
            c.count("unseeded_runs", 1);
            c.check(s == t, "seed", || format!("seed {s} given, {t} reported"));
            cmp(c, "unseeded", format!("run without a seed, then with the one reported ({s})"), &a, &b);
            if o.w.symbols.len() > 1 {
                let (_, s2) = evolve_with(&o, None);
                c.count("unseeded_same", (s2 == s) as u64);
            }
        }
        // Another process: other hash seeds, other addresses, other thread count.
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["child-c09", &c.seed.to_string()])
            .env("RAYON_NUM_THREADS", rng.gen_range(1..9).to_string())
            .output()
            .expect("child process");
        let text = String::from_utf8_lossy(&out.stdout);
        match serde_json::from_str::<Value>(text.trim()) {
            Ok(v) => {
                c.count("processes_compared", 1);
                let mine: Vec<String> = first.iter().map(|g| hash_stable(g)).collect();
                c.check(v["digest"] == json!(mine), "process", || {
                    format!("another process with the same seed got other halls of fame: {} and {:?} ({:?})", v["digest"], mine, o.cfg)
                });
            }
            Err(_) => c.fail("process", format!("child process failed: {} {}", text, String::from_utf8_lossy(&out.stderr))),
        }
        if first.len() > 1 && first.windows(2).any(|w| w[0] != w[1]) {
            c.nontrivial(&first);
        }
        c.sample(|| json!({"config": format!("{:?}", o.cfg), "seed": o.seed.to_string(), "symbols": o.w.symbols, "generations": first.len()}));
    })
}

// ---------------------------------------------------------------- a chromosome of our own

const GENES: usize = 7;
static NEXT_ID: AtomicU64 = AtomicU64::new(1);

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Genes {
    g: [i32; GENES],
    /// How often each gene was crossed and mutated.
    crossed: [u32; GENES],
    mutated: [u32; GENES],
    /// Unique per generated individual; clones and offspring keep it.
    id: u64,
    /// Set by monitors to tell offspring apart.
    tag: usize,
}
impl Chromosome for Genes {
    type Context = i32;
    fn len() -> usize {
        GENES
    }
    fn generate(rng: &mut StdRng, range: &i32) -> Self {
        let mut g = [0; GENES];
        for x in &mut g {
            *x = rng.gen_range(-*range..=*range);
        }
        Genes { g, crossed: [0; GENES], mutated: [0; GENES], id: NEXT_ID.fetch_add(1, Ordering::Relaxed), tag: 0 }
    }
    fn cross(&mut self, other: &mut Self, i: usize) {
        std::mem::swap(&mut self.g[i], &mut other.g[i]);
        self.crossed[i] += 1;
        other.crossed[i] += 1;
    }
    fn mutate(&mut self, rng: &mut StdRng, i: usize, range: &i32) {
        self.g[i] = rng.gen_range(-*range..=*range);
        self.mutated[i] += 1;
    }
}

fn landscape(kind: u8, g: &[i32; GENES]) -> f64 {
    match kind {
        0 => g.iter().map(|x| *x as f64).sum(),
        1 => -g.iter().map(|x| (*x as f64 - 1.5).powi(2)).sum::<f64>(),
        2 => (g.iter().map(|x| *x as i64).sum::<i64>().rem_euclid(3)) as f64, // many ties
        3 => 1.0,
        4 => (splitmix(hash(g)) % 1000) as f64 / 7.0 - 70.0, // rugged
        5 => {
            // zero for most
            if g[0] > 2 {
                g[1] as f64
            } else {
                0.0
            }
        }
        6 => -1e-300 * g[0] as f64 + if g[1] == 0 { -1e300 } else { 0.0 },
        _ => g.iter().enumerate().map(|(i, x)| (*x as f64) * 10f64.powi(i as i32 - 3)).product(),
    }
}

// ---------------------------------------------------------------- C10

#[derive(Default)]
struct Log {
    /// Chromosomes evaluated so far with their fitness.
    seen: HashMap<[i32; GENES], f64>,
    best: f64,
    evaluated: u64,
    /// Population after the last reinsertion.
    population: Option<Vec<[i32; GENES]>>,
    parents_ok: Vec<String>,
    offspring: usize,
    crossed: HashSet<usize>,
    mutated: HashSet<usize>,
    variation: Vec<(usize, usize, usize)>,
}

thread_local! {
    static CALLS: RefCell<Vec<(usize, Vec<(f64, [i32; GENES])>, f64, Option<Vec<[i32; GENES]>>)>> = RefCell::new(vec![]);
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

struct Recorder {
    kind: u8,
}
impl Evaluation for Recorder {
    type Chromosome = Genes;
    fn evaluate(&self, p: &mut [Individual<Genes>]) {
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            for i in p {
                i.fitness = landscape(self.kind, &i.chromosome.g);
                l.seen.insert(i.chromosome.g, i.fitness);
                if l.evaluated == 0 || i.fitness > l.best {
                    l.best = i.fitness;
                }
                l.evaluated += 1;
            }
        })
    }
}
struct RecSel(Sel, usize);
impl Selection for RecSel {
    fn select<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, rate: f32, ctx: &T::Context) {
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            if p.len() != self.1 {
                l.parents_ok.push(format!("{} parents in a population of {}", p.len(), self.1));
            }
            if p.windows(2).any(|w| w[0].fitness < w[1].fitness) {
                l.parents_ok.push("parents are not sorted by fitness".into());
            }
            if !o.is_empty() {
                l.parents_ok.push("offspring left over from the previous generation".into());
            }
        });
        self.0.select(rng, p, o, rate, ctx);
        // Only ever used with Genes.
        let tagged: &mut Vec<Individual<Genes>> = unsafe { &mut *(o as *mut Vec<Individual<T>> as *mut Vec<Individual<Genes>>) };
        for (k, i) in tagged.iter_mut().enumerate() {
            i.chromosome.tag = k;
        }
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            l.offspring = o.len();
            l.crossed.clear();
            l.mutated.clear();
        });
    }
}
/// Only ever used with Genes.
fn tag<T: Chromosome>(c: &mut T) -> usize {
    unsafe { (*(c as *mut T as *mut Genes)).tag }
}
struct RecCross(UniformCrossover);
impl Crossover for RecCross {
    fn cross<T: Chromosome>(&self, rng: &mut StdRng, a: &mut T, b: &mut T) {
        LOG.with(|l| l.borrow_mut().crossed.extend([tag(a), tag(b)]));
        self.0.cross(rng, a, b)
    }
}
struct RecMut(UniformMutation);
impl Mutation for RecMut {
    fn mutate<T: Chromosome>(&self, rng: &mut StdRng, a: &mut T, ctx: &T::Context) {
        LOG.with(|l| l.borrow_mut().mutated.insert(tag(a)));
        self.0.mutate(rng, a, ctx)
    }
}
struct RecRei(Rei);
impl Reinsertion for RecRei {
    fn selection_rate(&self) -> f32 {
        self.0.selection_rate()
    }
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, p: &[Individual<T>], o: &mut Vec<Individual<T>>, n: usize, ctx: &T::Context) {
        LOG.with(|l| {
            let l = &mut *l.borrow_mut();
            l.variation.push((l.offspring, l.crossed.len(), l.mutated.len()));
        });
        self.0.reinsert(rng, p, o, n, ctx);
        // Only ever used with Genes.
        let o: &Vec<Individual<Genes>> = unsafe { &*(o as *const Vec<Individual<T>> as *const Vec<Individual<Genes>>) };
        LOG.with(|l| l.borrow_mut().population = Some(o.iter().map(|i| i.chromosome.g).collect()));
    }
}

fn record(nr: usize, g: &Generation<Genes>) {
    let hof = g.hall_of_fame.iter().map(|i| (i.fitness, i.chromosome.g)).collect();
    let (best, pop) = LOG.with(|l| {
        let l = l.borrow();
        (l.best, l.population.clone())
    });
    CALLS.with(|c| c.borrow_mut().push((nr, hof, best, pop)));
}

/// The same with real trading parameters and the real evaluation.
fn c10_real(c: &mut Case) {
    let o = optimization(c.seed);
    let ga = GeneticAlgorithm::new(ByRef(&o.eval), o.cfg.sel(), o.cfg.cross(), o.cfg.mutation(), o.cfg.rei());
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let e = pool.install(|| ga.evolve(o.cfg.pop, o.cfg.gens, o.cfg.hof, Some(o.seed), ignore, &o.ctx));
    let mut sig = vec![];
    for (n, g) in e.generations.iter().enumerate() {
        for i in &g.hall_of_fame {
            let f = pool.install(|| run_evaluation(&o.eval, &[i.chromosome])[0]);
            c.count("real_individuals", 1);
            c.check(f.to_bits() == i.fitness.to_bits(), "fitness", || {
                format!("generation {n}: fitness {} instead of {f} of {:?} ({:?}, seed {})", i.fitness, i.chromosome, o.cfg, o.seed)
            });
            sig.push(f.to_bits());
        }
        c.check(g.hall_of_fame.windows(2).all(|w| w[0].fitness >= w[1].fitness), "sorted", || format!("generation {n} is not sorted ({:?}, seed {})", o.cfg, o.seed));
    }
    if sig.windows(2).any(|w| w[0] != w[1]) {
        c.nontrivial(&sig);
    }
}

pub fn c10() {
    let spec = Spec::new(
        "C10",
        800_000,
        48_000_000,
        "an evolution of at least one generation with at least two different fitness values, every generation of which was compared with a recomputed ranking",
    )
    .require(&["generations_checked", "elite_generations", "improvements", "zero_generations", "population_of_two", "real_individuals"]);
    run(spec, |c| {
        if c.index % 1000 == 0 {
            return c10_real(c);
        }
        let rng = &mut c.rng.clone();
        let cfg = match c.index % 50 {
            0 => config(rng, 120, 8),
            1 => config(rng, 12, 300),
            2 if c.index % 500 == 2 => config(rng, 1500, 8),
            _ => config(rng, 16, 8),
        };
        let kind = rng.gen_range(0..8);
        let range = pick(rng, &[1, 3, 10, 1000]);
        let seed = rng.gen();
        CALLS.with(|c| c.borrow_mut().clear());
        LOG.with(|l| *l.borrow_mut() = Log::default());
        let ga = GeneticAlgorithm::new(
            Recorder { kind },
            RecSel(cfg.sel(), cfg.pop),
            RecCross(cfg.cross()),
            RecMut(cfg.mutation()),
            RecRei(cfg.rei()),
        );
        let e = ga.evolve(cfg.pop, cfg.gens, cfg.hof, Some(seed), record, &range);
        let calls = CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let ctx = |s: String| format!("{s} ({cfg:?}, landscape {kind}, genes ±{range}, seed {seed})");
        c.check(e.seed == seed, "seed", || ctx(format!("reported seed {}", e.seed)));
        c.check(e.generations.len() == cfg.gens + 1, "generations", || ctx(format!("{} generations reported", e.generations.len())));
        let nrs: Vec<usize> = calls.iter().map(|x| x.0).collect();
        c.check(nrs == (0..=cfg.gens).collect::<Vec<_>>(), "callbacks", || ctx(format!("generations reported as {nrs:?}")));
        c.check(log.parents_ok.is_empty(), "parents", || ctx(log.parents_ok[0].clone()));
        let mut prev: Option<f64> = None;
        let mut sig = vec![];
        for (n, (g, call)) in e.generations.iter().zip(&calls).enumerate() {
            c.count("generations_checked", 1);
            let hof: Vec<(f64, [i32; GENES])> = g.hall_of_fame.iter().map(|i| (i.fitness, i.chromosome.g)).collect();
            c.check(hof == call.1, "callbacks", || ctx(format!("generation {n} differs from the one reported while running")));
            c.check(hof.len() == cfg.hof.min(cfg.pop), "size", || ctx(format!("hall of fame of {} in generation {n}", hof.len())));
            c.check(hof.windows(2).all(|w| w[0].0 >= w[1].0), "sorted", || ctx(format!("generation {n} is not sorted: {hof:?}")));
            for (f, genes) in &hof {
                c.check(*f == landscape(kind, genes), "fitness", || ctx(format!("generation {n}: {genes:?} carries fitness {f} instead of {}", landscape(kind, genes))));
                c.check(log.seen.contains_key(genes), "evaluated", || ctx(format!("generation {n}: {genes:?} was never evaluated")));
            }
            if let Some(pop) = call.3.as_ref() {
                c.check(pop.len() == cfg.pop, "population", || ctx(format!("population of {} after generation {n}", pop.len())));
                let mut all: Vec<f64> = pop.iter().map(|g| landscape(kind, g)).collect();
                all.sort_by(|a, b| b.partial_cmp(a).unwrap());
                all.truncate(cfg.hof);
                c.check(hof.iter().map(|h| h.0).eq(all.iter().copied()), "ranking", || {
                    ctx(format!("generation {n}: hall of fame {:?}, best of the population {all:?}", hof.iter().map(|h| h.0).collect::<Vec<_>>()))
                });
            } else {
                c.check(n == 0 || cfg.gens == 0, "ranking", || ctx(format!("generation {n} without reinsertion")));
            }
            if n == 0 || (cfg.rei == 0 && cfg.gen_rate < 1.0) {
                c.count("elite_generations", 1);
                c.check(hof[0].0 == call.2, "best", || ctx(format!("generation {n}: best is {} but {} was evaluated before", hof[0].0, call.2)));
                if let Some(p) = prev {
                    c.check(hof[0].0 >= p, "monotone", || ctx(format!("generation {n}: best fell from {p} to {}", hof[0].0)));
                    c.count("improvements", (hof[0].0 > p) as u64);
                }
                prev = Some(hof[0].0);
            }
            sig.push(hash(&hof.iter().map(|h| (h.0.to_bits(), h.1)).collect::<Vec<_>>()));
        }
        for (k, (n, crossed, mutated)) in log.variation.iter().enumerate() {
            c.check(*mutated == *n, "variation", || ctx(format!("generation {}: {mutated} of {n} offspring mutated", k + 1)));
            c.check(*crossed == *n || *n == 1, "variation", || ctx(format!("generation {}: {crossed} of {n} offspring crossed", k + 1)));
        }
        c.check(log.variation.len() == cfg.gens, "generations", || ctx(format!("{} generations bred", log.variation.len())));
        c.count("zero_generations", (cfg.gens == 0) as u64);
        c.count("population_of_two", (cfg.pop == 2 && cfg.gens > 0) as u64);
        c.count("individuals_evaluated", log.evaluated);
        let distinct: BTreeSet<u64> = log.seen.values().map(|f| f.to_bits()).collect();
        if cfg.gens > 0 && distinct.len() > 1 {
            c.nontrivial(&sig);
        }
        c.sample(|| json!({"config": format!("{cfg:?}"), "landscape": kind, "best": calls.iter().map(|x| x.1[0].0).collect::<Vec<_>>()}));
    })
}

// ---------------------------------------------------------------- C13

pub fn c13() {
    let spec = Spec::new("C13", 1_500_000, 30_000_000, "a population of at least three with at least two different fitness values, given to a selection or reinsertion operator")
        .require(&["elite_selections", "tournament_winners", "random_selections", "elite_reinsertions", "fitness_reinsertions", "pure_reinsertions"]);
    // Tournament wins of the best, against the expectation of a uniformly drawn tournament.
    let wins = Mutex::new((0u64, 0f64, 0f64));
    let code = run_code2(spec, |c| {
        let rng = &mut c.rng.clone();
        let n = if c.index % 20 == 0 { rng.gen_range(40..150) } else { rng.gen_range(2..24usize) };
        let ties = chance(rng, 0.4);
        let range = if ties { 2 } else { 1_000_000 };
        let pop = |rng: &mut StdRng, n: usize, ctx: &i32| -> Vec<Individual<Genes>> {
            let mut v: Vec<Individual<Genes>> = (0..n)
                .map(|_| {
                    let g = Genes::generate(rng, ctx);
                    let f = g.g[0] as f64 / 4.0;
                    Individual { chromosome: g, fitness: f }
                })
                .collect();
            v.sort_by(|a, b| b.fitness.partial_cmp(&a.fitness).unwrap());
            v
        };
        let parents = pop(rng, n, &range);
        let before = format!("{parents:?}");
        let first_fresh = NEXT_ID.load(Ordering::Relaxed);
        let floors = |n: usize, r: f32| -> [usize; 2] { [(n as f32 * r) as usize, (n as f64 * r as f64).floor() as usize] };
        let by_id: HashMap<u64, &Individual<Genes>> = parents.iter().map(|p| (p.chromosome.id, p)).collect();
        let unaltered = |c: &mut Case, i: &Individual<Genes>, from: &HashMap<u64, &Individual<Genes>>, what: &str| -> bool {
            c.check(from.get(&i.chromosome.id).map_or(false, |p| p.chromosome == i.chromosome && p.fitness == i.fitness), "altered", || {
                format!("{what}: {i:?} is not one of those given")
            })
        };
        let ids = |v: &[Individual<Genes>]| {
            let mut x: Vec<u64> = v.iter().map(|i| i.chromosome.id).collect();
            x.sort();
            x
        };
        let fits = |v: &[Individual<Genes>]| {
            let mut x: Vec<f64> = v.iter().map(|i| i.fitness).collect();
            x.sort_by(|a, b| b.partial_cmp(a).unwrap());
            x
        };
        let fresh = |c: &mut Case, i: &Individual<Genes>| {
            c.check(i.chromosome.id >= first_fresh && i.chromosome.g.iter().all(|x| x.abs() <= range), "fresh", || format!("{i:?} is not freshly generated in the context"));
        };
        match rng.gen_range(0..6) {
            0 => {
                let rate = pick(rng, &[0.1f32, 0.25, 0.5, 0.75, 0.9, 1.0]);
                let shuffle = rng.gen();
                let mut out = vec![];
                EliteSelection::new(shuffle).select(rng, &parents, &mut out, rate, &range);
                c.check(floors(n, rate).contains(&out.len()), "elite count", || format!("{} selected of {n} at rate {rate}", out.len()));
                for i in &out {
                    unaltered(c, i, &by_id, "elite selection");
                }
                c.check(ids(&out).windows(2).all(|w| w[0] != w[1]), "elite twice", || format!("a parent was selected twice: {out:?}"));
                let want = &fits(&parents)[..out.len().min(n)];
                c.check(fits(&out) == want, "elite best", || format!("selected {:?}, best are {want:?}", fits(&out)));
                c.count("elite_selections", 1);
            }
            1 => {
                let rate = pick(rng, &[0.25f32, 0.5, 0.75, 1.0, 1.25, 2.0]);
                let tour = pick(rng, &[0.05f32, 0.2, 0.3, 0.5, 0.75, 0.95]);
                let mut out = vec![];
                TournamentSelection::new(tour, true).select(rng, &parents, &mut out, rate, &range);
                c.check(floors(n, rate).contains(&out.len()), "tournament count", || format!("{} selected of {n} at rate {rate}", out.len()));
                let sizes = floors(n, tour).map(|s| s.max(1));
                let size = sizes[0].min(sizes[1]);
                for i in &out {
                    unaltered(c, i, &by_id, "tournament selection");
                    // The winner beats or equals the size - 1 others of its tournament.
                    let beaten = parents.iter().filter(|p| p.fitness <= i.fitness).count();
                    c.check(beaten >= size, "tournament winner", || format!("winner {} is no better than only {beaten} of {n} in a tournament of {size}", i.fitness));
                    c.count("tournament_winners", 1);
                }
                let max = parents[0].fitness;
                if sizes[0] == sizes[1] && parents[1].fitness < max {
                    let w = out.iter().filter(|i| i.fitness == max).count();
                    let p = size as f64 / n as f64;
                    let mut g = wins.lock().unwrap();
                    g.0 += w as u64;
                    g.1 += p * out.len() as f64;
                    g.2 += p * (1.0 - p) * out.len() as f64;
                }
            }
            2 => {
                let mut out = vec![];
                GenerateRandomSelection {}.select(rng, &parents, &mut out, 1.0, &range);
                c.check(out.len() == n, "random count", || format!("{} selected of {n}", out.len()));
                for i in &out {
                    fresh(c, i);
                }
                let x = ids(&out);
                c.check(x.windows(2).all(|w| w[0] != w[1]), "random twice", || "the same individual twice".into());
                c.count("random_selections", 1);
            }
            3 => {
                let k = rng.gen_range(0..n);
                let off = pop(rng, k, &range);
                let first_fresh = NEXT_ID.load(Ordering::Relaxed);
                let gen_rate = pick(rng, &[0.0f32, 0.25, 0.5, 0.75, 1.0]);
                let mut out = off.clone();
                EliteReinsertion::new(0.5, gen_rate).reinsert(rng, &parents, &mut out, n, &range);
                c.check(out.len() == n, "elite size", || format!("{} individuals after elite reinsertion into a population of {n}", out.len()));
                let offs: HashMap<u64, &Individual<Genes>> = off.iter().map(|p| (p.chromosome.id, p)).collect();
                let (mut from_off, mut from_par, mut new) = (vec![], vec![], vec![]);
                for i in &out {
                    if offs.contains_key(&i.chromosome.id) {
                        unaltered(c, i, &offs, "elite reinsertion");
                        from_off.push(i.clone());
                    } else if by_id.contains_key(&i.chromosome.id) {
                        unaltered(c, i, &by_id, "elite reinsertion");
                        from_par.push(i.clone());
                    } else {
                        new.push(i.clone());
                    }
                }
                c.check(ids(&from_off) == ids(&off), "elite offspring", || format!("{} of {k} offspring kept", from_off.len()));
                c.check(floors(n - k, gen_rate).contains(&new.len()), "elite fresh", || format!("{} fresh of {} at rate {gen_rate}", new.len(), n - k));
                c.check(ids(&from_par).windows(2).all(|w| w[0] != w[1]), "elite twice", || "a parent twice".into());
                let want = &fits(&parents)[..from_par.len()];
                c.check(fits(&from_par) == want, "elite parents", || format!("kept parents {:?}, best are {want:?}", fits(&from_par)));
                for i in &new {
                    c.check(i.chromosome.id >= first_fresh, "fresh", || format!("{i:?} is not fresh"));
                }
                c.count("elite_reinsertions", 1);
            }
            4 => {
                let k = n + rng.gen_range(1..=n);
                let off = pop(rng, k, &range);
                let offs: HashMap<u64, &Individual<Genes>> = off.iter().map(|p| (p.chromosome.id, p)).collect();
                let mut out = off.clone();
                FitnessReinsertion::new(1.5).reinsert(rng, &parents, &mut out, n, &range);
                c.check(out.len() == n, "fitness size", || format!("{} individuals after fitness reinsertion into a population of {n}", out.len()));
                for i in &out {
                    unaltered(c, i, &offs, "fitness reinsertion");
                }
                c.check(ids(&out).windows(2).all(|w| w[0] != w[1]), "fitness twice", || "an offspring twice".into());
                let want = &fits(&off)[..out.len().min(k)];
                c.check(fits(&out) == want, "fitness best", || format!("kept {:?}, best are {want:?}", fits(&out)));
                c.count("fitness_reinsertions", 1);
            }
            _ => {
                let off = pop(rng, n, &range);
                let mut out = off.clone();
                PureReinsertion {}.reinsert(rng, &parents, &mut out, n, &range);
                c.check(ids(&out) == ids(&off), "pure", || "pure reinsertion did not keep exactly the offspring".into());
                let offs: HashMap<u64, &Individual<Genes>> = off.iter().map(|p| (p.chromosome.id, p)).collect();
                for i in &out {
                    unaltered(c, i, &offs, "pure reinsertion");
                }
                c.count("pure_reinsertions", 1);
            }
        }
        c.check(format!("{parents:?}") == before, "parents", || "the parents were altered".into());
        if n > 2 && parents.first().map(|p| p.fitness) != parents.last().map(|p| p.fitness) {
            c.nontrivial(&before);
        }
        c.sample(|| json!({"fitness": parents.iter().map(|p| p.fitness).collect::<Vec<_>>()}));
    }, |c| {
        let g = wins.lock().unwrap();
        let (w, mean, sd) = (g.0 as f64, g.1, g.2.sqrt());
        c.count("tournament_wins_of_the_best", g.0);
        if sd > 3.0 {
            c.check((w - mean).abs() < 7.0 * sd, "tournament uniform", || {
                format!("the best won {w} tournaments, {mean:.1} ± {sd:.1} are expected of uniformly drawn ones")
            });
        }
    });
    std::process::exit(code)
}

// ---------------------------------------------------------------- contexts and leaves of trading parameters

/// Objects with a type which are nested chromosomes; moving averages are single genes.
fn is_leaf(key: &str, v: &Value) -> bool {
    !v.is_object() || key == "ma"
}

/// A search context which fixes parts of a template: types with probability 0.7, values with p.
pub fn context_json(rng: &mut StdRng, template: &Value, intervals: &[u64], p: f64) -> Value {
    fn go(rng: &mut StdRng, v: &Value, p: f64) -> Option<Value> {
        let o = v.as_object().unwrap();
        let mut out = serde_json::Map::new();
        if let Some(t) = o.get("type") {
            if !chance(rng, 0.7) {
                return if chance(rng, 0.5) { None } else { Some(json!({"type": "None"})) };
            }
            out.insert("type".into(), t.clone());
        } else if chance(rng, 0.2) {
            return None;
        }
        for (k, x) in o {
            if k == "type" {
                continue;
            }
            if is_leaf(k, x) {
                if !x.is_null() && chance(rng, p) {
                    out.insert(k.clone(), x.clone());
                }
            } else if let Some(x) = go(rng, x, p) {
                out.insert(k.clone(), x);
            }
        }
        Some(Value::Object(out))
    }
    let mut out = serde_json::Map::new();
    for (k, v) in template.as_object().unwrap() {
        if k == "trader" {
            out.insert(k.clone(), json!({"intervals": intervals}));
        } else if let Some(v) = go(rng, v, p) {
            out.insert(k.clone(), v);
        }
    }
    Value::Object(out)
}

/// What the context fixes but the parameters do not have.
pub fn unpinned(ctx: &Value, v: &Value, path: &str, pins: &mut u64) -> Option<String> {
    let o = ctx.as_object().unwrap();
    if o.get("type") == Some(&json!("None")) {
        return None;
    }
    for (k, x) in o {
        let p = format!("{path}.{k}");
        if k == "intervals" {
            if !x.as_array().unwrap().contains(&v["interval"]) {
                return Some(format!("{path}.interval is {} which is not one of {x}", v["interval"]));
            }
            *pins += 1;
            continue;
        }
        let Some(y) = v.get(k) else { return Some(format!("{p} is missing")) };
        if is_leaf(k, x) {
            *pins += 1;
            // JSON floats may change in their last digit.
            if crate::server::near(x, y, 1e-14, "").is_some() {
                return Some(format!("{p} is fixed to {x} but is {y}"));
            }
        } else if let Some(r) = unpinned(x, y, &p, pins) {
            return Some(r);
        }
    }
    None
}

/// Parameters which no component can use.
fn unusable(v: &Value) -> Option<String> {
    fn period(ma: &Value) -> f64 {
        ma["period"].as_f64().unwrap_or(-1.0)
    }
    fn go(v: &Value) -> Option<String> {
        let Some(o) = v.as_object() else { return None };
        for (k, x) in o {
            let bad = match k.as_str() {
                "mas" => {
                    let p: Vec<f64> = x.as_array().unwrap().iter().map(period).collect();
                    p[0] < 1.0 || p.windows(2).any(|w| w[0] >= w[1])
                }
                "ma" => period(x) < 1.0,
                "periods" => x[0].as_f64()? < 1.0 || x[0].as_f64()? > x[1].as_f64()?,
                "up_thresholds" | "down_thresholds" => x[0].as_f64()? < 0.0 || x[0].as_f64()? > x[1].as_f64()?,
                "period" | "signal_period" | "k_period" | "k_sma_period" | "d_sma_period" | "interval" => x.as_f64()? < 1.0,
                "up_threshold" | "down_threshold" | "threshold" | "pos_threshold" => x.as_f64()? < 0.0,
                "neg_threshold" => x.as_f64()? > 0.0,
                _ => false,
            };
            if bad {
                return Some(format!("{k} is {x}"));
            }
            if !is_leaf(k, x) {
                if let Some(r) = go(x) {
                    return Some(r);
                }
            }
        }
        None
    }
    go(v)
}

// ---------------------------------------------------------------- C11

struct PinWatch<'a> {
    ctx: &'a Value,
    bad: RefCell<Vec<String>>,
    all: RefCell<Vec<TradingParams>>,
    salt: u64,
}
impl Evaluation for PinWatch<'_> {
    type Chromosome = TradingParams;
    fn evaluate(&self, p: &mut [Individual<TradingParams>]) {
        for i in p {
            let v = serde_json::to_value(i.chromosome).unwrap();
            if let Some(b) = unpinned(self.ctx, &v, "", &mut 0) {
                self.bad.borrow_mut().push(b);
            }
            i.fitness = (hash(&(self.salt, v.to_string())) % 1000) as f64;
            self.all.borrow_mut().push(i.chromosome);
        }
    }
}

const MAS: [&str; 7] = ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"];

/// What a search can choose from, by the name of the parameter.
fn all_choices() -> Vec<String> {
    let mut out = vec![];
    let mut add = |k: &str, vs: &[&str]| out.extend(vs.iter().map(|v| format!("{k}={v}")));
    add("strategy.type", &SIGNALS);
    add("strategy.type", &["Sig", "SigOsc"]);
    add("sig.type", &SIGNALS);
    add("ma.type", &MAS);
    add("mas.type", &MAS);
    add("osc.type", &["Rsi", "Stoch"]);
    add("osc_filter", &["Enforce", "Prevent"]);
    add("mid_trend_policy", &["Current", "Previous", "Ignore"]);
    add("persistence", &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"]);
    add("stop_loss.type", &["Basic", "BasicPlusTrailing", "Legacy", "Legacy off", "Legacy on", "Noop", "Trailing"]);
    add("trail", &["false", "true"]);
    add("take_profit.type", &["Basic", "Legacy", "Legacy off", "Legacy on", "Noop", "Trending"]);
    add("lock_threshold", &["false", "true"]);
    add("easing", &EASINGS);
    for n in 1..=3 {
        out.extend((0..n).map(|i| format!("interval {i} of {n}")));
    }
    out
}

/// Counts the choices among named alternatives, flags and small numbers within parameters.
fn count_choices(v: &Value, key: &str, out: &mut BTreeMap<String, u64>) {
    match v {
        Value::Object(o) => {
            if let Some(t) = o.get("type") {
                *out.entry(format!("{key}.type={}", t.as_str().unwrap())).or_insert(0) += 1;
                if let (Some("Legacy"), Some(x)) = (t.as_str(), o.get("threshold").and_then(|x| x.as_f64())) {
                    *out.entry(format!("{key}.type=Legacy {}", if x == 0.0 { "off" } else { "on" })).or_insert(0) += 1;
                }
            }
            for (k, x) in o.iter().filter(|(k, _)| *k != "type") {
                count_choices(x, k, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| count_choices(x, key, out)),
        Value::String(_) | Value::Bool(_) => *out.entry(format!("{key}={v}").replace('"', "")).or_insert(0) += 1,
        Value::Number(n) if key == "persistence" => *out.entry(format!("{key}={n}")).or_insert(0) += 1,
        _ => (),
    }
}

pub fn c11() {
    let chosen: [Mutex<BTreeMap<String, u64>>; 2] = [Mutex::new(BTreeMap::new()), Mutex::new(BTreeMap::new())];
    let spec = Spec::new("C11", 75_000, 1_500_000, "a context which fixes something, with the parameters generated, crossed, mutated and evolved under it, all of which were run")
        .require(&["pins_checked", "parameters_run", "evolved_parameters", "crossed", "mutated", "variants_seen", "positions_seen"]);
    std::process::exit(crate::case::run_code2(spec, |c| {
        let rng = &mut c.rng.clone();
        let mut ivs = vec![HOUR, 2 * HOUR, 4 * HOUR, DAY];
        ivs.shuffle(rng);
        ivs.truncate(rng.gen_range(1..=3));
        let mut template = if chance(rng, 0.5) {
            let base = serde_json::from_value(json!({"trader": {"intervals": ivs}})).unwrap();
            serde_json::to_value(TradingParams::generate(rng, &base)).unwrap()
        } else {
            trading(rng, ivs[0], 12, false)
        };
        if template["strategy"]["type"] == "Sig" && chance(rng, 0.5) {
            template["strategy"]["buffer_interval"] = json!(DAY);
        }
        let p = pick(rng, &[0.1, 0.4, 0.8, 1.0]);
        let ctx_json = context_json(rng, &template, &ivs, p);
        let ctx: TradingParamsContext = match serde_json::from_value(ctx_json.clone()) {
            Ok(c) => c,
            Err(e) => {
                c.fail("context", format!("context {ctx_json} does not parse: {e}"));
                return;
            }
        };
        // The context survives JSON.
        let again: Value = serde_json::to_value(&ctx).unwrap();
        let reparsed: Result<TradingParamsContext, _> = serde_json::from_value(again.clone());
        c.check(reparsed.map(|r| serde_json::to_value(r).unwrap() == again).unwrap_or(false), "context json", || format!("context {again} does not survive JSON"));

        let s = series(rng, 90, 0.0);
        let m = market(rng);
        let mut pins = 0;
        let mut runs = 0u64;
        let mut positions = 0u64;
        let mut variants = BTreeSet::new();
        let mut sig = vec![];
        let mut check = |c: &mut Case, p: &TradingParams, what: &str| {
            let v = serde_json::to_value(p).unwrap();
            let bad = unpinned(&ctx_json, &v, "", &mut pins);
            c.check(bad.is_none(), "pin", || format!("{what}: {} in {v} under {ctx_json}", bad.unwrap()));
            let bad = unusable(&v);
            c.check(bad.is_none(), "unusable", || format!("{what}: {} in {v}", bad.unwrap()));
            for k in ["strategy", "stop_loss", "take_profit"] {
                variants.insert(v[k]["type"].to_string());
            }
            sig.push(hash(&v.to_string()));
            // Candles of its interval.
            let iv = p.trader.interval.0;
            let cs: Vec<juno::Candle> = s.candles.iter().enumerate().map(|(i, x)| juno::Candle { time: juno::Timestamp(1_600_041_600_000 / DAY * DAY + i as u64 * iv), ..*x }).collect();
            let r = guard(|| {
                trade(p, &TradeInput { candles: &cs, fees: &m.fees, filters: &m.filters, borrow_info: &m.borrow, margin_multiplier: 2, quote: m.quote, long: true, short: true })
            });
            runs += 1;
            match r {
                Ok(r) => positions += r.positions.len() as u64,
                Err(e) => c.fail("run", format!("{what}: {v} cannot be run: {e}")),
            }
        };
        let mut pool: Vec<TradingParams> = (0..4).map(|_| TradingParams::generate(rng, &ctx)).collect();
        for p in &pool {
            check(c, p, "generated");
        }
        for _ in 0..30 {
            let i = rng.gen_range(0..TradingParams::len());
            if chance(rng, 0.5) {
                let k = rng.gen_range(0..3);
                let (a, b) = pool.split_at_mut(k + 1);
                a[k].cross(&mut b[0], i);
                c.count("crossed", 1);
                let (x, y) = (a[k], b[0]);
                check(c, &x, "crossed");
                check(c, &y, "crossed");
            } else {
                let k = rng.gen_range(0..4);
                pool[k].mutate(rng, i, &ctx);
                c.count("mutated", 1);
                let x = pool[k];
                check(c, &x, "mutated");
            }
        }
        if c.index % 4 == 0 {
            let watch = PinWatch { ctx: &ctx_json, bad: RefCell::new(vec![]), all: RefCell::new(vec![]), salt: rng.gen() };
            let cfg = config(rng, 10, 4);
            let seed = rng.gen();
            let ga = GeneticAlgorithm::new(ByRef(&watch), cfg.sel(), cfg.cross(), cfg.mutation(), cfg.rei());
            let e = ga.evolve(cfg.pop, cfg.gens, cfg.hof, Some(seed), ignore, &ctx);
            let bad = watch.bad.borrow();
            c.check(bad.is_empty(), "pin", || format!("evolved: {} under {ctx_json} ({cfg:?}, seed {seed})", bad[0]));
            for p in watch.all.borrow().iter() {
                check(c, p, "evolved");
            }
            c.count("evolved_parameters", watch.all.borrow().len() as u64);
            for g in &e.generations {
                for i in &g.hall_of_fame {
                    let v = serde_json::to_value(i.chromosome).unwrap();
                    let bad = unpinned(&ctx_json, &v, "", &mut 0);
                    c.check(bad.is_none(), "pin", || format!("hall of fame: {} under {ctx_json}", bad.unwrap()));
                }
            }
        }
        // What is chosen where the context leaves everything open.
        let free: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": ivs}})).unwrap();
        let mut choices: [BTreeMap<String, u64>; 2] = [BTreeMap::new(), BTreeMap::new()];
        let taken = |p: &TradingParams| {
            let mut out = BTreeMap::new();
            count_choices(&serde_json::to_value(p).unwrap(), "", &mut out);
            let i = ivs.iter().position(|i| *i == p.trader.interval.0).map_or("unlisted".into(), |i| i.to_string());
            out.insert(format!("interval {i} of {}", ivs.len()), 1);
            out
        };
        for _ in 0..4 {
            let mut p = TradingParams::generate(rng, &free);
            for (k, n) in taken(&p) {
                *choices[0].entry(k).or_insert(0) += n;
            }
            for _ in 0..5 {
                let before = taken(&p);
                let gene = rng.gen_range(0..TradingParams::len());
                p.mutate(rng, gene, &free);
                for (k, n) in taken(&p) {
                    if n > before.get(&k).copied().unwrap_or(0) {
                        *choices[1].entry(k).or_insert(0) += 1;
                    }
                }
            }
        }
        for (all, these) in chosen.iter().zip(choices) {
            let mut all = all.lock().unwrap();
            for (k, n) in these {
                *all.entry(k).or_insert(0) += n;
            }
        }
        c.count("parameters_run", runs);
        c.count("positions_seen", positions);
        c.count("pins_checked", pins);
        c.count("variants_seen", variants.len() as u64);
        if pins > 0 {
            c.nontrivial(&sig);
        }
        c.sample(|| json!({"context": ctx_json}));
    }, |c| {
        for (what, all) in ["generation", "mutation"].iter().zip(&chosen) {
            let all = all.lock().unwrap();
            if std::env::var("VERIF_DUMP").is_ok() {
                println!("{what} {all:?}");
            }
            // Every choice happens hundreds of times in as many cases.
            if c.index < 8_000 {
                continue;
            }
            for k in all_choices() {
                // An only interval is not mutated into another one.
                if *what == "mutation" && k == "interval 0 of 1" {
                    continue;
                }
                c.count("choices_seen", all.contains_key(&k) as u64);
                c.check(all.contains_key(&k), "never chosen", || format!("{what} never chose {k}, although nothing is fixed: {all:?}"));
            }
        }
    }))
}

// ---------------------------------------------------------------- C12

/// The gene effects which crossing two parameters may have, as sets of leaves: one per reachable variant and field.
fn expected_genes(a: &Value, b: &Value) -> Vec<BTreeSet<String>> {
    fn go(a: &Value, b: &Value, path: &str, out: &mut Vec<BTreeSet<String>>) {
        let (x, y) = (a.as_object().unwrap(), b.as_object().unwrap());
        let tagged = x.contains_key("type");
        if tagged {
            out.push(changed(a, b, path));
            if x["type"] != y["type"] {
                return;
            }
        }
        for (k, v) in x {
            if k == "type" {
                continue;
            }
            let p = format!("{path}.{k}");
            if is_leaf(k, v) {
                out.push(changed_at(k, v, &y[k], &p));
            } else {
                go(v, &y[k], &p, out);
            }
        }
    }
    let mut out = vec![];
    go(a, b, "", &mut out);
    out.retain(|s| !s.is_empty());
    out.sort();
    out
}

fn changed_at(key: &str, a: &Value, b: &Value, path: &str) -> BTreeSet<String> {
    if is_leaf(key, a) || is_leaf(key, b) {
        let mut s = BTreeSet::new();
        if a != b {
            s.insert(path.to_string());
        }
        s
    } else {
        changed(a, b, path)
    }
}

/// Paths at which two parameters differ; a component of another type is one path.
fn changed(a: &Value, b: &Value, path: &str) -> BTreeSet<String> {
    let (x, y) = (a.as_object().unwrap(), b.as_object().unwrap());
    let mut s = BTreeSet::new();
    if x.get("type") != y.get("type") || x.keys().ne(y.keys()) {
        s.insert(path.to_string());
        return s;
    }
    for (k, v) in x {
        s.extend(changed_at(k, v, &y[k], &format!("{path}.{k}")));
    }
    s
}

/// For every field and component of the template, parameters which differ there but have the types of all that contain it.
fn partners(rng: &mut StdRng, template: &Value, ivs: &[u64]) -> Vec<TradingParams> {
    fn paths(v: &Value, path: &str, out: &mut Vec<(String, bool)>) {
        let o = v.as_object().unwrap();
        if o.contains_key("type") {
            out.push((path.to_string(), true));
        }
        for (k, x) in o {
            let p = format!("{path}.{k}");
            if is_leaf(k, x) {
                if k != "type" {
                    out.push((p, false));
                }
            } else {
                paths(x, &p, out);
            }
        }
    }
    let mut ps = vec![];
    paths(template, "", &mut ps);
    let mut out = vec![];
    for (p, component) in ps {
        for _ in 0..60 {
            let b = partner_but(rng, template, 1.0, ivs, if component { &p } else { "-" });
            let d = changed(template, &serde_json::to_value(b).unwrap(), "");
            if d.contains(&p) {
                out.push(b);
                break;
            }
        }
    }
    out
}

/// Like `template`, types kept with probability q, values random.
fn partner(rng: &mut StdRng, template: &Value, q: f64, ivs: &[u64]) -> TradingParams {
    partner_but(rng, template, q, ivs, "-")
}

/// The same, with the component at the path free.
fn partner_but(rng: &mut StdRng, template: &Value, q: f64, ivs: &[u64], free: &str) -> TradingParams {
    fn go(rng: &mut StdRng, v: &Value, q: f64, path: &str, free: &str) -> Value {
        if path == free {
            return json!({"type": "None"});
        }
        let o = v.as_object().unwrap();
        let mut out = serde_json::Map::new();
        if let Some(t) = o.get("type") {
            if !chance(rng, q) {
                return json!({"type": "None"});
            }
            out.insert("type".into(), t.clone());
        }
        for (k, x) in o {
            if k != "type" && !is_leaf(k, x) {
                out.insert(k.clone(), go(rng, x, q, &format!("{path}.{k}"), free));
            }
        }
        Value::Object(out)
    }
    let mut out = go(rng, template, q, "", free);
    out["trader"] = json!({"intervals": ivs});
    let ctx: TradingParamsContext = serde_json::from_value(out).expect("context");
    TradingParams::generate(rng, &ctx)
}

/// The leaf or component which contains all of these paths.
fn root(paths: &BTreeSet<String>) -> String {
    let mut it = paths.iter();
    let mut r: Vec<&str> = it.next().unwrap().split('.').collect();
    for p in it {
        let n = r.iter().zip(p.split('.')).take_while(|(a, b)| **a == *b).count();
        r.truncate(n);
    }
    r.join(".")
}

fn at<'a>(v: &'a Value, path: &str) -> &'a Value {
    path.split('.').filter(|k| !k.is_empty()).fold(v, |v, k| &v[k])
}

pub fn c12() {
    let spec = Spec::new("C12", 30_000, 600_000, "a pair of trading parameters which differ, crossed and mutated at every gene")
        .require(&["genes_crossed", "genes_mutated", "variant_swaps", "field_swaps", "uniform_genes", "uniform_extremes"]);
    #[derive(Default)]
    struct Rates {
        // per probability: (genes, hits, adjacent pairs both hit)
        cross: BTreeMap<u32, (u64, u64, u64)>,
        mutate: BTreeMap<u32, (u64, u64, u64)>,
        per_gene: BTreeMap<(u32, usize), (u64, u64)>,
    }
    let rates = Mutex::new(Rates::default());
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            let ivs = [HOUR, 2 * HOUR, 4 * HOUR, DAY];
            let base: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": ivs}})).unwrap();
            let a = TradingParams::generate(rng, &base);
            let va = serde_json::to_value(a).unwrap();
            let q = pick(rng, &[1.0, 1.0, 0.8, 0.0]);
            let b = partner(rng, &va, q, &ivs);
            let vb = serde_json::to_value(b).unwrap();
            // Crossing at every index.
            let mut seen = vec![];
            for i in 0..TradingParams::len() {
                let (mut x, mut y) = (a, b);
                x.cross(&mut y, i);
                c.count("genes_crossed", 1);
                let (vx, vy) = (serde_json::to_value(x).unwrap(), serde_json::to_value(y).unwrap());
                let (dx, dy) = (changed(&va, &vx, ""), changed(&vb, &vy, ""));
                c.check(dx == dy, "cross symmetric", || format!("gene {i} changed {dx:?} of the one and {dy:?} of the other; {va} and {vb}"));
                for p in &dx {
                    c.check(at(&vx, p) == at(&vb, p) && at(&vy, p) == at(&va, p), "cross exchange", || {
                        format!("gene {i}: {p} was {} and {}, became {} and {}", at(&va, p), at(&vb, p), at(&vx, p), at(&vy, p))
                    });
                }
                if !dx.is_empty() {
                    c.count(if dx.len() == 1 { "field_swaps" } else { "variant_swaps" }, 1);
                    seen.push(dx);
                }
                x.cross(&mut y, i);
                c.check(
                    format!("{x:?}") == format!("{a:?}") && format!("{y:?}") == format!("{b:?}"),
                    "cross involution",
                    || format!("crossing twice at gene {i} does not restore {va} and {vb}"),
                );
            }
            seen.sort();
            let want = expected_genes(&va, &vb);
            c.check(seen == want, "cross genes", || {
                let missing: Vec<_> = want.iter().filter(|w| want.iter().filter(|x| x == w).count() > seen.iter().filter(|x| x == w).count()).collect();
                let extra: Vec<_> = seen.iter().filter(|w| seen.iter().filter(|x| x == w).count() > want.iter().filter(|x| x == w).count()).collect();
                format!("genes of {va} and {vb}: nothing exchanges exactly {missing:?}; unexpected {extra:?}")
            });
            // Where each gene acts on a: learned from partners of the same and of other types.
            let mut region: Vec<BTreeSet<String>> = vec![BTreeSet::new(); TradingParams::len()];
            for b in partners(rng, &va, &ivs) {
                for (i, r) in region.iter_mut().enumerate() {
                    let (mut x, mut y) = (a, b);
                    x.cross(&mut y, i);
                    r.extend(changed(&va, &serde_json::to_value(x).unwrap(), ""));
                }
            }
            for (i, r) in region.iter().enumerate() {
                for _ in 0..3 {
                    let mut x = a;
                    x.mutate(rng, i, &base);
                    c.count("genes_mutated", 1);
                    let d = changed(&va, &serde_json::to_value(x).unwrap(), "");
                    if d.is_empty() {
                        continue;
                    }
                    let m = root(&d);
                    // One field, or within one component.
                    c.check(d.len() == 1 || at(&va, &m).get("type").is_some(), "mutate local", || format!("mutating gene {i} changed {d:?} of {va}"));
                    if !r.is_empty() {
                        let g = root(r);
                        c.check(m == g || m.starts_with(&format!("{g}.")), "mutate gene", || {
                            format!("mutating gene {i} changed {d:?}, crossing it changes {r:?}; {va}")
                        });
                    }
                }
            }
            if !want.is_empty() {
                c.nontrivial(&(va.to_string(), vb.to_string()));
            }
            // Uniform operators.
            let p = pick(rng, &[0.0f32, 0.1, 0.25, 0.5, 0.75, 1.0]);
            let mut r = Rates::default();
            for _ in 0..20 {
                let mut x = Genes::generate(rng, &1000);
                let mut y = Genes::generate(rng, &1000);
                let (x0, y0) = (x.clone(), y.clone());
                UniformCrossover::new(p).cross(rng, &mut x, &mut y);
                c.check(x.crossed == y.crossed && x.mutated == [0; GENES] && y.mutated == [0; GENES], "uniform crossover", || "crossover did not cross the two with each other".into());
                for i in 0..GENES {
                    let want = if x.crossed[i] % 2 == 1 { (y0.g[i], x0.g[i]) } else { (x0.g[i], y0.g[i]) };
                    c.check((x.g[i], y.g[i]) == want, "uniform crossover", || format!("gene {i} was neither exchanged nor kept"));
                }
                let mut z = x0.clone();
                UniformMutation::new(p).mutate(rng, &mut z, &1000);
                c.check(z.crossed == [0; GENES], "uniform mutation", || "mutation crossed".into());
                for (hits, name) in [(&x.crossed, 0), (&z.mutated, 1)] {
                    c.check(hits.iter().all(|h| *h <= 1), "uniform once", || format!("a gene was chosen more than once: {hits:?}"));
                    if p == 0.0 || p == 1.0 {
                        c.count("uniform_extremes", 1);
                        c.check(hits.iter().all(|h| *h == p as u32), "uniform extreme", || format!("probability {p} touched {hits:?}"));
                    }
                    let m = if name == 0 { &mut r.cross } else { &mut r.mutate };
                    let e = m.entry((p * 100.0) as u32).or_default();
                    e.0 += GENES as u64;
                    e.1 += hits.iter().map(|h| *h as u64).sum::<u64>();
                    e.2 += (0..GENES - 1).filter(|i| hits[*i] > 0 && hits[*i + 1] > 0).count() as u64;
                    for i in 0..GENES {
                        let e = r.per_gene.entry(((p * 100.0) as u32, name * GENES + i)).or_default();
                        e.0 += 1;
                        e.1 += hits[i] as u64;
                    }
                }
                c.count("uniform_genes", 2 * GENES as u64);
            }
            let mut g = rates.lock().unwrap();
            for (from, to) in [(&r.cross, 0), (&r.mutate, 1)] {
                for (k, v) in from {
                    let e = if to == 0 { g.cross.entry(*k).or_default() } else { g.mutate.entry(*k).or_default() };
                    e.0 += v.0;
                    e.1 += v.1;
                    e.2 += v.2;
                }
            }
            for (k, v) in r.per_gene {
                let e = g.per_gene.entry(k).or_default();
                e.0 += v.0;
                e.1 += v.1;
            }
            c.sample(|| json!({"a": va, "b": vb, "genes": want.len()}));
        },
        |c| {
            let g = rates.lock().unwrap();
            for (name, m) in [("crossover", &g.cross), ("mutation", &g.mutate)] {
                for (k, (n, hits, pairs)) in m {
                    let p = *k as f64 / 100.0;
                    let far = |n: f64, hits: f64, p: f64| (hits - n * p).abs() > 7.0 * (n * p * (1.0 - p)).sqrt() + 1e-9 && n > 1000.0;
                    c.check(!far(*n as f64, *hits as f64, p), "uniform rate", || format!("{name} with probability {p} touched {hits} of {n} genes"));
                    // Pairs overlap, which at most triples the variance.
                    let np = *n as f64 * (GENES - 1) as f64 / GENES as f64;
                    let pp = p * p;
                    let sd = (3.0 * np * pp * (1.0 - pp)).sqrt();
                    c.check((*pairs as f64 - np * pp).abs() <= 7.0 * sd + 1e-9 || np < 1000.0, "uniform independence", || {
                        format!("{name} with probability {p} touched {pairs} of {np} adjacent pairs")
                    });
                }
            }
            for ((k, i), (n, hits)) in &g.per_gene {
                let (p, n, hits) = (*k as f64 / 100.0, *n as f64, *hits as f64);
                c.check((hits - n * p).abs() <= 7.0 * (n * p * (1.0 - p)).sqrt() + 1e-9 || n < 500.0, "uniform rate", || {
                    format!("gene {i} touched {hits} of {n} times with probability {p}")
                });
            }
        },
    );
    std::process::exit(code)
}
