//! S01–S05: the running server against a fake upstream.
use crate::case::*;
use crate::gen::*;
use crate::net::*;
use crate::world::*;
use juno::genetics::{crossover::UniformCrossover, mutation::UniformMutation, reinsertion::EliteReinsertion, selection::EliteSelection, GeneticAlgorithm};
use juno::statistics::Statistics;
use juno::trading::{trade, BasicEvaluation, BasicEvaluationInput, TradeInput, TradingParams, TradingParamsContext};
use juno::{Candle, ExchangeInfo, Interval, Timestamp};
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// JSON equal up to a relative difference of its numbers.
pub fn near(a: &Value, b: &Value, tol: f64, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let (kx, ky): (BTreeSet<_>, BTreeSet<_>) = (x.keys().collect(), y.keys().collect());
            if kx != ky {
                return Some(format!("{path}: has {kx:?} instead of {ky:?}"));
            }
            x.iter().find_map(|(k, v)| near(v, &y[k], tol, &format!("{path}.{k}")))
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: {} items instead of {}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (a, b))| near(a, b, tol, &format!("{path}[{i}]")))
        }
        (Value::Number(x), Value::Number(y)) if x.is_f64() || y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if (x - y).abs() <= tol * x.abs().max(y.abs()).max(1e-9) {
                None
            } else {
                Some(format!("{path}: {x:?} instead of {y:?}"))
            }
        }
        _ => (a != b).then(|| format!("{path}: {a} instead of {b}")),
    }
}

fn text_or_ms(rng: &mut StdRng, iv: u64) -> Value {
    if chance(rng, 0.5) {
        json!(iv)
    } else {
        json!(crate::text::interval_text(iv))
    }
}

/// What the upstream says, as the library reads it.
pub struct Told {
    info: ExchangeInfo,
    candles: HashMap<String, HashMap<u64, Vec<Candle>>>,
    prices: HashMap<String, Vec<f64>>,
}
fn told(e: &Exchange) -> Told {
    Told {
        info: serde_json::from_str(&e.info.to_string()).unwrap(),
        candles: e
            .candles
            .iter()
            .map(|(s, per)| (s.clone(), per.iter().map(|(i, c)| (*i, serde_json::from_str(&c.to_string()).unwrap())).collect()))
            .collect(),
        prices: serde_json::from_str(&json!(e.prices).to_string()).unwrap(),
    }
}

impl Told {
    /// What of it is told for a part of the period.
    fn within(&self, start: u64, a: u64, b: u64) -> Told {
        Told {
            info: serde_json::from_value(serde_json::to_value(&self.info).unwrap()).unwrap(),
            candles: self
                .candles
                .iter()
                .map(|(s, per)| (s.clone(), per.iter().map(|(i, c)| (*i, c.iter().filter(|c| within(c.time.0, *i, a, b)).copied().collect())).collect()))
                .collect(),
            prices: self.prices.iter().map(|(s, p)| (s.clone(), days_of(p, start, a, b).to_vec())).collect(),
        }
    }
}

fn expected_stats(t: &Told, symbol: &str, quote: f64, p: &TradingParams) -> Value {
    let base = symbol.split('-').next().unwrap();
    let summary = trade(
        p,
        &TradeInput {
            candles: &t.candles[symbol][&p.trader.interval.0],
            fees: &t.info.fees[symbol],
            filters: &t.info.filters[symbol],
            borrow_info: &t.info.borrow_info[symbol][base],
            margin_multiplier: 2,
            quote,
            long: true,
            short: true,
        },
    );
    let s = Statistics::compose(&summary, symbol, &t.prices, Interval::DAY_MS);
    serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap()
}

/// The same exchange under another name, so that calls still under way for one request aren't taken for another's.
struct Alias {
    name: String,
    ex: Arc<Mutex<Exchange>>,
}
impl Drop for Alias {
    fn drop(&mut self) {
        unregister(&self.name)
    }
}
impl Setup {
    fn alias(&self, suffix: &str) -> Alias {
        let name = format!("{}-{suffix}", self.name);
        let e = self.ex.lock().unwrap();
        let copy = Exchange {
            info: e.info.clone(),
            candles: e.candles.clone(),
            prices: e.prices.clone(),
            start: e.start,
            faults: vec![],
            max_delay_ms: e.max_delay_ms,
            calls: vec![],
            delays: e.delays.clone(),
        };
        drop(e);
        Alias { ex: register(&name, copy), name }
    }
}
struct Setup {
    name: String,
    w: World,
    ex: Arc<Mutex<Exchange>>,
    told: Told,
}
impl Drop for Setup {
    fn drop(&mut self) {
        unregister(&self.name)
    }
}

fn setup(rng: &mut StdRng, id: &str, case_seed: u64, k: usize, max_delay: u64) -> Setup {
    let days = rng.gen_range(2..20);
    let w = World::sized(rng, days);
    let name = format!("{id}-{case_seed:016x}-{k}");
    let mut e = Exchange::of(&w, rng.gen(), max_delay);
    e.start = Some(w.start);
    let told = told(&e);
    let ex = register(&name, e);
    Setup { name, w, ex, told }
}

fn trading_doc(rng: &mut StdRng, s: &Setup) -> Value {
    let i = s.w.intervals[rng.gen_range(0..s.w.intervals.len())].0;
    let pmax = pick(rng, &[3, 6, 12]);
    let mut v = trading(rng, i, pmax, false);
    v["trader"]["interval"] = text_or_ms(rng, i);
    v
}

fn backtest_body(rng: &mut StdRng, s: &Setup) -> Value {
    let mut symbols = s.w.symbols.clone();
    symbols.shuffle(rng);
    symbols.truncate(rng.gen_range(1..=symbols.len()));
    if chance(rng, 0.2) {
        symbols.push(symbols[0].clone());
    }
    json!({"exchange": s.name, "symbols": symbols, "start": time(rng, s.w.start), "end": time(rng, s.w.end), "quote": s.w.quote, "trading": trading_doc(rng, s)})
}
/// Of the whole period or some days of it.
fn backtest_part(rng: &mut StdRng, s: &Setup) -> (Value, bool) {
    let mut body = backtest_body(rng, s);
    let days = (s.w.end - s.w.start) / DAY;
    let part = days > 2 && chance(rng, 0.5);
    if part {
        let a = rng.gen_range(0..days - 1);
        let b = rng.gen_range(a + 1..=days);
        body["start"] = time(rng, s.w.start + a * DAY);
        body["end"] = time(rng, s.w.start + b * DAY);
    }
    (body, part)
}
fn time(rng: &mut StdRng, t: u64) -> Value {
    if chance(rng, 0.5) {
        json!(t)
    } else {
        serde_json::to_value(juno::Timestamp(t).to_string()).unwrap()
    }
}

/// None, or what is wrong with a backtest response.
fn judge_backtest(s: &Setup, body: &Value, r: &Response, positions: &mut u64) -> Option<String> {
    if r.status != 200 {
        return Some(format!("answered {}", r.short()));
    }
    let Some(v) = r.json() else { return Some(format!("not JSON: {}", r.short())) };
    let symbols: BTreeSet<String> = body["symbols"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let p: TradingParams = serde_json::from_str(&body["trading"].to_string()).unwrap();
    let quote: f64 = serde_json::from_str(&body["quote"].to_string()).unwrap();
    let mut want = serde_json::Map::new();
    let told = s.told.within(s.w.start, ms(&body["start"]).unwrap(), ms(&body["end"]).unwrap());
    for sym in symbols {
        let st = expected_stats(&told, &sym, quote, &p);
        *positions += st["positions"].as_array().unwrap().len() as u64;
        want.insert(sym, st);
    }
    near(&v, &json!({ "symbol_stats": want }), 1e-9, "")
}

// ---------------------------------------------------------------- S01

pub fn s01() {
    let spec = Spec::new("S01", 12_000, 60_000, "a backtest request of which at least one symbol traded; distinct by the response")
        .threads(6)
        .require(&["positions", "symbols", "several_symbols", "overlapping_upstream_calls", "upstream_changes", "parts_of_the_period"]);
    let server = Server::start();
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            let delay = pick(rng, &[0, 0, 3, 15]);
            let mut s = setup(rng, "s01", c.seed, 0, delay);
            for k in 0..2 {
                if k == 1 && chance(rng, 0.5) {
                    // Upstream says something else by now.
                    let days = rng.gen_range(2..20);
                    s.w = World::sized(rng, days);
                    let mut e = Exchange::of(&s.w, rng.gen(), delay);
                    e.start = Some(s.w.start);
                    s.told = told(&e);
                    *s.ex.lock().unwrap() = e;
                    c.count("upstream_changes", 1);
                }
                let (body, part) = backtest_part(rng, &s);
                c.count("parts_of_the_period", part as u64);
                let mut positions = 0;
                match post("/backtest", &body) {
                    Err(e) => c.fail("no answer", format!("{e} to {body}")),
                    Ok(r) => {
                        let bad = judge_backtest(&s, &body, &r, &mut positions);
                        c.check(bad.is_none(), "backtest", || format!("{} in the response to {body}", bad.unwrap()));
                        if positions > 0 {
                            c.nontrivial(&r.text);
                        }
                    }
                }
                let n = body["symbols"].as_array().unwrap().len() as u64;
                c.count("symbols", n);
                c.count("several_symbols", (n > 1) as u64);
                c.count("positions", positions);
                c.sample(|| body.clone());
            }
        },
        |c| {
            c.count("upstream_calls", SERVED.load(Ordering::SeqCst));
            c.count("overlapping_upstream_calls", OVERLAPPING.load(Ordering::SeqCst));
            c.check(server.alive(), "server", || "the server ended".into());
        },
    );
    server.stop();
    std::process::exit(code)
}

// ---------------------------------------------------------------- S02

const STATS: [&str; 4] = ["Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio"];
const AGGS: [&str; 3] = ["Linear", "Log10", "Log10Factored"];

struct Opt {
    body: Value,
    ctx: Value,
    training: Vec<String>,
    all: BTreeSet<String>,
    hof: usize,
    gens: usize,
    stat: &'static str,
    agg: &'static str,
}

fn optimize_body(rng: &mut StdRng, s: &Setup, max_gens: usize) -> Opt {
    let mut symbols = s.w.symbols.clone();
    symbols.shuffle(rng);
    let k = rng.gen_range(1..=symbols.len());
    let training: Vec<String> = symbols[..k].to_vec();
    let mut validation: Vec<String> = symbols[k..].to_vec();
    validation.truncate(rng.gen_range(0..=validation.len()));
    if chance(rng, 0.3) {
        validation.push(training[0].clone());
    }
    let mut ivs: Vec<u64> = s.w.intervals.iter().map(|i| i.0).collect();
    ivs.shuffle(rng);
    ivs.truncate(rng.gen_range(1..=ivs.len()));
    let pmax = pick(rng, &[3, 6]);
    let template = trading(rng, ivs[0], pmax, false);
    let mut ctx = if chance(rng, 0.7) {
        let p = pick(rng, &[0.1, 0.5, 0.9]);
        crate::genetics::context_json(rng, &template, &ivs, p)
    } else {
        json!({"trader": {"intervals": ivs}})
    };
    // Strategies with short periods, most of the time, as others do not trade on these histories.
    if chance(rng, 0.7) {
        ctx["strategy"] = json!({"type": "DoubleMA", "mas": [{"type": "Ema", "period": 2, "smoothing": null}, {"type": "Sma", "period": rng.gen_range(3..6)}]});
    }
    let pop = rng.gen_range(2..24);
    let gens = rng.gen_range(0..=max_gens);
    let hof = if chance(rng, 0.1) { pop + 2 } else { rng.gen_range(1..=pop.min(4)) };
    let (stat, agg) = (pick(rng, &STATS), pick(rng, &AGGS));
    let all: BTreeSet<String> = training.iter().chain(&validation).cloned().collect();
    let seed = if chance(rng, 0.15) { pick(rng, &[0, 1, u64::MAX, 1 << 53, (1 << 53) + 1]) } else { rng.gen() };
    let body = json!({
        "population_size": pop, "generations": gens, "hall_of_fame_size": hof, "seed": seed,
        "exchange": s.name, "start": time(rng, s.w.start), "end": time(rng, s.w.end), "quote": s.w.quote,
        "training_symbols": training, "validation_symbols": validation,
        "evaluation_statistic": stat, "evaluation_aggregation": agg, "context": ctx,
    });
    Opt { body, ctx, training, all, hof: hof.min(pop), gens, stat, agg }
}

/// The numbers under a key in the order of the text, exactly (serde_json may be off by an ULP).
fn exact(text: &str, key: &str) -> Vec<f64> {
    text.split(&format!("\"{key}\":"))
        .skip(1)
        .map(|t| t.trim_start().split(|c: char| c == ',' || c == '}').next().unwrap_or("").trim().parse().unwrap_or(f64::NEG_INFINITY))
        .collect()
}

fn judge_optimize(c: &mut Case, s: &Setup, o: &Opt, r: &Response) -> Option<String> {
    let v = &r.json()?;
    let fits = exact(&r.text, "fitness");
    let mut at = 0;
    let gens = v["generations"].as_array()?;
    let mut last: Option<u64> = None;
    let mut best: Vec<Option<f64>> = vec![None; o.hof];
    if gens.is_empty() {
        return Some("no generations".into());
    }
    for g in gens {
        let nr = g["nr"].as_u64()?;
        if last.is_none() && nr != 0 {
            return Some(format!("the first generation is {nr}"));
        }
        if last.map_or(false, |l| nr <= l) || nr > o.gens as u64 {
            return Some(format!("generation {nr} after {last:?} of {}", o.gens));
        }
        last = Some(nr);
        let hof = g["hall_of_fame"].as_array()?;
        if hof.len() != o.hof {
            return Some(format!("hall of fame of {} instead of {}", hof.len(), o.hof));
        }
        let mut improved = false;
        let mut prev = f64::INFINITY;
        for (i, ind) in hof.iter().enumerate() {
            // JSON has no infinity: a fitness of minus infinity (of a logarithm which overflows) is null.
            let about = match &ind["individual"]["fitness"] {
                Value::Null => f64::NEG_INFINITY,
                f => f.as_f64()?,
            };
            let f = *fits.get(at)?;
            at += 1;
            if f != about && (f - about).abs() > 1e-12 * f.abs() {
                return Some(format!("generation {nr}: fitness {f} read as {about}"));
            }
            c.count("individuals", 1);
            if f > prev {
                return Some(format!("generation {nr} is not sorted"));
            }
            prev = f;
            if best[i].map_or(true, |b| f > b) {
                best[i] = Some(f);
                improved = true;
            }
            let chromosome = &ind["individual"]["chromosome"];
            let mut pins = 0;
            if let Some(bad) = crate::genetics::unpinned(&o.ctx, chromosome, "", &mut pins) {
                return Some(format!("generation {nr}: {bad}"));
            }
            c.count("pins", pins);
            let p: TradingParams = match serde_json::from_str(&chromosome.to_string()) {
                Ok(p) => p,
                Err(e) => return Some(format!("{chromosome} cannot be read back: {e}")),
            };
            let st = ind["symbol_stats"].as_object()?;
            let keys: BTreeSet<String> = st.keys().cloned().collect();
            if keys != o.all {
                return Some(format!("generation {nr}: statistics of {keys:?} instead of {:?}", o.all));
            }
            for (sym, st) in st {
                c.count("symbol_statistics", 1);
                c.count("positions", st["positions"].as_array()?.len() as u64);
                let want = expected_stats(&s.told, sym, s.told_quote(&o.body), &p);
                if let Some(bad) = near(st, &want, 1e-9, &format!("generation {nr}, statistics of {sym}")) {
                    return Some(format!("{bad} for {chromosome}"));
                }
            }
            let mut sum = 0.0;
            let mut scale = 0.0;
            let mut unsure = false;
            let mut overflows = false;
            for sym in &o.training {
                let st = &st[sym];
                let x = match o.stat {
                    "Profit" => &st["core"]["profit"],
                    "ReturnOverMaxDrawdown" => &st["core"]["return_over_max_drawdown"],
                    "SharpeRatio" => &st["extended"]["sharpe_ratio"],
                    _ => &st["extended"]["sortino_ratio"],
                };
                let Some(x) = x.as_f64() else { return Some(format!("{} of {sym} is {x}", o.stat)) };
                let log = |v: f64| if v >= 0.0 { (1.0 + v).log10() } else { -(10f64.powf(1.0 - v)) };
                let a = match o.agg {
                    "Linear" => x,
                    "Log10" => log(x),
                    _ => log(10.0 * x),
                };
                overflows |= a < -1e300;
                unsure |= o.agg != "Linear" && ((x != 0.0 && x.abs() < 1e-9) || x.abs() > 30.0);
                sum += a;
                scale += a.abs();
            }
            if f.is_infinite() && !overflows {
                return Some(format!("generation {nr}: fitness null instead of {sum} ({} {})", o.stat, o.agg));
            }
            if !unsure {
                c.count("fitnesses", 1);
                if (f - sum).abs() > 1e-7 + 1e-5 * scale {
                    return Some(format!("generation {nr}: fitness {f} instead of {sum} ({} {})", o.stat, o.agg));
                }
            }
        }
        if !improved {
            return Some(format!("generation {nr} does not improve the hall of fame"));
        }
    }
    if at != fits.len() {
        return Some(format!("{} fitnesses of {at} individuals", fits.len()));
    }
    None
}

impl Setup {
    fn told_quote(&self, body: &Value) -> f64 {
        serde_json::from_str(&body["quote"].to_string()).unwrap()
    }
}

/// The fitnesses of the hall of fame of every generation, by the library itself with what the server is known to use.
fn replica(s: &Setup, o: &Opt, seed: u64) -> Option<Vec<Vec<f64>>> {
    let candles = s.told.candles.iter().map(|(sym, per)| (sym.clone(), per.iter().map(|(i, c)| (Interval(*i), c.clone())).collect())).collect();
    let ctx: TradingParamsContext = serde_json::from_str(&o.ctx.to_string()).ok()?;
    let parse = |x: &Value| x.to_string();
    let evaluation = BasicEvaluation::new(&BasicEvaluationInput {
        exchange_info: &s.told.info,
        candles: &candles,
        prices: &s.told.prices,
        symbols: &o.training,
        intervals: &ctx.trader.intervals,
        start: Timestamp(s.w.start),
        end: Timestamp(s.w.end),
        quote: s.told_quote(&o.body),
        evaluation_statistic: serde_json::from_str(&parse(&o.body["evaluation_statistic"])).ok()?,
        evaluation_aggregation: serde_json::from_str(&parse(&o.body["evaluation_aggregation"])).ok()?,
    });
    let ga = GeneticAlgorithm::new(
        evaluation,
        EliteSelection { shuffle: false },
        UniformCrossover::new(0.5),
        UniformMutation::new(0.25),
        EliteReinsertion::new(0.75, 0.5),
    );
    let pop = o.body["population_size"].as_u64()? as usize;
    let e = ga.evolve(pop, o.gens, o.hof, Some(seed), |_, _| {}, &ctx);
    Some(e.generations.iter().map(|g| g.hall_of_fame.iter().map(|i| i.fitness).collect()).collect())
}

/// Whether a generation which improves the hall of fame is missing. Decided only if the replica agrees with everything reported:
/// how the server configures the search is its own business.
fn judge_missing(c: &mut Case, s: &Setup, o: &Opt, v: &Value, seed: u64) -> Option<String> {
    let all = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replica(s, o, seed))).ok().flatten()?;
    let gens = v["generations"].as_array()?;
    let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-6);
    let mut reported = BTreeSet::new();
    for g in gens {
        let nr = g["nr"].as_u64()? as usize;
        reported.insert(nr);
        let told: Vec<f64> = g["hall_of_fame"].as_array()?.iter().map(|i| i["individual"]["fitness"].as_f64().unwrap_or(f64::NEG_INFINITY)).collect();
        let same = all.get(nr).map_or(false, |h| h.len() == told.len() && h.iter().zip(&told).all(|(a, b)| close(*a, *b)));
        if !same {
            c.count("not_replicated", 1);
            return None;
        }
    }
    c.count("replicated", 1);
    let mut best = all.first()?.clone();
    for (nr, hof) in all.iter().enumerate() {
        for (i, f) in hof.iter().enumerate() {
            if *f > best[i] {
                if !close(*f, best[i]) && !reported.contains(&nr) {
                    return Some(format!("generation {nr} improves place {i} from {} to {f} but is not reported", best[i]));
                }
                c.count("improvements", 1);
                best[i] = *f;
            }
        }
    }
    None
}

pub fn s02() {
    let spec = Spec::new("S02", 3_600, 30_000, "an optimization whose response reports at least two generations, judged, repeated, cut short and replayed; distinct by the response")
        .threads(6)
        .require(&["individuals", "pins", "positions", "fitnesses", "repeats", "prefixes", "backtests", "unseeded", "skipped_generations"]);
    let server = Server::start();
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            let delay = pick(rng, &[0, 0, 3, 10]);
            let s = setup(rng, "s02", c.seed, 0, delay);
            let mut o = optimize_body(rng, &s, if c.tier == Tier::Quick { 8 } else { 16 });
            let unseeded = chance(rng, 0.3);
            if unseeded {
                let b = o.body.as_object_mut().unwrap();
                if chance(rng, 0.5) {
                    b.remove("seed");
                } else {
                    b.insert("seed".into(), Value::Null);
                }
                c.count("unseeded", 1);
            }
            let ask_text = |c: &mut Case, body: &Value| -> Option<Response> {
                match post("/optimize", body) {
                    Err(e) => {
                        c.fail("no answer", format!("{e} to {body}"));
                        None
                    }
                    Ok(r) if r.status != 200 || r.json().is_none() => {
                        c.fail("status", format!("{} to {body}", r.short()));
                        None
                    }
                    Ok(r) => Some(r),
                }
            };
            let ask = |c: &mut Case, body: &Value| ask_text(c, body).and_then(|r| r.json());
            let Some(r) = ask_text(c, &o.body) else { return };
            let v = r.json().unwrap();
            let bad = judge_optimize(c, &s, &o, &r);
            c.check(bad.is_none(), "optimize", || format!("{} in the response to {}", bad.unwrap(), o.body));
            let Some(seed) = v["seed"].as_u64() else {
                c.fail("seed", format!("seed {} reported to {}", v["seed"], o.body));
                return;
            };
            if !unseeded {
                c.check(o.body["seed"] == json!(seed), "seed", || format!("seed {seed} reported to {}", o.body));
            }
            // Again, with the reported seed.
            o.body["seed"] = json!(seed);
            if let Some(again) = ask(c, &o.body) {
                c.count("repeats", 1);
                let d = near(&again, &v, 1e-12, "");
                c.check(d.is_none(), "repeat", || format!("repeating {} gave {}", o.body, d.unwrap()));
            }
            let bad = judge_missing(c, &s, &o, &v, seed);
            c.check(bad.is_none(), "missing", || format!("{} in the response to {}", bad.unwrap(), o.body));
            // With fewer generations: the same up to there, which also decides the numbers of the generations.
            let empty = vec![];
            let gens = v["generations"].as_array().unwrap_or(&empty);
            c.count("skipped_generations", (o.gens + 1).saturating_sub(gens.len()) as u64);
            let mut cuts: Vec<usize> = gens.iter().filter_map(|g| g["nr"].as_u64()).map(|n| n as usize).filter(|n| *n < o.gens).collect();
            cuts.extend(cuts.clone().iter().filter(|n| **n > 0).map(|n| n - 1));
            cuts.shuffle(rng);
            for m in cuts.into_iter().take(2) {
                let mut b = o.body.clone();
                b["generations"] = json!(m);
                if let Some(part) = ask(c, &b) {
                    c.count("prefixes", 1);
                    let want: Vec<&Value> = gens.iter().filter(|g| g["nr"].as_u64().unwrap() <= m as u64).collect();
                    let d = near(&part["generations"], &json!(want), 1e-12, "generations");
                    c.check(d.is_none(), "prefix", || format!("with only {m} generations {} gave {}", o.body, d.unwrap()));
                }
            }
            // An individual's parameters, backtested.
            if let Some(ind) = gens.choose(rng).and_then(|g| g["hall_of_fame"].as_array()).and_then(|h| h.choose(rng)) {
                let b = json!({"exchange": s.name, "symbols": o.all, "start": s.w.start, "end": s.w.end, "quote": o.body["quote"], "trading": ind["individual"]["chromosome"]});
                match post("/backtest", &b) {
                    Ok(r) if r.status == 200 => {
                        c.count("backtests", 1);
                        let d = near(&r.json().unwrap_or_default()["symbol_stats"], &ind["symbol_stats"], 1e-9, "");
                        c.check(d.is_none(), "replay", || format!("backtest {b} gave {}", d.unwrap()));
                    }
                    r => c.fail("replay", format!("backtest {b} gave {r:?}")),
                }
            }
            if gens.len() > 1 {
                c.nontrivial(&v.to_string());
            }
            c.sample(|| json!({"request": o.body, "reported": gens.iter().map(|g| g["nr"].clone()).collect::<Vec<_>>()}));
        },
        |c| {
            c.count("upstream_calls", SERVED.load(Ordering::SeqCst));
            c.check(server.alive(), "server", || "the server ended".into());
        },
    );
    server.stop();
    std::process::exit(code)
}

// ---------------------------------------------------------------- S03

/// The upstream calls a request needs, as canonical text.
fn needed(exchange: &str, symbols: &BTreeSet<String>, ivs: &BTreeSet<u64>, start: u64, end: u64) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    out.insert(format!("/exchange_info {exchange}"), 1);
    let mut assets = BTreeSet::from(["btc".to_string()]);
    for s in symbols {
        for i in ivs {
            out.insert(format!("/candles {exchange} {s} {i} {start} {end} regular"), 1);
        }
        assets.extend(s.split('-').map(|a| a.to_string()));
    }
    out.insert(format!("/prices {exchange} {assets:?} {DAY} {start} {end} usdt"), 1);
    out
}
fn seen(calls: &[(String, Value)]) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    for (p, v) in calls {
        let n = |k: &str| ms(&v[k]).map(|m| m.to_string()).unwrap_or(format!("{}", v[k]));
        let t = |k: &str| v[k].as_str().map(|s| s.to_string()).unwrap_or(format!("{}", v[k]));
        let k = match p.as_str() {
            "/exchange_info" => format!("{p} {}", t("exchange")),
            "/candles" => format!("{p} {} {} {} {} {} {}", t("exchange"), t("symbol"), n("interval"), n("start"), n("end"), t("type_")),
            "/prices" => {
                let mut a: Vec<String> = v["assets"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect()).unwrap_or_default();
                a.sort();
                let set: BTreeSet<String> = a.iter().cloned().collect();
                let set = if set.len() == a.len() { format!("{set:?}") } else { format!("{a:?}") };
                format!("{p} {} {set} {} {} {} {}", t("exchange"), n("interval"), n("start"), n("end"), t("target_asset"))
            }
            _ => format!("{p} {v}"),
        };
        *out.entry(k).or_insert(0) += 1;
    }
    out
}

pub fn fault(rng: &mut StdRng, tag: &str) -> (Fault, &'static str, Option<String>) {
    match rng.gen_range(0..10) {
        9 => (Fault::Genuine(pick(rng, &[400, 404, 500, 502, 503])), "error_status_with_data", None),
        0 | 1 => {
            let m = format!("upstream says {tag} {}", rng.gen::<u32>());
            let code = pick(rng, &[400, 401, 404, 409, 418, 422, 429, 451]);
            (Fault::Status(code, json!({ "message": m }).to_string()), "client_error", Some(m))
        }
        2 => (Fault::Status(pick(rng, &[400, 404]), pick(rng, &["", "not found", "{}", "[1]"]).into()), "client_error_without_message", None),
        3 | 4 => (Fault::Status(pick(rng, &[500, 502, 503, 504]), pick(rng, &["", "{\"message\": \"x\"}", "oops"]).into()), "server_error", None),
        5 => (Fault::Body(pick(rng, &["", "{", "nope", "\u{1}", "[{]"]).into()), "malformed", None),
        6 => (Fault::Body(pick(rng, &["17", "\"text\"", "{\"a\": 1}", "[[1]]", "null"]).into()), "wrong_shape", None),
        7 => (Fault::Truncated, "truncated", None),
        _ => (Fault::Close, "closed", None),
    }
}

pub fn s03() {
    let spec = Spec::new("S03", 12_000, 60_000, "a request with at least one fault injected into its upstream calls; distinct by the faults, the calls they hit and the answer")
        .threads(6)
        .level("fault_enumeration")
        .require(&[
            "clean_requests",
            "client_error",
            "client_error_without_message",
            "server_error",
            "malformed",
            "wrong_shape",
            "truncated",
            "closed",
            "error_status_with_data",
            "several_faults",
            "faults_hit",
            "messages_carried",
            "recovered",
            "optimizations",
        ]);
    let server = Server::start();
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            let delay = pick(rng, &[0, 0, 2, 8]);
            let s = setup(rng, "s03", c.seed, 0, delay);
            let optimize = chance(rng, 0.4);
            let (path, body, symbols, ivs) = if optimize {
                c.count("optimizations", 1);
                let mut o = optimize_body(rng, &s, 1);
                o.body["population_size"] = json!(2);
                o.body["hall_of_fame_size"] = json!(1);
                let ivs = o.ctx["trader"]["intervals"].as_array().unwrap().iter().map(|i| i.as_u64().unwrap()).collect::<BTreeSet<_>>();
                ("/optimize", o.body, o.all, ivs)
            } else {
                let b = backtest_body(rng, &s);
                let symbols = b["symbols"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
                let iv = ms(&b["trading"]["trader"]["interval"]).unwrap();
                ("/backtest", b, symbols, BTreeSet::from([iv]))
            };
            let need = needed(&s.name, &symbols, &ivs, s.w.start, s.w.end);
            let mut ok = |c: &mut Case, what: &str| {
                s.ex.lock().unwrap().calls.clear();
                match post(path, &body) {
                    Ok(r) if r.status == 200 => {
                        let calls = seen(&s.ex.lock().unwrap().calls);
                        c.check(calls == need, "calls", || {
                            let missing: Vec<_> = need.iter().filter(|(k, n)| calls.get(*k) != Some(n)).collect();
                            let extra: Vec<_> = calls.iter().filter(|(k, n)| need.get(*k) != Some(n)).collect();
                            format!("{what}: upstream was asked {extra:?} but not {missing:?} for {path} {body}")
                        });
                        if path == "/backtest" {
                            let bad = judge_backtest(&s, &body, &r, &mut 0);
                            c.check(bad.is_none(), "result", || format!("{what}: {} for {body}", bad.unwrap()));
                        }
                        c.count("clean_requests", 1);
                    }
                    r => c.fail("clean", format!("{what}: {path} {body} gave {r:?}")),
                }
            };
            ok(c, "without faults");
            // Faults.
            let mut places: Vec<(String, Option<(String, u64)>)> = vec![("/exchange_info".into(), None), ("/prices".into(), None)];
            for sym in &symbols {
                for i in &ivs {
                    places.push(("/candles".into(), Some((sym.clone(), *i))));
                }
            }
            places.shuffle(rng);
            let n = if chance(rng, 0.7) { 1 } else { rng.gen_range(1..=places.len()) };
            let mut kinds = vec![];
            let mut messages = vec![];
            let mut faults = vec![];
            for (i, (p, k)) in places.into_iter().take(n).enumerate() {
                let (f, kind, m) = fault(rng, &format!("{i}"));
                c.count(kind, 1);
                kinds.push(format!("{kind} {p}"));
                messages.push(m);
                faults.push((p, k, f));
            }
            c.count("several_faults", (n > 1) as u64);
            let f = s.alias("faulty");
            f.ex.lock().unwrap().faults = faults.clone();
            let need = needed(&f.name, &symbols, &ivs, s.w.start, s.w.end);
            let mut faulty = body.clone();
            faulty["exchange"] = json!(f.name);
            let r = post(path, &faulty);
            {
                let e = f.ex.lock().unwrap();
                let calls = seen(&e.calls);
                let stray: Vec<_> = calls.keys().filter(|k| !need.contains_key(*k)).collect();
                c.check(stray.is_empty(), "calls", || format!("upstream was asked {stray:?} for {path} {body}"));
                // A lost connection may be retried.
                let lost = faults.iter().any(|(_, _, f)| matches!(f, Fault::Close | Fault::Truncated));
                let twice: Vec<_> = calls.iter().filter(|(k, n)| need.get(*k).map_or(false, |m| *n > m)).collect();
                c.check(lost || twice.is_empty(), "calls", || format!("upstream was asked repeatedly {twice:?} with {faults:?} for {path} {body}"));
                let hit = e.calls.iter().filter(|(p, v)| faults.iter().any(|(q, k, _)| p == q && k.as_ref().map_or(true, |(s, i)| v["symbol"] == json!(s) && ms(&v["interval"]) == Some(*i)))).count();
                c.count("faults_hit", hit as u64);
            }
            let what = format!("{faults:?} for {path} {body}");
            match r {
                Err(e) => c.fail("no answer", format!("{e} with {what}")),
                Ok(r) => {
                    c.check(r.status >= 500, "error status", || format!("{} with {what}", r.short()));
                    let m = r.message();
                    c.check(m.as_ref().map_or(false, |m| !m.is_empty()), "error message", || format!("{} with {what}", r.short()));
                    if let (Some(m), true) = (m, messages.iter().all(|m| m.is_some())) {
                        c.check(messages.iter().flatten().any(|x| m.contains(x.as_str())), "upstream message", || format!("message {m:?} does not carry the upstream's with {what}"));
                        c.count("messages_carried", 1);
                    }
                    c.nontrivial(&(kinds.clone(), path, r.status, messages.iter().map(|m| m.is_some()).collect::<Vec<_>>(), symbols.len(), ivs.len()));
                }
            }
            ok(c, "after the faults");
            c.count("recovered", 1);
            c.sample(|| json!({"path": path, "faults": format!("{faults:?}")}));
        },
        |c| {
            c.count("upstream_calls", SERVED.load(Ordering::SeqCst));
            let st = strangers().lock().unwrap();
            c.check(st.is_empty(), "calls", || format!("calls for no known exchange: {:?}", st[0]));
            c.check(server.alive(), "server", || "the server ended".into());
        },
    );
    server.stop();
    std::process::exit(code)
}

// ---------------------------------------------------------------- S04

pub fn s04() {
    let spec = Spec::new("S04", 180, 6000, "a batch of requests answered alone and all at once with at least one result traded; distinct by the answers")
        .threads(1)
        .require(&["compared", "failing_requests", "backtests", "optimizations", "batches_overlapping", "shared_exchanges"]);
    let server = Server::start();
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            let n = rng.gen_range(4..14);
            let mut reqs: Vec<(Arc<Setup>, &str, Value, bool)> = vec![];
            for k in 0..n {
                let delay = pick(rng, &[0, 1, 5, 20]);
                let kind = rng.gen_range(0..5);
                // Of the same exchange as another one, or of one of its own.
                let shared = reqs.iter().filter(|(_, _, _, failing)| !*failing).map(|(s, _, _, _)| s.clone()).last();
                let s = match shared {
                    Some(s) if kind != 4 && chance(rng, 0.5) => {
                        c.count("shared_exchanges", 1);
                        s
                    }
                    _ => Arc::new(setup(rng, "s04", c.seed, k, delay)),
                };
                let (path, body) = match kind {
                    0 | 1 => ("/backtest", backtest_part(rng, &s).0),
                    2 | 3 => ("/optimize", optimize_body(rng, &s, 4).body),
                    _ => {
                        let mut b = backtest_body(rng, &s);
                        match rng.gen_range(0..3) {
                            0 => s.ex.lock().unwrap().faults.push(("/prices".into(), None, fault(rng, "x").0)),
                            1 => {
                                let sym = b["symbols"][0].as_str().unwrap().to_string();
                                s.ex.lock().unwrap().info["fees"].as_object_mut().unwrap().remove(&sym);
                            }
                            _ => b["trading"]["strategy"] = json!({"type": "DoubleMA"}),
                        }
                        ("/backtest", b)
                    }
                };
                if kind == 4 {
                    c.count("failing_requests", 1);
                } else {
                    c.count(if path == "/backtest" { "backtests" } else { "optimizations" }, 1);
                }
                reqs.push((s, path, body, kind == 4));
            }
            let alone: Vec<_> = reqs.iter().map(|(_, p, b, _)| post(p, b)).collect();
            for ((_, p, b, failing), r) in reqs.iter().zip(&alone) {
                match r {
                    Ok(r) => {
                        c.check((r.status != 200) == *failing, "alone", || format!("{} to {p} {b}", r.short()));
                    }
                    Err(e) => c.fail("no answer", format!("{e} to {p} {b}")),
                }
            }
            for _ in 0..2 {
                let overlap = OVERLAPPING.load(Ordering::SeqCst);
                let mut order: Vec<usize> = (0..n).collect();
                order.shuffle(rng);
                let starts: Vec<u64> = (0..n).map(|_| rng.gen_range(0..8)).collect();
                let together: Vec<(usize, Result<Response, String>)> = std::thread::scope(|sc| {
                    let hs: Vec<_> = order
                        .iter()
                        .map(|i| {
                            let (_, p, b, _) = &reqs[*i];
                            let d = starts[*i];
                            let i = *i;
                            sc.spawn(move || {
                                std::thread::sleep(std::time::Duration::from_millis(d));
                                (i, post(p, b))
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("client")).collect()
                });
                for (i, r) in &together {
                    let (_, p, b, failing) = &reqs[*i];
                    c.count("compared", 1);
                    match (&alone[*i], r) {
                        (Ok(a), Ok(r)) => {
                            let d = if *failing {
                                (a.status != r.status).then(|| format!("{} instead of {}", r.short(), a.short()))
                            } else {
                                match (r.json(), a.json()) {
                                    (Some(x), Some(y)) => near(&x, &y, 1e-12, ""),
                                    _ => Some(format!("{} instead of {}", r.short(), a.short())),
                                }
                            };
                            c.check(d.is_none(), "together", || format!("{} when served together with {} others: {p} {b}", d.unwrap(), n - 1));
                        }
                        (_, Err(e)) => c.fail("no answer", format!("{e} to {p} {b} together with {} others", n - 1)),
                        _ => {}
                    }
                }
                c.count("batches_overlapping", (OVERLAPPING.load(Ordering::SeqCst) > overlap) as u64);
            }
            c.count("overlapping_upstream_calls", 0);
            if alone.iter().flatten().any(|r| r.text.contains("open_time")) {
                c.nontrivial(&alone.iter().map(|r| r.as_ref().map(|r| r.text.clone()).unwrap_or_default()).collect::<Vec<_>>());
            }
            c.sample(|| json!({"requests": reqs.iter().map(|r| r.1).collect::<Vec<_>>()}));
        },
        |c| {
            c.count("upstream_calls", SERVED.load(Ordering::SeqCst));
            c.count("overlapping_upstream_calls", OVERLAPPING.load(Ordering::SeqCst));
            c.check(server.alive(), "server", || "the server ended".into());
        },
    );
    server.stop();
    std::process::exit(code)
}

// ---------------------------------------------------------------- S05

/// Requests which are not valid, derived from a valid one.
fn invalid(rng: &mut StdRng, path: &'static str, valid: &Value) -> (String, String, Option<&'static str>, String, String) {
    let post = "POST".to_string();
    let json_type = Some("application/json");
    let mut b = valid.clone();
    let keys: Vec<String> = b.as_object().unwrap().keys().filter(|k| *k != "seed").cloned().collect();
    let mut body = |b: Value, why: String| (post.clone(), path.to_string(), json_type, b.to_string(), why);
    match rng.gen_range(0..12) {
        0 => {
            let k = keys.choose(rng).unwrap();
            b.as_object_mut().unwrap().remove(k);
            body(b, format!("without {k}"))
        }
        1 => {
            let k = keys.choose(rng).unwrap().clone();
            let wrong = match b[&k] {
                Value::String(_) => pick(rng, &["{}", "[]", "true"]),
                Value::Number(_) => pick(rng, &["{}", "[]", "true"]),
                Value::Array(_) => pick(rng, &["{}", "17", "\"x\"", "[17]", "[null]"]),
                // A struct may be written as an array of its fields.
                _ => pick(rng, &["17", "\"x\"", "true", "null"]),
            };
            b[&k] = serde_json::from_str(wrong).unwrap();
            body(b, format!("{k} is {wrong}"))
        }
        2 => {
            let k = pick(rng, &["start", "end"]);
            let w = pick(rng, &["yesterday", "2020-13-01", "2020-02-30", "", "-", "2020-01-01T99:00", "1d"]);
            b[k] = json!(w);
            body(b, format!("{k} is {w:?}"))
        }
        3 => {
            let w = pick(rng, &["1x", "h", "-1h", "", "1.5d", "99999999999999999999d", "d1"]);
            if path == "/backtest" {
                b["trading"]["trader"]["interval"] = json!(w);
            } else {
                b["context"]["trader"]["intervals"] = json!([w]);
            }
            body(b, format!("interval {w:?}"))
        }
        4 => {
            let k = pick(rng, &["strategy", "stop_loss", "take_profit"]);
            let w = pick(rng, &["Nope", "", "basic", "DOUBLEMA"]);
            let at = if path == "/backtest" { "trading" } else { "context" };
            b[at][k] = json!({ "type": w });
            body(b, format!("{k} of type {w:?}"))
        }
        5 => {
            if path == "/backtest" {
                let k = pick(rng, &["strategy", "trader", "stop_loss", "take_profit"]);
                b["trading"].as_object_mut().unwrap().remove(k);
                body(b, format!("trading without {k}"))
            } else {
                let k = pick(rng, &["evaluation_statistic", "evaluation_aggregation"]);
                b[k] = json!("Nope");
                body(b, format!("unknown {k}"))
            }
        }
        6 => {
            let t = valid.to_string();
            let n = rng.gen_range(0..t.len());
            (post, path.into(), json_type, t[..n].to_string(), format!("cut after {n} bytes"))
        }
        7 => {
            let t = pick(rng, &["", "null", "17", "{}", "{]", "\"\"", "{\"exchange\": }", "\u{0}"]);
            (post, path.into(), json_type, t.to_string(), format!("body {t:?}"))
        }
        8 => (post, path.into(), pick(rng, &[None, Some("text/plain"), Some("application/xml")]), valid.to_string(), "wrong content type".into()),
        9 => {
            let m = if path == "/backtest" { pick(rng, &["GET", "PUT", "DELETE", "PATCH"]) } else { pick(rng, &["PUT", "DELETE", "PATCH"]) };
            (m.into(), path.into(), json_type, valid.to_string(), format!("method {m}"))
        }
        10 => {
            let p = pick(rng, &["/backtests/", "/optimise/", "/x", "/backtest/x", "/optimize/1", "/backtest/", "/optimize/", "/candles"]);
            (post, p.into(), json_type, valid.to_string(), format!("path {p}"))
        }
        _ => {
            let k = if path == "/optimize" { pick(rng, &["population_size", "generations", "hall_of_fame_size", "seed"]) } else { "quote" };
            let w = if k == "quote" { pick(rng, &["\"1\"", "null"]) } else { pick(rng, &["-1", "1.5", "\"7\"", "1e30"]) };
            b[k] = serde_json::from_str(w).unwrap();
            body(b, format!("{k} is {w}"))
        }
    }
}

pub fn s05() {
    let spec = Spec::new("S05", 12_000, 60_000, "an invalid or uncomputable request with its answer; distinct by what is wrong and the answer's status")
        .threads(6)
        .require(&["invalid", "uncomputable", "valid_after", "info_requests", "positions"]);
    let server = Server::start();
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            let s = setup(rng, "s05", c.seed, 0, 0);
            for i in 0..4 {
                let optimize = chance(rng, 0.5);
                let path = if optimize { "/optimize" } else { "/backtest" };
                let valid = if optimize { optimize_body(rng, &s, 1).body } else { backtest_body(rng, &s) };
                s.ex.lock().unwrap().calls.clear();
                if chance(rng, 0.6) {
                    let (m, p, ct, b, why) = invalid(rng, path, &valid);
                    c.count("invalid", 1);
                    match request(&m, &p, ct, &b) {
                        Err(e) => c.fail("no answer", format!("{e} to {m} {p} ({why}): {b}")),
                        Ok(r) => {
                            c.check((400..500).contains(&r.status), "refused", || format!("{} to {m} {p} ({why}): {b}", r.short()));
                            c.nontrivial(&(why.clone(), p.clone(), r.status));
                        }
                    }
                    let calls = s.ex.lock().unwrap().calls.len();
                    c.check(calls == 0, "upstream", || format!("{calls} upstream calls for {m} {p} ({why}): {b}"));
                } else {
                    let mut b = valid.clone();
                    let a = s.alias(&i.to_string());
                    b["exchange"] = json!(a.name);
                    let syms = if optimize { "training_symbols" } else { "symbols" };
                    let first = b[syms][0].as_str().unwrap().to_string();
                    let n = rng.gen_range(0..if optimize { 9 } else { 6 });
                    let why = match n {
                        0 => {
                            let x = pick(rng, &["nope-btc", "eth-nope", "a-b-c"]);
                            b[syms] = json!([first, x]);
                            format!("unknown symbol {x}")
                        }
                        1 => {
                            let x = pick(rng, &["ethbtc", "", "eth"]);
                            b[syms] = json!([x]);
                            format!("symbol {x:?}")
                        }
                        2..=4 => {
                            let k = ["fees", "filters", "borrow_info"][n - 2];
                            a.ex.lock().unwrap().info[k].as_object_mut().unwrap().remove(&first);
                            format!("no {k} of {first}")
                        }
                        5 => {
                            let base = first.split('-').next().unwrap();
                            a.ex.lock().unwrap().info["borrow_info"][&first].as_object_mut().unwrap().remove(base);
                            format!("no borrow info of {base} for {first}")
                        }
                        6 => {
                            b["population_size"] = json!(rng.gen_range(0..2));
                            "population too small".into()
                        }
                        7 => {
                            b["hall_of_fame_size"] = json!(0);
                            "no hall of fame".into()
                        }
                        _ => {
                            b["context"]["trader"]["intervals"] = json!([]);
                            "no intervals".into()
                        }
                    };
                    c.count("uncomputable", 1);
                    match post(path, &b) {
                        Err(e) => c.fail("no answer", format!("{e} to {path} ({why}): {b}")),
                        Ok(r) => {
                            c.check(r.status >= 500 && r.message().map_or(false, |m| !m.is_empty()), "error", || format!("{} to {path} ({why}): {b}", r.short()));
                            c.nontrivial(&(why.clone(), path, r.status));
                        }
                    }
                }
            }
            if c.index % 10 == 0 {
                c.count("info_requests", 1);
                match request("GET", "/optimize", None, "") {
                    Ok(r) => {
                        let v = r.json().unwrap_or_default();
                        let set = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<BTreeSet<_>>()).unwrap_or_default();
                        let want = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>();
                        c.check(
                            r.status == 200 && want(&STATS).is_subset(&set(&v["evaluation_statistics"])) && want(&AGGS).is_subset(&set(&v["evaluation_aggregations"])),
                            "info",
                            || r.short(),
                        );
                    }
                    Err(e) => c.fail("no answer", format!("{e} to GET /optimize/")),
                }
            }
            // The server still serves.
            let b = backtest_body(rng, &s);
            let mut positions = 0;
            match post("/backtest", &b) {
                Err(e) => c.fail("no answer", format!("{e} to valid {b}")),
                Ok(r) => {
                    let bad = judge_backtest(&s, &b, &r, &mut positions);
                    c.check(bad.is_none(), "valid after", || format!("{} in the response to {b}", bad.unwrap()));
                }
            }
            c.count("positions", positions);
            c.count("valid_after", 1);
            c.sample(|| b.clone());
        },
        |c| {
            let st = strangers().lock().unwrap();
            c.check(st.is_empty(), "upstream", || format!("upstream calls for no known exchange: {:?}", st[0]));
            c.check(server.alive(), "server", || "the server ended".into());
        },
    );
    server.stop();
    std::process::exit(code)
}
