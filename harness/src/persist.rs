//! C27: trading parameters and summaries survive JSON.
use crate::case::*;
use crate::gen::*;
use juno::genetics::Chromosome;
use juno::statistics::CoreStatistics;
use juno::trading::{trade, TradeInput, TradingParams, TradingParamsContext, TradingSummary};
use rand::prelude::*;
use serde_json::{json, Value};

/// Equal up to a few units in the last place, which serde_json's float parser may be off by.
pub fn same(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            if x.keys().ne(y.keys()) {
                return Some(format!("{path}: fields {:?} and {:?}", x.keys().collect::<Vec<_>>(), y.keys().collect::<Vec<_>>()));
            }
            x.iter().find_map(|(k, v)| same(v, &y[k], &format!("{path}.{k}")))
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{path}: {} and {} items", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (a, b))| same(a, b, &format!("{path}[{i}]")))
        }
        (Value::Number(x), Value::Number(y)) if x.is_f64() || y.is_f64() => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if (x - y).abs() <= 1e-15 * x.abs().max(y.abs()) {
                None
            } else {
                Some(format!("{path}: {x:?} and {y:?}"))
            }
        }
        _ => {
            if a == b {
                None
            } else {
                Some(format!("{path}: {a} and {b}"))
            }
        }
    }
}

/// Every way of writing the intervals of a document.
fn as_text(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        for (k, x) in o.iter_mut() {
            if (k == "interval" || k == "buffer_interval") && x.is_u64() {
                *x = json!(crate::text::interval_text(x.as_u64().unwrap()));
            } else {
                as_text(x);
            }
        }
    }
}

/// Removes the fields which may be left out when they have their default; returns how many.
fn strip(v: &mut Value, rng: &mut StdRng, in_sig: bool) -> u64 {
    let mut n = 0;
    match v {
        Value::Object(o) => {
            let sig = o.get("type") == Some(&json!("Sig"));
            for k in ["sigma", "smoothing", "buffer_interval"] {
                if o.get(k) == Some(&Value::Null) && chance(rng, 0.8) {
                    o.remove(k);
                    n += 1;
                }
            }
            if sig && o.get("persistence") == Some(&json!(0)) {
                o.remove("persistence");
                n += 1;
            }
            for (_, x) in o.iter_mut() {
                n += strip(x, rng, in_sig || sig);
            }
        }
        Value::Array(a) => {
            for x in a {
                n += strip(x, rng, in_sig);
            }
        }
        _ => {}
    }
    n
}

pub fn c27() -> ! {
    let spec = Spec::new("C27", 450_000, 9_000_000, "trading parameters written to and read from JSON, and run on a history on which they traded")
        .require(&["documents", "generated", "replays", "summaries", "defaults_taken", "positions", "text_intervals"]);
    run(spec, |c| {
        let rng = &mut c.rng.clone();
        let ivs = [HOUR, 4 * HOUR, DAY];
        let from_doc = chance(rng, 0.6);
        let p: TradingParams = if from_doc {
            let pmax = pick(rng, &[3, 6, 12]);
            let mut d = trading(rng, DAY, pmax, false);
            if d["strategy"]["type"] == "Sig" {
                if chance(rng, 0.5) {
                    d["strategy"]["buffer_interval"] = json!(3 * DAY);
                }
                if chance(rng, 0.5) {
                    d["strategy"]["persistence"] = json!(0);
                }
            }
            if d["strategy"]["type"] == "SingleMA" && chance(rng, 0.5) {
                let period = rng.gen_range(1..9);
                d["strategy"]["ma"] = if chance(rng, 0.5) {
                    json!({"type": "Ema", "period": period, "smoothing": rng.gen_range(0.01..1.0)})
                } else {
                    json!({"type": "Alma", "period": period, "offset": rng.gen_range(0.1..0.9), "sigma": rng.gen_range(1..9)})
                };
            }
            let p = parse_trading(&d);
            // Nothing in the document was dropped, renamed or changed.
            let back = serde_json::to_value(p).unwrap();
            let diff = same(&d, &back, "");
            c.check(diff.is_none(), "document", || format!("{} when reading {d}", diff.unwrap()));
            c.count("documents", 1);
            // Left out optional fields take their defaults.
            let mut s = d.clone();
            let n = strip(&mut s, rng, false);
            if n > 0 {
                c.count("defaults_taken", n);
                match serde_json::from_str::<TradingParams>(&s.to_string()) {
                    Ok(q) => {
                        let diff = same(&back, &serde_json::to_value(q).unwrap(), "");
                        c.check(diff.is_none(), "default", || format!("{} when reading {s}", diff.unwrap()));
                    }
                    Err(e) => c.fail("default", format!("{s} is rejected: {e}")),
                }
            }
            let mut t = d.clone();
            as_text(&mut t);
            c.count("text_intervals", 1);
            match serde_json::from_str::<TradingParams>(&t.to_string()) {
                Ok(q) => {
                    let diff = same(&back, &serde_json::to_value(q).unwrap(), "");
                    c.check(diff.is_none(), "text interval", || format!("{} when reading {t}", diff.unwrap()));
                }
                Err(e) => c.fail("text interval", format!("{t} is rejected: {e}")),
            }
            p
        } else {
            let ctx: TradingParamsContext = serde_json::from_value(json!({"trader": {"intervals": ivs}})).unwrap();
            c.count("generated", 1);
            let mut p = TradingParams::generate(rng, &ctx);
            let mut q = TradingParams::generate(rng, &ctx);
            for i in 0..TradingParams::len() {
                if chance(rng, 0.3) {
                    p.cross(&mut q, i);
                }
            }
            p
        };
        let text = serde_json::to_string(&p).unwrap();
        let pretty = serde_json::to_string_pretty(&p).unwrap();
        let mut q = p;
        for t in [&text, &pretty] {
            q = match serde_json::from_str(t) {
                Ok(q) => q,
                Err(e) => {
                    c.fail("parameters", format!("{text} is rejected: {e}"));
                    return;
                }
            };
            let diff = same(&serde_json::to_value(p).unwrap(), &serde_json::to_value(q).unwrap(), "");
            c.check(diff.is_none(), "parameters", || format!("{} after JSON of {text}", diff.unwrap()));
        }
        // What is written is all there is: equal JSON means equal parameters, Debug shows every field.
        let exact = format!("{p:?}") == format!("{q:?}");
        c.count("exact", exact as u64);
        let n = rng.gen_range(5..80);
        let cs = series_with(rng, n, p.trader.interval.0, Shape::Walk, 18_000 * DAY, 0.0).candles;
        let m = market(rng);
        let run = |p: &TradingParams| {
            trade(p, &TradeInput { candles: &cs, fees: &m.fees, filters: &m.filters, borrow_info: &m.borrow, margin_multiplier: 2, quote: m.quote, long: true, short: true })
        };
        let a = run(&p);
        let va = serde_json::to_value(&a).unwrap();
        if exact {
            c.count("replays", 1);
            let vb = serde_json::to_value(run(&q)).unwrap();
            c.check(va == vb, "replay", || format!("{text} gives {} positions, read back it gives another result", a.positions.len()));
        }
        c.count("positions", a.positions.len() as u64);
        // The summary.
        let st = serde_json::to_string(&a).unwrap();
        match serde_json::from_str::<TradingSummary>(&st) {
            Ok(b) => {
                c.count("summaries", 1);
                let vb = serde_json::to_value(&b).unwrap();
                let diff = same(&va, &vb, "");
                c.check(diff.is_none(), "summary", || format!("{} after JSON of {st}", diff.unwrap()));
                c.check(b.positions.len() == a.positions.len() && b.start == a.start && b.end == a.end, "summary", || "summary differs after JSON".into());
                for (i, (x, y)) in a.positions.iter().zip(&b.positions).enumerate() {
                    use juno::trading::Position::*;
                    let ok = match (x, y) {
                        (Long(x), Long(y)) => x.open_time == y.open_time && x.close_time == y.close_time && x.close_reason == y.close_reason,
                        (Short(x), Short(y)) => x.open_time == y.open_time && x.close_time == y.close_time && x.close_reason == y.close_reason,
                        _ => false,
                    };
                    c.check(ok, "summary", || format!("position {i} differs after JSON of {st}"));
                }
                let (x, y) = (CoreStatistics::compose(&a), CoreStatistics::compose(&b));
                let mag: f64 = crate::trades::flats(&a).iter().map(|p| p.magnitude()).sum::<f64>() + a.quote.abs();
                c.check((x.profit - y.profit).abs() <= 1e-13 * mag, "summary", || {
                    format!("profit {} became {}", x.profit, y.profit)
                });
                c.check(x.num_positions == y.num_positions && x.start == y.start && x.end == y.end, "summary", || "statistics differ after JSON".into());
            }
            Err(e) => c.fail("summary", format!("summary {st} is rejected: {e}")),
        }
        if !a.positions.is_empty() {
            c.nontrivial(&text);
        }
        c.sample(|| json!({"params": text, "positions": a.positions.len()}));
    })
}
