//! Workload generators. Parameters are made as JSON (the wire format users send) so that the reference
//! oracles read them on their own, and are deserialized for the code under test.
use juno::{trading::TradingParams, BorrowInfo, Candle, Fees, Filters, Interval, Timestamp};
use rand::prelude::*;
use serde_json::{json, Value};
use std::sync::OnceLock;

pub const MIN: u64 = 60_000;
pub const HOUR: u64 = 3_600_000;
pub const DAY: u64 = 86_400_000;
pub const WEEK: u64 = 7 * DAY;
/// The first Monday after the epoch.
pub const MONDAY: u64 = 4 * DAY;

pub fn chance(rng: &mut StdRng, p: f64) -> bool {
    rng.gen::<f64>() < p
}
pub fn pick<T: Copy>(rng: &mut StdRng, xs: &[T]) -> T {
    xs[rng.gen_range(0..xs.len())]
}
pub fn log_uniform(rng: &mut StdRng, lo: f64, hi: f64) -> f64 {
    rng.gen_range(lo.ln()..hi.ln()).exp()
}

// ---------------------------------------------------------------- prices

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum Shape {
    Walk,
    Trend,
    Cycle,
    Flat,
    FlatJumps,
    Spiky,
    Ticks,
    Dyadic,
    Alternate,
}
pub const SHAPES: [Shape; 9] = [
    Shape::Walk,
    Shape::Trend,
    Shape::Cycle,
    Shape::Flat,
    Shape::FlatJumps,
    Shape::Spiky,
    Shape::Ticks,
    Shape::Dyadic,
    Shape::Alternate,
];

pub fn closes(rng: &mut StdRng, n: usize, shape: Shape) -> Vec<f64> {
    let base = match shape {
        Shape::Dyadic => 1024.0,
        Shape::Ticks => rng.gen_range(5..60) as f64,
        _ => match rng.gen_range(0..4) {
            0 => log_uniform(rng, 0.0001, 0.01),
            1 => log_uniform(rng, 0.01, 1.0),
            2 => log_uniform(rng, 1.0, 1000.0),
            _ => log_uniform(rng, 1000.0, 60000.0),
        },
    };
    let vol = log_uniform(rng, 0.001, 0.15);
    let drift: f64 = rng.gen_range(-0.02..0.02);
    let cyc = rng.gen_range(3.0..30.0);
    let amp = rng.gen_range(0.02..0.5);
    let mut p = base;
    let mut out = Vec::with_capacity(n);
    let mut run_dir = 1.0;
    for i in 0..n {
        match shape {
            Shape::Walk => p *= (rng.gen_range(-1.0..1.0f64) * vol * 1.7).exp(),
            Shape::Trend => {
                if chance(rng, 0.05) {
                    run_dir = -run_dir;
                }
                p *= (run_dir * drift.abs().max(0.003) + rng.gen_range(-0.3..0.3) * vol).exp()
            }
            Shape::Cycle => p = base * (1.0 + amp * (i as f64 / cyc * std::f64::consts::TAU).sin()),
            Shape::Flat => {}
            Shape::FlatJumps => {
                if chance(rng, 0.08) {
                    p *= (rng.gen_range(-1.0..1.0f64) * 0.3).exp()
                }
            }
            Shape::Spiky => {
                p *= (rng.gen_range(-1.0..1.0f64) * vol).exp();
                if chance(rng, 0.06) {
                    p *= pick(rng, &[0.35, 0.6, 1.5, 2.5])
                }
            }
            Shape::Ticks => p = (p + rng.gen_range(-2..=2) as f64).max(1.0),
            Shape::Dyadic => {
                // Powers of two and their three-quarter points: thresholds hit them exactly.
                p = pick(rng, &[512.0, 640.0, 768.0, 896.0, 1024.0, 1280.0, 1536.0, 2048.0, 256.0, 1152.0])
            }
            Shape::Alternate => p = if i % 2 == 0 { base } else { base * (1.0 + amp) },
        }
        p = p.clamp(1e-6, 1e7);
        out.push(p);
    }
    out
}

pub fn candle(rng: &mut StdRng, time: u64, open: f64, close: f64, flat: bool) -> Candle {
    let (hi, lo) = (open.max(close), open.min(close));
    let (high, low) = if flat {
        (hi, lo)
    } else {
        (hi * (1.0 + rng.gen_range(0.0..0.02)), lo * (1.0 - rng.gen_range(0.0..0.02)))
    };
    Candle { time: Timestamp(time), open, high, low, close, volume: rng.gen_range(0..1000) as f64 / 8.0 }
}

#[derive(Clone, Debug)]
pub struct Series {
    pub shape: Shape,
    pub interval: u64,
    pub candles: Vec<Candle>,
    pub gaps: bool,
}

pub fn series_with(rng: &mut StdRng, n: usize, interval: u64, shape: Shape, start: u64, gap_p: f64) -> Series {
    let cs = closes(rng, n, shape);
    let flat = matches!(shape, Shape::Flat | Shape::Dyadic | Shape::Ticks) && chance(rng, 0.6);
    // Wicks on the same grid as the prices, so that ties occur.
    let grid = match shape {
        Shape::Ticks => 1.0,
        Shape::Dyadic => 64.0,
        _ => 0.0,
    };
    let grid = if !flat && chance(rng, 0.8) { grid } else { 0.0 };
    let mut prev = cs.first().copied().unwrap_or(1.0);
    let mut t = start;
    let mut out = vec![];
    let mut gaps = false;
    for c in cs {
        if chance(rng, gap_p) {
            t += interval * if chance(rng, 0.02) { rng.gen_range(200..1000) } else { rng.gen_range(1..12) };
            gaps = true;
        }
        out.push(candle(rng, t, prev, c, flat || grid > 0.0));
        if grid > 0.0 {
            let x = out.last_mut().unwrap();
            x.high += grid * rng.gen_range(0..3) as f64;
            x.low = (x.low - grid * rng.gen_range(0..3) as f64).max(0.5);
        }
        prev = c;
        t += interval;
    }
    Series { shape, interval, candles: out, gaps }
}

/// A day since 1970: mostly of recent years, sometimes long ago or beyond 2038 (or 2106), where representations overflow.
pub fn start_day(rng: &mut StdRng) -> u64 {
    if chance(rng, 0.02) {
        0
    } else if chance(rng, 0.06) {
        let d = pick(rng, &[8, 365, 5_000, 11_570, 24_850, 24_855, 30_000, 49_700]);
        d + rng.gen_range(0..20)
    } else {
        rng.gen_range(16_000..19_500)
    }
}

pub fn start_time(rng: &mut StdRng, interval: u64) -> u64 {
    let mut t = start_day(rng) * DAY;
    if interval < DAY && chance(rng, 0.5) {
        t += rng.gen_range(0..DAY / interval) * interval;
    }
    if interval == WEEK {
        t = (t.max(MONDAY) - MONDAY) / WEEK * WEEK + MONDAY;
    }
    t
}

pub fn series(rng: &mut StdRng, n: usize, gap_p: f64) -> Series {
    if chance(rng, 0.1) && !real_candles().is_empty() {
        let r = real_candles();
        let n = n.min(r.len());
        let s = rng.gen_range(0..=r.len() - n);
        return Series { shape: Shape::Walk, interval: DAY, candles: r[s..s + n].to_vec(), gaps: true };
    }
    let interval = pick(rng, &[1000, MIN, 5 * MIN, HOUR, HOUR, 2 * HOUR, 4 * HOUR, 8 * HOUR, 12 * HOUR, DAY, DAY, DAY, DAY, 3 * DAY, WEEK]);
    let shape = pick(rng, &SHAPES);
    let start = start_time(rng, interval);
    series_with(rng, n, interval, shape, start, gap_p)
}

/// Candles which ship with the repository's tests, as a realistic history. Empty if they are gone.
pub fn real_candles() -> &'static Vec<Candle> {
    static R: OnceLock<Vec<Candle>> = OnceLock::new();
    R.get_or_init(|| {
        let p = crate::case::repo_dir().join("juno/tests/data/binance_eth-btc_1d_2018-01-01_2021-01-01_candles.json");
        std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
    })
}

// ---------------------------------------------------------------- parameters (as JSON)

pub fn ma(rng: &mut StdRng, period: u64) -> Value {
    match rng.gen_range(0..8) {
        0 if chance(rng, 0.4) => json!({"type": "Alma", "offset": rng.gen_range(0.01..0.99), "period": period, "sigma": rng.gen_range(1u32..9)}),
        0 => json!({"type": "Alma", "offset": 0.85, "period": period, "sigma": null}),
        1 => json!({"type": "Dema", "period": period}),
        2 if chance(rng, 0.4) => json!({"type": "Ema", "period": period, "smoothing": rng.gen_range(0.01..=1.0)}),
        2 => json!({"type": "Ema", "period": period, "smoothing": null}),
        3 => json!({"type": "Ema2", "period": period}),
        4 => json!({"type": "Kama", "period": period}),
        5 => json!({"type": "Smma", "period": period}),
        _ => json!({"type": "Sma", "period": period}),
    }
}

fn periods2(rng: &mut StdRng, max: u64) -> (u64, u64) {
    let s = rng.gen_range(1..max);
    (s, rng.gen_range(s + 1..=max))
}

pub const SIGNALS: [&str; 7] =
    ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA"];

pub fn double_ma(rng: &mut StdRng, pmax: u64) -> Value {
    let (s, l) = periods2(rng, pmax.max(2));
    json!({"mas": [ma(rng, s), ma(rng, l)]})
}

pub fn stoch(rng: &mut StdRng, pmax: u64) -> Value {
    let p = (pmax / 2).max(1);
    json!({"k_period": rng.gen_range(1..=pmax), "k_sma_period": rng.gen_range(1..=p), "d_sma_period": rng.gen_range(1..=p),
           "up_threshold": rng.gen_range(50.0..100.0), "down_threshold": rng.gen_range(0.0..50.0)})
}

fn tag(mut v: Value, t: &str) -> Value {
    v.as_object_mut().unwrap().insert("type".into(), json!(t));
    v
}

pub fn signal_of(rng: &mut StdRng, kind: &str, pmax: u64) -> Value {
    let pmax = pmax.max(3);
    let v = match kind {
        "DoubleMA" => double_ma(rng, pmax),
        "DoubleMA2" => {
            let mut v = double_ma(rng, pmax);
            let small = chance(rng, 0.5);
            v["neg_threshold"] = json!(-if small { rng.gen_range(0.001..0.1) } else { rng.gen_range(0.1..0.99) });
            v["pos_threshold"] = json!(if small { rng.gen_range(0.001..0.1) } else { rng.gen_range(0.1..0.99) });
            v
        }
        "DoubleMAStoch" => json!({"double_ma": double_ma(rng, pmax), "stoch": stoch(rng, pmax)}),
        "FourWeekRule" => {
            let p = rng.gen_range(1..=pmax);
            json!({"period": rng.gen_range(1..=pmax), "ma": ma(rng, p)})
        }
        "Macd" => {
            let (s, l) = if chance(rng, 0.15) { (12, 26) } else { periods2(rng, pmax) };
            json!({"periods": [s, l], "signal_period": rng.gen_range(1..=pmax)})
        }
        "SingleMA" => {
            let p = rng.gen_range(1..=pmax);
            json!({"ma": ma(rng, p)})
        }
        "TripleMA" => {
            let s = rng.gen_range(1..=pmax - 2);
            let m = rng.gen_range(s + 1..=pmax - 1);
            let l = rng.gen_range(m + 1..=pmax);
            json!({"mas": [ma(rng, s), ma(rng, m), ma(rng, l)]})
        }
        _ => unreachable!(),
    };
    tag(v, kind)
}

pub fn signal(rng: &mut StdRng, pmax: u64) -> Value {
    let k = pick(rng, &SIGNALS);
    signal_of(rng, k, pmax)
}

pub fn oscillator(rng: &mut StdRng, pmax: u64) -> Value {
    if chance(rng, 0.5) {
        json!({"type": "Rsi", "period": rng.gen_range(1..=pmax), "up_threshold": rng.gen_range(50.0..100.0), "down_threshold": rng.gen_range(0.0..50.0)})
    } else {
        tag(stoch(rng, pmax), "Stoch")
    }
}

pub fn policy(rng: &mut StdRng) -> &'static str {
    pick(rng, &["Current", "Previous", "Ignore"])
}

pub fn strategy(rng: &mut StdRng, pmax: u64) -> Value {
    match rng.gen_range(0..10) {
        // The change of the close as advice: reaches every pattern of advice directly.
        0 | 1 => json!({"type": "DoubleMA", "mas": [{"type": "Sma", "period": 1}, {"type": "Sma", "period": 2}]}),
        2..=6 => signal(rng, pmax),
        7 | 8 => json!({"type": "Sig", "sig": signal(rng, pmax), "persistence": rng.gen_range(0..4u32), "mid_trend_policy": policy(rng), "buffer_interval": null}),
        _ => json!({"type": "SigOsc", "sig": signal(rng, pmax), "osc": oscillator(rng, pmax),
                    "osc_filter": pick(rng, &["Enforce", "Prevent"]), "persistence": rng.gen_range(0..4u32), "mid_trend_policy": policy(rng)}),
    }
}

fn dy(rng: &mut StdRng) -> f64 {
    pick(rng, &[0.125, 0.25, 0.375, 0.5, 0.75])
}

/// dyadic: thresholds for which the comparison with dyadic prices is exact, so that ties are decided.
pub fn stop_loss(rng: &mut StdRng, dyadic: bool) -> Value {
    let th = |rng: &mut StdRng| -> f64 {
        if dyadic {
            dy(rng)
        } else if chance(rng, 0.6) {
            rng.gen_range(0.001..0.08)
        } else {
            rng.gen_range(0.001..1.0)
        }
    };
    match rng.gen_range(0..6) {
        0 => json!({"type": "Basic", "up_threshold": th(rng), "down_threshold": th(rng)}),
        1 => json!({"type": "Trailing", "up_threshold": th(rng), "down_threshold": th(rng)}),
        2 => json!({"type": "BasicPlusTrailing",
                    "basic": {"up_threshold": th(rng), "down_threshold": th(rng)},
                    "trailing": {"up_threshold": th(rng), "down_threshold": th(rng)}}),
        3 | 4 => json!({"type": "Legacy", "threshold": if chance(rng, 0.2) { 0.0 } else { th(rng) }, "trail": rng.gen::<bool>()}),
        _ => json!({"type": "Noop"}),
    }
}

pub const EASINGS: [&str; 31] = [
    "Linear", "QuadIn", "QuadOut", "QuadInout", "CubicIn", "CubicOut", "CubicInout", "QuartIn", "QuartOut",
    "QuartInout", "QuintIn", "QuintOut", "QuintInout", "SineIn", "SineOut", "SineInout", "CircIn", "CircOut",
    "CircInout", "ExpoIn", "ExpoOut", "ExpoInout", "ElasticIn", "ElasticOut", "ElasticInout", "BackIn", "BackOut",
    "BackInout", "BounceIn", "BounceOut", "BounceInout",
];

pub fn take_profit(rng: &mut StdRng, dyadic: bool) -> Value {
    let th = |rng: &mut StdRng| -> f64 {
        if dyadic {
            dy(rng)
        } else if chance(rng, 0.6) {
            rng.gen_range(0.001..0.08)
        } else {
            rng.gen_range(0.001..2.0)
        }
    };
    let pair = |rng: &mut StdRng| -> (f64, f64) {
        if dyadic {
            let a = pick(rng, &[0.0625, 0.125, 0.25, 0.5]);
            return (a, a + dy(rng) / 2.0);
        }
        let a = rng.gen_range(0.001..0.2);
        (a, a + rng.gen_range(0.001..0.5))
    };
    match rng.gen_range(0..6) {
        0 | 1 => json!({"type": "Basic", "up_threshold": th(rng), "down_threshold": th(rng)}),
        2 => json!({"type": "Legacy", "threshold": if chance(rng, 0.2) { 0.0 } else { th(rng) }}),
        3 => json!({"type": "Noop"}),
        _ => {
            let (a, b) = (pair(rng), pair(rng));
            json!({"type": "Trending", "up_thresholds": [a.0, a.1], "down_thresholds": [b.0, b.1],
                   "period": rng.gen_range(1..12), "lock_threshold": rng.gen::<bool>(), "easing": if dyadic && chance(rng, 0.5) { "Linear" } else { pick(rng, &EASINGS) }})
        }
    }
}

pub fn trading(rng: &mut StdRng, interval: u64, pmax: u64, dyadic: bool) -> Value {
    json!({
        "strategy": strategy(rng, pmax),
        "trader": {"interval": interval},
        "stop_loss": stop_loss(rng, dyadic),
        "take_profit": take_profit(rng, dyadic),
    })
}

pub fn parse_trading(v: &Value) -> TradingParams {
    serde_json::from_value(v.clone()).expect("trading params JSON")
}

// ---------------------------------------------------------------- market

#[derive(Clone, Debug)]
pub struct Market {
    pub fees: Fees,
    pub filters: Filters,
    pub borrow: BorrowInfo,
    pub margin_multiplier: u32,
    pub quote: f64,
}

pub fn filters(rng: &mut StdRng) -> Filters {
    let real = real_filters();
    if chance(rng, 0.25) && !real.is_empty() {
        return real[rng.gen_range(0..real.len())];
    }
    let step = match rng.gen_range(0..5) {
        0 => pick(rng, &[0.25, 0.5, 0.3, 2.5, 0.07]),
        1 => 0.0,
        _ => 10f64.powi(-rng.gen_range(0..9)),
    };
    let min = match rng.gen_range(0..4) {
        0 => 0.0,
        1 => step * rng.gen_range(1..20) as f64,
        2 => step * rng.gen_range(0.1..3.0),
        _ => step,
    };
    let max = match rng.gen_range(0..4) {
        0 => 0.0,
        1 => (min + step) * log_uniform(rng, 1.0, 1000.0),
        _ => 9e7,
    };
    serde_json::from_value(json!({
        "price": {"min": 1e-8, "max": 0.0, "step": 1e-8},
        "size": {"min": min, "max": max, "step": step},
        "base_precision": pick(rng, &[8u32, 8, 8, 2, 0, 4, 10, 12]),
        "quote_precision": pick(rng, &[8u32, 8, 8, 2, 1, 5, 10, 12]),
    }))
    .unwrap()
}

fn real_filters() -> &'static Vec<Filters> {
    static R: OnceLock<Vec<Filters>> = OnceLock::new();
    R.get_or_init(|| {
        // Too large to read with Miri.
        if cfg!(miri) {
            return vec![];
        }
        let p = crate::case::repo_dir().join("juno/tests/data/binance_exchange_info.json");
        let Some(v) = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
            return vec![];
        };
        let Some(o) = v["filters"].as_object() else { return vec![] };
        o.values().filter_map(|f| serde_json::from_value(f.clone()).ok()).collect()
    })
}

pub fn market(rng: &mut StdRng) -> Market {
    Market {
        fees: Fees {
            maker: pick(rng, &[0.0, 0.001, 0.0005]),
            taker: match rng.gen_range(0..5) {
                0 => 0.0,
                1 => rng.gen_range(0.0..0.05),
                2 => 0.01,
                _ => 0.001,
            },
        },
        filters: filters(rng),
        borrow: BorrowInfo {
            interest_interval: pick(rng, &[HOUR, HOUR, DAY, 1000, 7 * MIN + 13, 1]),
            interest_rate: pick(rng, &[0.0, 0.0000125, 0.0003, 0.01]),
            limit: match rng.gen_range(0..5) {
                0 => log_uniform(rng, 0.01, 100.0),
                1 => if chance(rng, 0.2) { 0.0 } else { 1350.0 },
                _ => 1e12,
            },
        },
        margin_multiplier: pick(rng, &[2, 2, 2, 3, 5, 1]),
        quote: log_uniform(rng, 0.01, 1e6),
    }
}

pub fn intervals_of(ms: u64) -> Interval {
    Interval(ms)
}
