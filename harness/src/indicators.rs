//! C18 (textbook values) and C19 (range and maturity) of the indicators.
use crate::case::{Case, Spec};
use crate::gen::{self, *};
use juno::{
    indicators::{Adx, MAParams, Macd, Rsi, Stoch, DI, DM, DX, MA},
    Candle,
};
use rand::prelude::*;
use serde_json::{json, Value};

// ---------------------------------------------------------------- textbook definitions, over the whole history

fn sma_at(xs: &[f64], t: usize, p: usize) -> f64 {
    xs[t - p..t].iter().sum::<f64>() / p as f64
}

/// Exponential smoothing of xs with factor a, seeded with its first value, as the weighted sum it is.
fn ema_at(xs: &[f64], a: f64) -> f64 {
    let n = xs.len();
    let mut w = 1.0;
    let mut s = 0.0;
    for i in (1..n).rev() {
        s += a * w * xs[i];
        w *= 1.0 - a;
    }
    s + w * xs[0]
}

/// Smoothing which starts with the average of the first p.
fn seeded_at(xs: &[f64], t: usize, p: usize, a: f64) -> f64 {
    let mut ys = vec![sma_at(xs, p, p)];
    ys.extend(&xs[p..t]);
    ema_at(&ys, a)
}

fn alma_at(xs: &[f64], t: usize, p: usize, offset: f64, sigma: Option<f64>) -> f64 {
    let sigma = sigma.unwrap_or((p as f64 / 1.5).floor());
    let m = (offset * (p as f64 - 1.0)).floor();
    let s = p as f64 / sigma;
    let (mut num, mut den) = (0.0, 0.0);
    for i in 0..p {
        let d = i as f64 - m;
        let w = if s.is_infinite() { 1.0 } else { (-d * d / (2.0 * s * s)).exp() };
        num += w * xs[t - p + i];
        den += w;
    }
    num / den
}

fn kama_all(xs: &[f64], p: usize) -> Vec<f64> {
    let mut out = vec![f64::NAN; xs.len() + 1];
    if xs.len() < p {
        return out;
    }
    let mut v = xs[p - 1];
    for t in p + 1..=xs.len() {
        let price = xs[t - 1];
        let noise: f64 = (t - p..t).map(|i| (xs[i] - xs[i - 1]).abs()).sum();
        let er = if noise == 0.0 { 1.0 } else { (price - xs[t - 1 - p]).abs() / noise };
        let sc = er * (2.0 / 3.0 - 2.0 / 31.0) + 2.0 / 31.0;
        v += sc * sc * (price - v);
        out[t] = v;
    }
    out
}

pub fn ma_maturity(v: &Value) -> usize {
    let p = v["period"].as_u64().unwrap() as usize;
    match v["type"].as_str().unwrap() {
        "Dema" => 2 * p - 1,
        "Kama" | "Smma" => p + 1,
        _ => p,
    }
}

/// Value of the moving average after the first t prices.
fn ma_at(v: &Value, xs: &[f64], t: usize, kama: &[f64]) -> f64 {
    let p = v["period"].as_u64().unwrap() as usize;
    let a = 2.0 / (p as f64 + 1.0);
    match v["type"].as_str().unwrap() {
        "Sma" => sma_at(xs, t, p),
        "Ema" => ema_at(&xs[..t], v["smoothing"].as_f64().unwrap_or(a)),
        "Ema2" => seeded_at(xs, t, p, a),
        "Smma" => seeded_at(xs, t, p, 1.0 / p as f64),
        "Dema" => {
            // The second smoothing starts once the first has seen a period.
            let first: Vec<f64> = if t > 5000 {
                let mut e = ema_at(&xs[..p], a);
                std::iter::once(e).chain(xs[p..t].iter().map(|x| { e += a * (x - e); e })).collect::<Vec<f64>>()
            } else {
                (p..=t).map(|i| ema_at(&xs[..i], a)).collect()
            };
            2.0 * first[t - p] - ema_at(&first, a)
        }
        "Alma" => alma_at(xs, t, p, v["offset"].as_f64().unwrap(), v["sigma"].as_f64()),
        "Kama" => kama[t],
        _ => unreachable!(),
    }
}

/// Directional movements between candle i-1 and i.
fn directional(c: &[Candle], i: usize) -> (f64, f64) {
    let up = c[i].high - c[i - 1].high;
    let down = c[i - 1].low - c[i].low;
    // A tie counts for both (as in Tulip).
    (if up > 0.0 && up >= down { up } else { 0.0 }, if down > 0.0 && down >= up { down } else { 0.0 })
}

fn true_range(c: &[Candle], i: usize) -> f64 {
    let p = c[i - 1].close;
    (c[i].high - c[i].low).max((c[i].high - p).abs()).max((c[i].low - p).abs())
}

/// Wilder's smoothing of f(1)..f(t-1): the plain sum over the first period, then decaying by 1/p.
fn wilder(t: usize, p: usize, f: impl Fn(usize) -> f64) -> f64 {
    let keep = (p as f64 - 1.0) / p as f64;
    (1..t).map(|i| f(i) * if i < p { keep.powi((t - p) as i32) } else { keep.powi((t - 1 - i) as i32) }).sum()
}

// ---------------------------------------------------------------- C18

pub fn workload(rng: &mut StdRng, n: usize) -> Vec<Candle> {
    if chance(rng, 0.08) {
        // Extremes next to each other.
        let mut s = gen::series(rng, n, 0.0).candles;
        let k = rng.gen_range(0..s.len());
        let f = pick(rng, &[1e-6, 1e6]);
        for c in &mut s[k..] {
            c.open *= f;
            c.high *= f;
            c.low *= f;
            c.close *= f;
        }
        return s;
    }
    gen::series(rng, n, 0.0).candles
}

fn moving_average(rng: &mut StdRng, p: u64) -> Value {
    let mut v = gen::ma(rng, p);
    match v["type"].as_str().unwrap() {
        "Ema" if chance(rng, 0.3) => v["smoothing"] = json!(pick(rng, &[0.05, 0.15, 0.5, 1.0, 0.999])),
        "Alma" => {
            if chance(rng, 0.3) {
                v["sigma"] = json!(rng.gen_range(1..12));
            }
            if chance(rng, 0.3) {
                v["offset"] = json!(rng.gen_range(0.01..0.99));
            }
        }
        _ => {}
    }
    v
}

fn period(rng: &mut StdRng, n: usize) -> usize {
    match rng.gen_range(0..5) {
        0 => rng.gen_range(1..4),
        1 => rng.gen_range(1..301.min(n + 5)),
        _ => rng.gen_range(1..30.min(n + 2)),
    }
}

/// Which updates to compare at: all of a short history, and a sample of a long one that includes the first from maturity.
fn points(rng: &mut StdRng, mature: usize, n: usize) -> Vec<usize> {
    if mature > n {
        return vec![];
    }
    if n <= 80 {
        return (mature..=n).collect();
    }
    let mut v: Vec<usize> = (mature..=n.min(mature + 6)).collect();
    v.extend((0..24).map(|_| rng.gen_range(mature..=n)));
    v.push(n);
    v.sort();
    v.dedup();
    v
}

fn near(c: &mut Case, key: &str, got: f64, want: f64, tol: f64, ctx: impl FnOnce() -> String) {
    c.check((got - want).abs() <= tol, key, || format!("{}: is {got:?}, by definition {want:?}", ctx()));
}

pub fn c18() -> ! {
    crate::case::run(
        Spec::new("C18", 18_000, 360_000, "a history on which every indicator became mature and was compared at least once; signature of the shape of history, kind and period")
            .require(&["ma_points", "macd_points", "rsi_points", "stoch_points", "dm_points", "di_points", "dx_points", "adx_points", "long_histories", "very_long_histories"])
            .assume(&["values are compared within 1e-9 of the largest price seen (of 100 for the bounded ones)"]),
        |c| {
            // Longer than a short counter counts.
            let very_long = c.index % 4500 == 70;
            let n = if very_long {
                c.count("very_long_histories", 1);
                c.rng.gen_range(65_700..67_000)
            } else if c.index % 40 == 0 {
                c.count("long_histories", 1);
                c.rng.gen_range(1500..4000)
            } else if c.index % 4 == 0 {
                c.rng.gen_range(80..400)
            } else {
                c.rng.gen_range(2..80)
            };
            let cs = workload(&mut c.rng, n);
            let n = cs.len();
            let xs: Vec<f64> = cs.iter().map(|c| c.close).collect();
            let top = cs.iter().map(|c| c.high).fold(0.0, f64::max);
            let tol = top * 1e-9 * (1.0 + n as f64 / 2000.0);
            let mut kinds = vec![];

            for _ in 0..if very_long { 16 } else { 4 } {
                let p = period(&mut c.rng, n.min(4000)) as u64;
                let v = moving_average(&mut c.rng, p);
                let kama = if v["type"] == "Kama" { kama_all(&xs, p as usize) } else { vec![] };
                let mut m: Box<dyn MA> = serde_json::from_value::<MAParams>(v.clone()).unwrap().construct();
                let pts = points(&mut c.rng, ma_maturity(&v), n);
                let mut k = 0;
                for t in 1..=n {
                    m.update(xs[t - 1]);
                    if pts.get(k) == Some(&t) {
                        k += 1;
                        let want = ma_at(&v, &xs, t, &kama);
                        near(c, &format!("ma-{}", v["type"].as_str().unwrap()), m.value(), want, tol, || format!("{v} after {t} prices"));
                    }
                }
                c.count("ma_points", k as u64);
                kinds.push((v["type"].as_str().unwrap().to_string(), k > 0));
            }

            // MACD.
            let (s, l) = if chance(&mut c.rng, 0.25) {
                (12, 26)
            } else {
                let s = period(&mut c.rng, n.min(4000) / 2 + 2);
                (s, s + c.rng.gen_range(0..10))
            };
            let sp = c.rng.gen_range(1..12usize);
            let (a, b) = if (s, l) == (12, 26) { (0.15, 0.075) } else { (2.0 / (s as f64 + 1.0), 2.0 / (l as f64 + 1.0)) };
            let mut m = Macd::new(s as u32, l as u32, sp as u32);
            let mut pts = points(&mut c.rng, l + sp - 1, n);
            if very_long {
                pts.retain(|t| *t < 1000 || *t == n);
            }
            let mut k = 0;
            for t in 1..=n {
                m.update(xs[t - 1]);
                if pts.get(k) == Some(&t) {
                    k += 1;
                    let line: Vec<f64> = if t > 600 {
                        // Older than that have no weight left.
                        let f = (t - 500).max(l);
                        (f..=t).map(|i| ema_at(&xs[..i], a) - ema_at(&xs[..i], b)).collect()
                    } else {
                        (l..=t).map(|i| ema_at(&xs[..i], a) - ema_at(&xs[..i], b)).collect()
                    };
                    let value = *line.last().unwrap();
                    let signal = ema_at(&line, 2.0 / (sp as f64 + 1.0));
                    let ctx = |w: &str| format!("{w} of MACD {s}/{l}/{sp} after {t} prices");
                    near(c, "macd-value", m.value, value, tol, || ctx("value"));
                    near(c, "macd-signal", m.signal, signal, tol, || ctx("signal"));
                    near(c, "macd-histogram", m.histogram, value - signal, tol, || ctx("histogram"));
                }
            }
            c.count("macd_points", k as u64);

            // RSI.
            let p = period(&mut c.rng, n.min(4000));
            let mut r = Rsi::new(p as u32);
            let pts = points(&mut c.rng, p + 1, n);
            let ups: Vec<f64> = xs.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect();
            let downs: Vec<f64> = xs.windows(2).map(|w| (w[0] - w[1]).max(0.0)).collect();
            let mut k = 0;
            for t in 1..=n {
                r.update(xs[t - 1]);
                if pts.get(k) == Some(&t) {
                    k += 1;
                    let (u, d) = (seeded_at(&ups, t - 1, p, 1.0 / p as f64), seeded_at(&downs, t - 1, p, 1.0 / p as f64));
                    // Nothing but rounding noise (or less) left of the movements.
                    if u + d < 1e-290 && ups[..t - 1].iter().chain(&downs[..t - 1]).any(|m| *m > 0.0) {
                        continue;
                    }
                    let want = if u + d == 0.0 { 0.0 } else { 100.0 * u / (u + d) };
                    near(c, "rsi", r.value, want, 1e-6, || format!("RSI {p} after {t} prices"));
                }
            }
            c.count("rsi_points", k as u64);

            // Stochastic.
            let (kp, ks, ds) = (period(&mut c.rng, n.min(4000)), c.rng.gen_range(1..8usize), c.rng.gen_range(1..8usize));
            let mut st = Stoch::new(kp as u32, ks as u32, ds as u32);
            let pts = points(&mut c.rng, kp + ks + ds - 2, n);
            let fast = |t: usize| {
                let w = &cs[t - kp..t];
                let hi = w.iter().map(|c| c.high).fold(f64::MIN, f64::max);
                let lo = w.iter().map(|c| c.low).fold(f64::MAX, f64::min);
                if hi == lo {
                    0.0
                } else {
                    100.0 * (cs[t - 1].close - lo) / (hi - lo)
                }
            };
            let slow = |t: usize| (t + 1 - ks..=t).map(fast).sum::<f64>() / ks as f64;
            let mut k = 0;
            for t in 1..=n {
                st.update(cs[t - 1].high, cs[t - 1].low, cs[t - 1].close);
                if pts.get(k) == Some(&t) {
                    k += 1;
                    let d = (t + 1 - ds..=t).map(slow).sum::<f64>() / ds as f64;
                    near(c, "stoch-k", st.k, slow(t), 1e-7, || format!("k of stochastic {kp}/{ks}/{ds} after {t} candles"));
                    near(c, "stoch-d", st.d, d, 1e-7, || format!("d of stochastic {kp}/{ks}/{ds} after {t} candles"));
                }
            }
            c.count("stoch_points", k as u64);

            // Directional movement.
            let p = period(&mut c.rng, n.min(4000));
            let (mut dm, mut di, mut dx, mut adx) = (DM::new(p as u32), DI::new(p as u32), DX::new(p as u32), Adx::new(p as u32));
            let pts = points(&mut c.rng, p, n);
            let pts_adx: Vec<usize> = points(&mut c.rng, 2 * p, n.min(300)).into_iter().step_by(3).collect();
            let at = |t: usize| (wilder(t, p, |i| directional(&cs, i).0), wilder(t, p, |i| directional(&cs, i).1));
            let dx_at = |t: usize| {
                let (u, d) = at(t);
                if u + d == 0.0 {
                    0.0
                } else {
                    100.0 * (u - d).abs() / (u + d)
                }
            };
            let (mut k, mut ka) = (0, 0);
            // Whether there has been any movement at all: its weight may have vanished.
            let (mut moved, mut ranged) = (false, false);
            for t in 1..=n {
                let x = &cs[t - 1];
                if t > 1 {
                    moved |= directional(&cs, t - 1) != (0.0, 0.0);
                    ranged |= true_range(&cs, t - 1) != 0.0;
                }
                dm.update(x.high, x.low);
                di.update(x.high, x.low, x.close);
                dx.update(x.high, x.low);
                adx.update(x.high, x.low);
                if pts.get(k) == Some(&t) {
                    k += 1;
                    let (u, d) = at(t);
                    let tr = wilder(t, p, |i| true_range(&cs, i));
                    let ctx = |w: &str| format!("{w} {p} after {t} candles");
                    near(c, "dm-plus", dm.plus_value, u, tol * p as f64, || ctx("+DM"));
                    near(c, "dm-minus", dm.minus_value, d, tol * p as f64, || ctx("-DM"));
                    if !ranged || tr > 1e-290 {
                        let f = |v: f64| if tr == 0.0 { 0.0 } else { 100.0 * v / tr };
                        near(c, "di-plus", di.plus_value, f(u), 1e-6, || ctx("+DI"));
                        near(c, "di-minus", di.minus_value, f(d), 1e-6, || ctx("-DI"));
                    }
                    if !moved || u + d > 1e-290 {
                        near(c, "dx", dx.value, dx_at(t), 1e-6, || ctx("DX"));
                    }
                }
                if pts_adx.get(ka) == Some(&t) {
                    ka += 1;
                    let all: Vec<f64> = (p..=t).map(dx_at).collect();
                    // Vanishing movements decide nothing.
                    let (u, d) = at(t);
                    if moved && u + d < 1e-290 {
                        continue;
                    }
                    let want = seeded_at(&all, all.len(), p, 1.0 / p as f64);
                    near(c, "adx", adx.value, want, 1e-6, || format!("ADX {p} after {t} candles"));
                }
            }
            c.count("dm_points", k as u64);
            c.count("di_points", k as u64);
            c.count("dx_points", k as u64);
            c.count("adx_points", ka as u64);
            if k > 0 {
                let sig = (kinds.clone(), p, kp, n / 50, xs[n - 1].to_bits());
                c.nontrivial(&sig);
            }
            c.sample(|| json!({"prices": n, "first": xs[0], "last": xs[n - 1], "moving averages": kinds}));
        },
    )
}

// ---------------------------------------------------------------- C19

struct Watched {
    what: String,
    bounded: bool,
    /// Not mature before, mature from here on.
    maturity: u32,
}

pub fn c19() -> ! {
    crate::case::run(
        Spec::new("C19", 240_000, 4_800_000, "a history over which every kind of indicator was watched at every update; signature of periods and last price")
            .require(&["updates", "matured", "flat_stretches", "long_histories"])
            .assume(&["bounds are checked within 1e-9 of the largest price seen (of 100 for the bounded indicators)"]),
        |c| {
            let long = chance(&mut c.rng, 0.002);
            let n = if long { c.rng.gen_range(500..4000) } else { c.rng.gen_range(1..160) };
            c.count("long_histories", long as u64);
            let mut cs = workload(&mut c.rng, n);
            let n = cs.len();
            // Flat stretches of all fields, in the beginning, in between and at the end.
            if chance(&mut c.rng, 0.6) {
                for _ in 0..c.rng.gen_range(1..3) {
                    let a = if chance(&mut c.rng, 0.4) { 0 } else { c.rng.gen_range(0..n) };
                    let b = (a + c.rng.gen_range(1..60)).min(n);
                    let p = cs[a].close;
                    for x in &mut cs[a..b] {
                        x.open = p;
                        x.high = p;
                        x.low = p;
                        x.close = p;
                    }
                    c.count("flat_stretches", 1);
                }
            }
            let zero_ok = chance(&mut c.rng, 0.02);
            if zero_ok {
                for x in &mut cs {
                    x.open = 0.0;
                    x.high = 0.0;
                    x.low = 0.0;
                    x.close = 0.0;
                }
            }
            let top = cs.iter().map(|c| c.high).fold(0.0, f64::max);
            let tol = top * 1e-9;
            let pm = if chance(&mut c.rng, 0.7) { 12 } else { 60 };
            let mas: Vec<Value> = ["Alma", "Dema", "Ema", "Ema2", "Kama", "Sma", "Smma"]
                .iter()
                .map(|k| {
                    let p = c.rng.gen_range(1..=pm);
                    let mut v = json!({"type": k, "period": p});
                    if *k == "Alma" {
                        v["offset"] = json!(if chance(&mut c.rng, 0.5) { 0.85 } else { c.rng.gen_range(0.01..0.99) });
                        v["sigma"] = if chance(&mut c.rng, 0.5) { Value::Null } else { json!(c.rng.gen_range(1..9)) };
                    }
                    v
                })
                .collect();
            let mut objs: Vec<Box<dyn MA>> = mas.iter().map(|v| serde_json::from_value::<MAParams>(v.clone()).unwrap().construct()).collect();
            let ps: Vec<u32> = (0..9).map(|_| c.rng.gen_range(1..=pm as u32)).collect();
            let mut rsi = Rsi::new(ps[0]);
            let mut stoch = Stoch::new(ps[1], 1 + ps[2] / 2, 1 + ps[3] / 2);
            let (mut dm, mut di, mut dx, mut adx) = (DM::new(ps[4]), DI::new(ps[5]), DX::new(ps[6]), Adx::new(ps[7]));
            let mut macd = Macd::new(ps[8], ps[8] + ps[0] % 7, 1 + ps[1] % 9);
            let declared: Vec<Watched> = mas
                .iter()
                .zip(&objs)
                .map(|(v, o)| Watched { what: v.to_string(), bounded: false, maturity: o.maturity() })
                .chain([
                    Watched { what: format!("RSI {}", ps[0]), bounded: true, maturity: rsi.maturity() },
                    Watched { what: format!("stochastic {}/{}/{}", ps[1], 1 + ps[2] / 2, 1 + ps[3] / 2), bounded: true, maturity: stoch.maturity() },
                    Watched { what: format!("DM {}", ps[4]), bounded: false, maturity: dm.maturity() },
                    Watched { what: format!("DI {}", ps[5]), bounded: true, maturity: di.maturity() },
                    Watched { what: format!("DX {}", ps[6]), bounded: true, maturity: dx.maturity() },
                    Watched { what: format!("ADX {}", ps[7]), bounded: true, maturity: adx.maturity() },
                    Watched { what: format!("MACD {}", ps[8]), bounded: false, maturity: macd.maturity() },
                ])
                .collect();
            for w in &declared {
                c.check(w.maturity >= 1, "maturity-zero", || format!("{} declares a maturity of 0", w.what));
            }
            let (mut lo, mut hi) = (f64::MAX, f64::MIN);
            let mut flat_so_far = true;
            let mut matured = 0;
            for (i, x) in cs.iter().enumerate() {
                let t = i as u32 + 1;
                for o in &mut objs {
                    o.update(x.close);
                }
                rsi.update(x.close);
                stoch.update(x.high, x.low, x.close);
                dm.update(x.high, x.low);
                di.update(x.high, x.low, x.close);
                dx.update(x.high, x.low);
                adx.update(x.high, x.low);
                macd.update(x.close);
                lo = lo.min(x.close);
                hi = hi.max(x.close);
                flat_so_far &= x.close == cs[0].close;
                let now: Vec<(bool, Vec<f64>)> = objs
                    .iter()
                    .map(|o| (o.mature(), vec![o.value()]))
                    .chain([
                        (rsi.mature(), vec![rsi.value]),
                        (stoch.mature(), vec![stoch.k, stoch.d]),
                        (dm.mature(), vec![dm.plus_value, dm.minus_value, dm.diff(), dm.sum()]),
                        (di.mature(), vec![di.plus_value, di.minus_value]),
                        (dx.mature(), vec![dx.value]),
                        (adx.mature(), vec![adx.value]),
                        (macd.mature(), vec![macd.value, macd.signal, macd.histogram]),
                    ])
                    .collect();
                for (j, (mature, vals)) in now.iter().enumerate() {
                    let w = &declared[j];
                    let kind = if j < 7 { mas[j]["type"].as_str().unwrap() } else { w.what.split(' ').next().unwrap() }.to_string();
                    c.check(*mature == (t >= w.maturity), &format!("maturity-{kind}"), || {
                        format!("{} declares maturity {} and is {} after {t} updates", w.what, w.maturity, if *mature { "mature" } else { "not mature" })
                    });
                    if t == w.maturity {
                        matured += 1;
                    }
                    c.check(vals.iter().all(|v| v.is_finite()), &format!("finite-{kind}"), || format!("{} is {vals:?} after {t} updates", w.what));
                    if !mature {
                        continue;
                    }
                    if w.bounded {
                        c.check(vals.iter().all(|v| (-1e-7..=100.0 + 1e-7).contains(v)), &format!("range-{kind}"), || format!("{} is {vals:?} after {t} updates", w.what));
                    } else if j < 7 {
                        if kind != "Dema" {
                            c.check(vals[0] >= lo - tol && vals[0] <= hi + tol, &format!("range-{kind}"), || {
                                format!("{} is {:?} after {t} prices between {lo} and {hi}", w.what, vals[0])
                            });
                        }
                        if flat_so_far {
                            c.check((vals[0] - x.close).abs() <= x.close * 1e-9, &format!("flat-{kind}"), || format!("{} is {:?} after {t} prices of {}", w.what, vals[0], x.close));
                        }
                    } else if kind == "DM" {
                        c.check(vals.iter().all(|v| *v >= 0.0), "range-DM", || format!("{} is {vals:?} after {t} updates", w.what));
                    } else if kind == "MACD" && flat_so_far {
                        c.check(vals.iter().all(|v| v.abs() <= x.close * 1e-9), "flat-MACD", || format!("{} is {vals:?} after {t} prices of {}", w.what, x.close));
                    }
                }
            }
            c.count("updates", n as u64 * declared.len() as u64);
            c.count("matured", matured);
            if matured > 0 {
                let sig = (ps.clone(), cs[n - 1].close.to_bits());
                c.nontrivial(&sig);
            }
            c.sample(|| json!({"candles": n, "periods": ps, "moving averages": mas}));
        },
    )
}
