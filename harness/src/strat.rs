//! C20 (rules of strategies), C21 (advice filters) and C22 (candle buffering).
use crate::case::{guard, Case, Spec};
use crate::gen::{self, *};
use crate::indicators::ma_maturity;
use juno::{
    indicators::{self, MAParams, MA},
    strategies::{OscillatorParams, Signal, SignalParams, Strategy, StrategyMeta, StrategyParams},
    utils::{combine, BufferedCandle, Changed, MidTrend, MidTrendPolicy, Persistence},
    Advice, Candle, Interval, Timestamp,
};
use rand::prelude::*;
use serde_json::{json, Value};

pub const ADVICE: [Advice; 4] = [Advice::None, Advice::Long, Advice::Short, Advice::Liquidate];

// ---------------------------------------------------------------- reference rules

fn num(v: &Value, k: &str) -> f64 {
    v[k].as_f64().unwrap()
}
fn int(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap() as usize
}

/// Values of a moving average after every update; None until mature.
fn ma_series(v: &Value, xs: &[f64]) -> Vec<Option<f64>> {
    let mut m: Box<dyn MA> = serde_json::from_value::<MAParams>(v.clone()).unwrap().construct();
    let mat = ma_maturity(v);
    xs.iter()
        .enumerate()
        .map(|(i, x)| {
            m.update(*x);
            (i + 1 >= mat).then(|| m.value())
        })
        .collect()
}

struct OscSeries {
    overbought: Vec<bool>,
    oversold: Vec<bool>,
    /// None until mature.
    value: Vec<Option<f64>>,
}

fn osc_series(kind: &str, v: &Value, cs: &[Candle]) -> OscSeries {
    let value: Vec<Option<f64>> = if kind == "Rsi" {
        let p = int(v, "period");
        let mut r = indicators::Rsi::new(p as u32);
        cs.iter()
            .enumerate()
            .map(|(i, c)| {
                r.update(c.close);
                (i + 1 >= p + 1).then_some(r.value)
            })
            .collect()
    } else {
        let (k, s, d) = (int(v, "k_period"), int(v, "k_sma_period"), int(v, "d_sma_period"));
        let mut st = indicators::Stoch::new(k as u32, s as u32, d as u32);
        cs.iter()
            .enumerate()
            .map(|(i, c)| {
                st.update(c.high, c.low, c.close);
                (i + 1 >= k + s + d - 2).then_some(st.k)
            })
            .collect()
    };
    let (up, down) = (num(v, "up_threshold"), num(v, "down_threshold"));
    OscSeries {
        overbought: value.iter().map(|v| v.map_or(false, |v| v >= up)).collect(),
        oversold: value.iter().map(|v| v.map_or(false, |v| v < down)).collect(),
        value,
    }
}

fn double_ma(v: &Value, xs: &[f64]) -> Vec<Option<Advice>> {
    let (s, l) = (ma_series(&v["mas"][0], xs), ma_series(&v["mas"][1], xs));
    let mut a = Advice::None;
    (0..xs.len())
        .map(|i| {
            let (s, l) = (s[i]?, l[i]?);
            // A tie keeps the advice.
            if s > l {
                a = Advice::Long
            }
            if s < l {
                a = Advice::Short
            }
            Some(a)
        })
        .collect()
}

/// Advice after every candle by the rules of the strategy; None (of Option) until everything it combines is mature.
pub fn reference(v: &Value, cs: &[Candle]) -> Vec<Option<Advice>> {
    let xs: Vec<f64> = cs.iter().map(|c| c.close).collect();
    let n = xs.len();
    let mut a = Advice::None;
    match v["type"].as_str().unwrap() {
        "DoubleMA" => double_ma(v, &xs),
        "DoubleMA2" => {
            let (s, l) = (ma_series(&v["mas"][0], &xs), ma_series(&v["mas"][1], &xs));
            (0..n)
                .map(|i| {
                    let (s, l) = (s[i]?, l[i]?);
                    let percent = 100.0 * (s - l) / ((s + l) / 2.0);
                    if percent > num(v, "pos_threshold") {
                        a = Advice::Long
                    }
                    if percent < num(v, "neg_threshold") {
                        a = Advice::Short
                    }
                    Some(a)
                })
                .collect()
        }
        "DoubleMAStoch" => {
            let m = double_ma(&v["double_ma"], &xs);
            let st = osc_series("Stoch", &v["stoch"], cs);
            (0..n)
                .map(|i| {
                    let (m, k) = (m[i]?, st.value[i]?);
                    let exit = match a {
                        Advice::Long => m == Advice::Short || st.overbought[i],
                        Advice::Short => m == Advice::Long || st.oversold[i],
                        _ => false,
                    };
                    if exit {
                        a = Advice::Liquidate
                    }
                    if a == Advice::None || a == Advice::Liquidate {
                        if m == Advice::Long && k < 50.0 {
                            a = Advice::Long
                        } else if m == Advice::Short && k >= 50.0 {
                            a = Advice::Short
                        }
                    }
                    Some(a)
                })
                .collect()
        }
        "FourWeekRule" => {
            let p = int(v, "period");
            let m = ma_series(&v["ma"], &xs);
            (0..n)
                .map(|i| {
                    let m = m[i]?;
                    if i < p {
                        return None;
                    }
                    let w = &xs[i - p..i];
                    let x = xs[i];
                    if w.iter().all(|y| x >= *y) {
                        a = Advice::Long
                    } else if w.iter().all(|y| x <= *y) {
                        a = Advice::Short
                    } else if a == Advice::Long && x <= m || a == Advice::Short && x >= m {
                        a = Advice::Liquidate
                    }
                    Some(a)
                })
                .collect()
        }
        "Macd" => {
            let (s, l, g) = (int(&v["periods"], "0"), int(&v["periods"], "1"), int(v, "signal_period"));
            let mut m = indicators::Macd::new(s as u32, l as u32, g as u32);
            xs.iter()
                .enumerate()
                .map(|(i, x)| {
                    m.update(*x);
                    if i + 1 < s.max(l) + g - 1 {
                        return None;
                    }
                    Some(if m.value > m.signal { Advice::Long } else { Advice::Short })
                })
                .collect()
        }
        "SingleMA" => {
            let m = ma_series(&v["ma"], &xs);
            (0..n)
                .map(|i| {
                    if i == 0 {
                        return None;
                    }
                    let (prev, now) = (m[i - 1]?, m[i]?);
                    if xs[i] > now && now > prev {
                        a = Advice::Long
                    } else if xs[i] < now && now < prev {
                        a = Advice::Short
                    }
                    Some(a)
                })
                .collect()
        }
        "TripleMA" => {
            let (s, m, l) = (ma_series(&v["mas"][0], &xs), ma_series(&v["mas"][1], &xs), ma_series(&v["mas"][2], &xs));
            (0..n)
                .map(|i| {
                    let (s, m, l) = (s[i]?, m[i]?, l[i]?);
                    if s > m && m > l {
                        a = Advice::Long
                    } else if s < m && m < l {
                        a = Advice::Short
                    } else if a == Advice::Short && s > m && s > l || a == Advice::Long && s < m && s < l {
                        a = Advice::Liquidate
                    }
                    Some(a)
                })
                .collect()
        }
        _ => unreachable!(),
    }
}

fn workload(rng: &mut StdRng, n: usize) -> Vec<Candle> {
    gen::series(rng, n, 0.0).candles
}

pub fn c20() -> ! {
    crate::case::run(
        Spec::new("C20", 900_000, 18_000_000, "a history on which the strategy became mature and gave at least two different advices (or an oscillator crossed a threshold); signature of the strategy and its advice sequence")
            .require(&["Long", "Short", "Liquidate", "immature_checks", "oscillator_checks", "overbought", "oversold", "DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA", "long_histories"])
            .assume(&["the values of indicators are those of the code under test; C18 decides them", "prices are positive"]),
        |c| {
            let long = chance(&mut c.rng, 0.001);
            let n = if long { c.rng.gen_range(300..1500) } else { c.rng.gen_range(1..140) };
            c.count("long_histories", long as u64);
            let cs = workload(&mut c.rng, n);
            let n = cs.len();
            let pmax = pick(&mut c.rng, &[3, 4, 6, 12, 30]);
            let mut v = gen::signal(&mut c.rng, pmax);
            let kind = v["type"].as_str().unwrap().to_string();
            if kind == "Macd" && chance(&mut c.rng, 0.1) {
                v["periods"][1] = v["periods"][0].clone();
            }
            // Periods as objects for the reference.
            let mut rv = v.clone();
            if kind == "Macd" {
                rv["periods"] = json!({"0": v["periods"][0], "1": v["periods"][1]});
            }
            let want = reference(&rv, &cs);
            let meta = StrategyMeta { interval: Interval(HOUR) };
            // Both ways to construct it.
            let mut s: Box<dyn Signal> = if chance(&mut c.rng, 0.5) {
                serde_json::from_value::<StrategyParams>(v.clone()).unwrap().construct(&meta)
            } else {
                serde_json::from_value::<SignalParams>(v.clone()).unwrap().construct(&meta)
            };
            c.count(&kind, 1);
            let declared = s.maturity();
            let mut seq = String::new();
            for i in 0..n {
                s.update(&cs[i]);
                let got = s.advice();
                match want[i] {
                    None => {
                        c.count("immature_checks", 1);
                        c.check(got == Advice::None, &format!("immature-{kind}"), || format!("{v} advises {got:?} after {} candles, before its indicators are mature", i + 1));
                        c.check(!s.mature(), &format!("claims-mature-{kind}"), || format!("{v} claims to be mature after {} candles, before its indicators are", i + 1));
                    }
                    Some(w) => {
                        c.check(got == w, &format!("rule-{kind}"), || {
                            format!("{v} advises {got:?} after {} candles, by its rule {w:?}; last closes {:?}", i + 1, cs[i.saturating_sub(4)..=i].iter().map(|c| c.close).collect::<Vec<_>>())
                        });
                        c.check(s.mature(), &format!("not-mature-{kind}"), || format!("{v} is not mature after {} candles, but its indicators are", i + 1));
                        c.count(&format!("{w:?}"), 1);
                    }
                }
                c.check(s.mature() == (i as u32 + 1 >= declared), &format!("maturity-{kind}"), || format!("{v} declares maturity {declared} but mature is {} after {} candles", s.mature(), i + 1));
                seq.push_str(&format!("{:?}", got)[..2]);
                if c.fails.len() > 3 {
                    return;
                }
            }
            let mut distinct: Vec<char> = seq.chars().collect();
            distinct.sort();
            distinct.dedup();

            // Oscillators.
            let ov = gen::oscillator(&mut c.rng, pmax);
            let ok = ov["type"].as_str().unwrap().to_string();
            let mut o = serde_json::from_value::<OscillatorParams>(ov.clone()).unwrap().construct(&meta);
            let want = osc_series(&ok, &ov, &cs);
            let (mut nb, mut ns) = (0, 0);
            for i in 0..n {
                o.update(&cs[i]);
                c.check(o.overbought() == want.overbought[i] && o.oversold() == want.oversold[i], &format!("state-{ok}"), || {
                    format!("{ov} at {:?} is overbought: {}, oversold: {} after {} candles", want.value[i], o.overbought(), o.oversold(), i + 1)
                });
                c.check(o.mature() == want.value[i].is_some() && o.mature() == (i as u32 + 1 >= o.maturity()), &format!("maturity-{ok}"), || {
                    format!("{ov} with maturity {} is mature: {} after {} candles", o.maturity(), o.mature(), i + 1)
                });
                nb += o.overbought() as u64;
                ns += o.oversold() as u64;
            }
            c.count("oscillator_checks", n as u64);
            c.count("overbought", nb);
            c.count("oversold", ns);
            if distinct.len() > 3 || nb + ns > 0 {
                c.nontrivial(&(kind.clone(), seq.clone(), ok));
            }
            c.sample(|| json!({"strategy": v, "candles": n, "advice": seq, "oscillator": ov}));
        },
    )
}

// ---------------------------------------------------------------- C21

fn persisted(h: &[Advice], level: usize) -> Advice {
    // Unchanged for the last level updates.
    let i = h.len() - 1;
    if i >= level && h[i - level..].iter().all(|a| *a == h[i]) {
        h[i]
    } else {
        Advice::None
    }
}

fn mid_trended(h: &[Advice], ignore: bool) -> Advice {
    if !ignore || h.iter().any(|a| *a != h[0]) {
        *h.last().unwrap()
    } else {
        Advice::None
    }
}

fn combined(a: Advice, b: Advice) -> Advice {
    match (a, b) {
        (Advice::None, _) | (_, Advice::None) => Advice::None,
        _ if a == b => a,
        _ => Advice::Liquidate,
    }
}

fn advice_seq(rng: &mut StdRng, n: usize) -> Vec<Advice> {
    let sticky = rng.gen_range(0.0..0.95);
    let mut a = pick(rng, &ADVICE);
    (0..n)
        .map(|_| {
            if !chance(rng, sticky) {
                a = pick(rng, &ADVICE);
            }
            a
        })
        .collect()
}

/// The filters over sequences with long stretches of the same advice: longer than a short counter counts.
fn long_sequences(c: &mut Case) {
    let mut h: Vec<Advice> = vec![];
    while h.len() < 70_000 {
        let k = pick(&mut c.rng, &[1, 2, 5, 254, 255, 256, 257, 300, 1000, 65_534, 65_535, 65_536, 65_600]);
        let a = pick(&mut c.rng, &ADVICE);
        h.extend(std::iter::repeat(a).take(k));
    }
    let level = pick(&mut c.rng, &[1usize, 3, 254, 255, 256, 300, 1000]);
    let mut ch = Changed::new(true);
    let mut p = Persistence::new(level as u32, false);
    let mut m = [MidTrend::new(MidTrendPolicy::Ignore), MidTrend::new(MidTrendPolicy::Current)];
    let (mut last, mut age) = (Advice::None, 0);
    // Since when it is the same.
    let mut since = 0;
    for i in 0..h.len() {
        let a = h[i];
        if i > 0 && h[i - 1] != a {
            since = i;
        }
        let got = ch.update(a);
        let pass = a != Advice::None && a != last;
        if pass {
            last = a;
            age = 1;
        } else {
            age += 1;
        }
        let what = || format!("after {} advices, the last {} of which are {a:?}", i + 1, i - since + 1);
        c.check(got == if pass { a } else { Advice::None }, "changed", || format!("changed filter gives {got:?} {}", what()));
        c.check(ch.prevailing_advice() == last && ch.prevailing_advice_age() == age, "changed-prevailing", || {
            format!("prevailing advice is {:?} aged {} (not {age}) {}", ch.prevailing_advice(), ch.prevailing_advice_age(), what())
        });
        let got = p.update(a);
        let want = if i - since >= level { a } else { Advice::None };
        c.check(got == want, "persistence", || format!("persistence {level} gives {got:?} {}, expected {want:?}", what()));
        let got = [m[0].update(a), m[1].update(a)];
        if i % 7001 == 0 || i + 1 == h.len() {
            for (got, ignore) in got.into_iter().zip([true, false]) {
                let want = mid_trended(&h[..=i], ignore);
                c.check(got == want, "mid-trend", || format!("mid trend (ignoring: {ignore}) gives {got:?} {}, expected {want:?}", what()));
            }
        }
        if c.fails.len() > 3 {
            return;
        }
    }
    c.count("long_sequences", 1);
}

pub fn c21() -> ! {
    crate::case::run(
        Spec::new("C21", 900_000, 18_000_000, "an advice sequence (or a strategy with filters and a history) with at least two different advices; signature of the sequence, level and policy")
            .require(&["changed_passed", "persisted", "mid_trend_passed", "combined", "sig_checks", "sig_osc_checks", "sig_nontrivial", "sig_osc_nontrivial", "buffered_sig_checks", "long_sequences", "long_filtered"])
            .assume(&["the advice and maturity of the underlying signal and oscillator are those of the code under test; C20 decides them"]),
        |c| {
            if c.index % 30_000 == 11 {
                long_sequences(c);
            }
            let n = c.rng.gen_range(1..60);
            let h = advice_seq(&mut c.rng, n);

            // Changed.
            let mut ch = Changed::new(true);
            let mut off = Changed::new(false);
            let (mut last, mut age) = (Advice::None, 0);
            for (i, a) in h.iter().enumerate() {
                let got = ch.update(*a);
                let pass = *a != Advice::None && *a != last;
                if pass {
                    last = *a;
                    age = 1;
                    c.count("changed_passed", 1);
                } else {
                    age += 1;
                }
                c.check(got == if pass { *a } else { Advice::None }, "changed", || format!("changed filter gives {got:?} after {:?}", &h[..=i]));
                c.check(ch.prevailing_advice() == last && ch.prevailing_advice_age() == age, "changed-prevailing", || {
                    format!("prevailing advice is {:?} aged {} after {:?}", ch.prevailing_advice(), ch.prevailing_advice_age(), &h[..=i])
                });
                c.check(off.update(*a) == *a, "changed-disabled", || format!("disabled changed filter withholds {a:?}"));
            }

            // Persistence.
            let level = c.rng.gen_range(0..6usize);
            let mut p = Persistence::new(level as u32, false);
            let mut pr = Persistence::new(level as u32, true);
            let mut prev = Advice::None;
            for i in 0..n {
                let got = p.update(h[i]);
                let want = persisted(&h[..=i], level);
                c.check(got == want, "persistence", || format!("persistence {level} gives {got:?} after {:?}, expected {want:?}", &h[..=i]));
                if want != Advice::None {
                    c.count("persisted", 1);
                }
                let kept = i >= level && h[i - level..=i].iter().all(|a| *a == h[i]);
                if kept {
                    prev = h[i];
                }
                let got = pr.update(h[i]);
                let want = if level == 0 { h[i] } else { prev };
                // In the beginning none is not told from not having persisted yet; it's none in either case.
                c.check(got == want, "persistence-previous", || format!("persistence {level} returning the previous gives {got:?} after {:?}, expected {want:?}", &h[..=i]));
            }
            c.check(p.maturity() == level as u32 + 1, "persistence-maturity", || format!("maturity of level {level} is {}", p.maturity()));

            // Mid trend.
            let policy = gen::policy(&mut c.rng);
            let mp: MidTrendPolicy = serde_json::from_value(json!(policy)).unwrap();
            let mut m = MidTrend::new(mp);
            for i in 0..n {
                let got = m.update(h[i]);
                let want = mid_trended(&h[..=i], policy == "Ignore");
                c.check(got == want, "mid-trend", || format!("mid trend {policy} gives {got:?} after {:?}, expected {want:?}", &h[..=i]));
                if want != Advice::None && policy == "Ignore" {
                    c.count("mid_trend_passed", 1);
                }
            }

            // Combination.
            for a in ADVICE {
                for b in ADVICE {
                    let got = combine(a, b);
                    c.check(got == combined(a, b), "combine", || format!("combining {a:?} and {b:?} gives {got:?}"));
                    c.count("combined", 1);
                }
            }

            // Filtered signals.
            let interval = pick(&mut c.rng, &[HOUR, 4 * HOUR, DAY]);
            let shape = pick(&mut c.rng, &SHAPES);
            let start = gen::start_time(&mut c.rng, interval);
            let long = chance(&mut c.rng, 0.001);
            let n = if long { c.rng.gen_range(300..1200) } else { c.rng.gen_range(5..150) };
            c.count("long_filtered", long as u64);
            let cs = gen::series_with(&mut c.rng, n, interval, shape, start, 0.0).candles;
            let pmax = pick(&mut c.rng, &[3, 5, 8]);
            let sig = gen::signal(&mut c.rng, pmax);
            let osc = gen::oscillator(&mut c.rng, pmax);
            let with_osc = chance(&mut c.rng, 0.5);
            let enforce = chance(&mut c.rng, 0.5);
            let buffer = !with_osc && chance(&mut c.rng, 0.35);
            let buffer_interval = if buffer { Some(interval * pick(&mut c.rng, &[1, 2, 3, 6])) } else { None };
            let v = if with_osc {
                json!({"type": "SigOsc", "sig": sig, "osc": osc, "osc_filter": if enforce { "Enforce" } else { "Prevent" }, "persistence": level, "mid_trend_policy": policy})
            } else {
                json!({"type": "Sig", "sig": sig, "persistence": level, "mid_trend_policy": policy, "buffer_interval": buffer_interval})
            };
            let meta = StrategyMeta { interval: Interval(interval) };
            let mut s = serde_json::from_value::<StrategyParams>(v.clone()).unwrap().construct(&meta);
            let mut inner = serde_json::from_value::<SignalParams>(sig.clone()).unwrap().construct(&meta);
            let mut o = serde_json::from_value::<OscillatorParams>(osc.clone()).unwrap().construct(&meta);
            let mut hist: Vec<Advice> = vec![];
            let mut want = Advice::None;
            let mut acc = buffer_interval.map(|b| Bucketing::new(interval, b));
            // The first possible advice: the filters hold back at least so many.
            let both = if with_osc { inner.maturity().max(o.maturity()) } else { inner.maturity() };
            let held = |mid: u32| both + mid.max(level as u32 + 1) - 1;
            let declared = s.maturity();
            let right = match policy {
                "Current" => declared == held(1),
                "Ignore" => declared == held(2),
                _ => declared == held(1) || declared == held(2),
            };
            c.check(right, "sig-maturity", || format!("{v} declares maturity {declared}, but what it filters matures with {both}"));
            let mut fed_candles = 0u32;
            let mut seq = vec![];
            for (i, x) in cs.iter().enumerate() {
                s.update(x);
                let fed = match &mut acc {
                    None => Some(*x),
                    Some(acc) => acc.add(*x).candle(),
                };
                if let Some(x) = fed {
                    fed_candles += 1;
                    inner.update(&x);
                    o.update(&x);
                    if inner.mature() && (!with_osc || o.mature()) {
                        let mut a = inner.advice();
                        if with_osc {
                            let blocked = match a {
                                Advice::Long => if enforce { !o.oversold() } else { o.overbought() },
                                Advice::Short => if enforce { !o.overbought() } else { o.oversold() },
                                _ => false,
                            };
                            if blocked {
                                a = Advice::Liquidate;
                            }
                        }
                        hist.push(a);
                        want = combined(mid_trended(&hist, policy == "Ignore"), persisted(&hist, level));
                    }
                }
                let got = s.advice();
                c.check(got == want, if with_osc { "sig-osc" } else { "sig" }, || {
                    format!("{v} on candles of {interval} advises {got:?} after {} candles, expected {want:?} for the underlying advice {:?}", i + 1, &hist[hist.len().saturating_sub(8)..])
                });
                c.check(s.mature() == (fed_candles >= declared), "sig-mature", || format!("{v} declares maturity {declared} but mature is {} after {fed_candles} candles", s.mature()));
                c.check(got == Advice::None || fed_candles >= declared || policy == "Previous", "sig-early", || format!("{v} declares maturity {declared} but advises {got:?} after {fed_candles} candles"));
                c.count(if with_osc { "sig_osc_checks" } else if buffer { "buffered_sig_checks" } else { "sig_checks" }, 1);
                seq.push(format!("{got:?}"));
                if c.fails.len() > 3 {
                    return;
                }
            }
            let mut d = seq.clone();
            d.sort();
            d.dedup();
            if d.len() > 2 {
                c.count(if with_osc { "sig_osc_nontrivial" } else { "sig_nontrivial" }, 1);
            }
            if d.len() > 1 {
                c.nontrivial(&(v.to_string(), seq));
            }
            c.sample(|| json!({"advice": format!("{h:?}"), "level": level, "policy": policy, "strategy": v}));
        },
    )
}

// ---------------------------------------------------------------- C22

const MONTH: u64 = 2_629_746_000;

/// Start of the larger interval a time lies in.
fn bucket(t: u64, interval: u64) -> u64 {
    if interval == MONTH {
        crate::cal::month_floor(t)
    } else if interval == WEEK {
        crate::cal::week_floor(t)
    } else {
        t / interval * interval
    }
}

pub enum Emitted {
    Nothing,
    One(Candle),
    /// The first candle after a gap both reveals the end of the former interval and completes its own: rejected.
    Rejected,
}

impl Emitted {
    fn candle(self) -> Option<Candle> {
        match self {
            Emitted::One(c) => Some(c),
            Emitted::Nothing => None,
            Emitted::Rejected => panic!("rejected"),
        }
    }
}

/// Reference: keeps all candles of the interval at hand, and aggregates them on emission.
pub struct Bucketing {
    interval: u64,
    larger: u64,
    inside: Vec<Candle>,
}

impl Bucketing {
    pub fn new(interval: u64, larger: u64) -> Self {
        Bucketing { interval, larger, inside: vec![] }
    }
    fn aggregate(&self) -> Candle {
        let cs = &self.inside;
        Candle {
            time: Timestamp(bucket(cs[0].time.0, self.larger)),
            open: cs[0].open,
            high: cs.iter().map(|c| c.high).fold(f64::MIN, f64::max),
            low: cs.iter().map(|c| c.low).fold(f64::MAX, f64::min),
            close: cs.last().unwrap().close,
            volume: cs.iter().map(|c| c.volume).sum(),
        }
    }
    pub fn would_reject(&self, c: &Candle) -> bool {
        let b = bucket(c.time.0, self.larger);
        self.interval != self.larger && self.inside.last().map_or(false, |l| bucket(l.time.0, self.larger) != b) && bucket(c.time.0 + self.interval, self.larger) > b
    }
    pub fn add(&mut self, c: Candle) -> Emitted {
        if self.interval == self.larger {
            return Emitted::One(c);
        }
        let b = bucket(c.time.0, self.larger);
        let other = self.inside.last().map_or(false, |l| bucket(l.time.0, self.larger) != b);
        let completes = bucket(c.time.0 + self.interval, self.larger) > b;
        if other && completes {
            return Emitted::Rejected;
        }
        if other {
            let out = self.aggregate();
            self.inside = vec![c];
            return Emitted::One(out);
        }
        self.inside.push(c);
        if completes {
            let out = self.aggregate();
            self.inside.clear();
            return Emitted::One(out);
        }
        Emitted::Nothing
    }
}

pub fn c22() -> ! {
    crate::case::run(
        Spec::new("C22", 3_000_000, 30_000_000, "a candle sequence from which at least two larger candles were emitted; signature of the intervals and emission times")
            .require(&["emitted_on_last", "emitted_on_next", "weeks", "months", "gaps", "passed_through", "rejected_constructions", "uneven_pairs", "long_sequences"]),
        |c| {
            let pairs: [(u64, u64); 15] = [
                (MIN, 5 * MIN),
                (MIN, HOUR),
                (5 * MIN, 15 * MIN),
                (HOUR, 4 * HOUR),
                (HOUR, DAY),
                (8 * HOUR, DAY),
                (4 * HOUR, 8 * HOUR),
                (DAY, 3 * DAY),
                (DAY, WEEK),
                (8 * HOUR, WEEK),
                (DAY, MONTH),
                (8 * HOUR, MONTH),
                // Candles which straddle the larger interval.
                (2 * HOUR, 3 * HOUR),
                (WEEK, MONTH),
                (3 * DAY, WEEK),
            ];
            let (interval, larger) = pick(&mut c.rng, &pairs);
            let mut start = c.rng.gen_range(15_000..30_000u64) * DAY;
            if chance(&mut c.rng, 0.1) {
                start = MONDAY + c.rng.gen_range(0..2000u64) * DAY;
            }
            start += c.rng.gen_range(0..1 + DAY.min(larger) / interval) * interval;
            start = bucket(start, interval);
            if start < MONDAY {
                start += interval;
            }
            let long = chance(&mut c.rng, 0.0005);
            c.count("long_sequences", long as u64);
            let n = if long { c.rng.gen_range(1000..5000) } else { c.rng.gen_range(1..if larger / interval > 40 { 300 } else { 90 }) };
            let gap_p = pick(&mut c.rng, &[0.0, 0.02, 0.15, 0.5]);
            let shape = pick(&mut c.rng, &SHAPES);
            let mut cs = gen::series_with(&mut c.rng, n, interval, shape, start, gap_p).candles;
            // Larger gaps.
            if chance(&mut c.rng, 0.3) {
                let mut shift = 0;
                for x in &mut cs {
                    if chance(&mut c.rng, 0.05) {
                        shift += interval * c.rng.gen_range(0..3 * (larger / interval).max(1));
                    }
                    x.time.0 += shift;
                }
            }
            let mode = c.rng.gen_range(0..8);
            if mode == 0 {
                // No larger interval: unchanged.
                let same = chance(&mut c.rng, 0.5);
                let mut b = BufferedCandle::new(Interval(interval), if same { Some(Interval(interval)) } else { None });
                for x in &cs {
                    let got = b.buffer(x).map(|c| c.into_owned());
                    c.check(got == Some(*x), "pass-through", || format!("without a larger interval {x:?} becomes {got:?}"));
                    c.count("passed_through", 1);
                }
                return;
            }
            if mode == 1 {
                c.check(guard(|| BufferedCandle::new(Interval(larger), Some(Interval(interval)))).is_err(), "smaller-accepted", || "a smaller buffer interval is accepted".into());
                c.check(guard(|| BufferedCandle::new(Interval(0), None)).is_err(), "zero-accepted", || "an interval of 0 is accepted".into());
                c.count("rejected_constructions", 1);
            }
            let mut b = BufferedCandle::new(Interval(interval), Some(Interval(larger)));
            let mut r = Bucketing::new(interval, larger);
            let mut times = vec![];
            let mut prev: Option<u64> = None;
            if cs.windows(2).any(|w| w[1].time.0 > w[0].time.0 + interval) {
                c.count("gaps", 1);
            }
            if larger % interval != 0 {
                c.count("uneven_pairs", 1);
            }
            for (i, x) in cs.iter().enumerate() {
                if r.would_reject(x) {
                    // Outside of what it supports. Leave the candle out, as the gap goes on.
                    continue;
                }
                let completes = bucket(x.time.0 + interval, larger) > bucket(x.time.0, larger);
                let want = r.add(*x).candle();
                let got = match guard(|| b.buffer(x).map(|c| c.into_owned())) {
                    Ok(g) => g,
                    Err(e) => {
                        c.fail("panic", format!("{interval} into {larger}: {e} at candle {i} at {}", x.time.0));
                        return;
                    }
                };
                let same = match (&got, &want) {
                    (None, None) => true,
                    (Some(g), Some(w)) => {
                        g.time == w.time && g.open == w.open && g.high == w.high && g.low == w.low && g.close == w.close && (g.volume - w.volume).abs() <= 1e-9 * w.volume.abs()
                    }
                    _ => false,
                };
                c.check(same, "emitted", || format!("{interval} into {larger}: candle {i} at {} yields {got:?}, expected {want:?}", x.time.0));
                if !same {
                    return;
                }
                if let Some(w) = want {
                    c.check(prev.map_or(true, |p| w.time.0 > p), "order", || format!("{interval} into {larger}: emitted {} after {prev:?}", w.time.0));
                    prev = Some(w.time.0);
                    times.push(w.time.0);
                    c.count(if completes { "emitted_on_last" } else { "emitted_on_next" }, 1);
                    if larger == WEEK {
                        c.count("weeks", 1);
                    }
                    if larger == MONTH {
                        c.count("months", 1);
                    }
                }
            }
            if times.len() > 1 {
                let sig = (interval, larger, times.clone());
                c.nontrivial(&sig);
            }
            c.sample(|| json!({"interval": interval, "larger": larger, "candles": cs.len(), "emitted at": times}));
        },
    )
}
