//! C14-C17: statistics against independent recomputation from the positions.
use crate::case::{Case, Spec};
use crate::gen::*;
use crate::trades::{flat, flats, scenario, Pos};
use crate::world;
use juno::{
    statistics::{self, CoreStatistics, ExtendedStatistics, PositionStatistics, PositionType, Statistics},
    trading::{
        CloseReason, EvaluationAggregation, EvaluationStatistic, LongPosition, Position, ShortPosition, TradingSummary,
    },
    Candle, Fill, Interval, Timestamp,
};
use rand::prelude::*;
use serde_json::json;
use std::collections::HashMap;

pub const YEAR: f64 = 31_556_952_000.0;

/// A summary which no backtest needs to have produced: any fills, any durations.
pub fn synthetic(rng: &mut StdRng, exact: bool) -> TradingSummary {
    let n = pick(rng, &[0, 1, 1, 2, 3, 5, 10, 30]);
    let start = start_time(rng, DAY) + if chance(rng, 0.5) { rng.gen_range(0..DAY) } else { 0 };
    let quote = if exact { 1024.0 } else { log_uniform(rng, 0.01, 1e5) };
    let span = pick(rng, &[1, MIN, HOUR, DAY, 5 * DAY, 40 * DAY, 366 * DAY, YEAR as u64]);
    let mut s = TradingSummary::new(Timestamp(start), Timestamp(start), quote);
    let mut t = start;
    let mut bal = quote;
    for _ in 0..n {
        t += rng.gen_range(0..=span / n + 1);
        let open = t;
        t += rng.gen_range(0..=span / n + 1);
        let close = t;
        let amt = |rng: &mut StdRng, hi: f64| if exact { (rng.gen_range(0.0..hi) * 8.0).floor() / 8.0 } else { rng.gen_range(0.0..hi) };
        let reason = pick(rng, &[CloseReason::Strategy, CloseReason::StopLoss, CloseReason::TakeProfit, CloseReason::Cancelled]);
        let price = amt(rng, 10.0) + 0.125;
        let cost = if exact { (bal.max(1.0) * 8.0).floor() / 8.0 } else { bal.max(quote * 1e-3) * rng.gen_range(0.2..1.0) };
        let factor = pick(rng, &[0.0, 0.5, 0.75, 0.99, 1.0, 1.0, 1.25, 1.5, 3.0]);
        let gain = if exact { (cost * factor * 8.0).floor() / 8.0 } else { cost * factor * if chance(rng, 0.5) { 1.0 } else { rng.gen_range(0.9..1.1) } };
        let fee = if exact { amt(rng, 2.0) } else { gain * pick(rng, &[0.0, 0.001, 0.05]) };
        if rng.gen() {
            let size = if exact { amt(rng, 100.0) } else { cost / price };
            let bfee = if exact { 0.125 } else { size * 0.001 };
            s.positions.push(Position::Long(LongPosition {
                open_time: open.into(),
                open_fills: [Fill { price, size, quote: cost, fee: bfee }],
                close_time: close.into(),
                close_fills: [Fill { price, size: (size - bfee).max(0.0), quote: gain, fee }],
                close_reason: reason,
            }));
            bal += gain - fee - cost;
        } else {
            let borrowed = if exact { amt(rng, 100.0) } else { cost / price };
            s.positions.push(Position::Short(ShortPosition {
                open_time: open.into(),
                collateral: bal,
                borrowed,
                open_fills: [Fill { price, size: borrowed, quote: cost, fee }],
                close_time: close.into(),
                close_fills: [Fill { price, size: borrowed * 1.001, quote: gain, fee: 0.0 }],
                close_reason: reason,
            }));
            bal += cost - fee - gain;
        }
    }
    s.end = Timestamp(t + pick(rng, &[0, 1, HOUR, DAY, 3 * DAY]));
    s
}

/// A summary of any kind, with its exactness (no operation of the statistics rounds).
fn any_summary(case: &mut Case) -> (TradingSummary, bool) {
    match case.rng.gen_range(0..4) {
        0 => (synthetic(&mut case.rng, true), true),
        1 => (synthetic(&mut case.rng, false), false),
        _ => (scenario(&mut case.rng).run(), false),
    }
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol || (a.is_nan() && b.is_nan())
}

fn annualized(duration: u64, roi: f64) -> f64 {
    let years = duration as f64 / YEAR;
    if years == 0.0 {
        return 0.0;
    }
    let r = (1.0 + roi).powf(1.0 / years) - 1.0;
    if r.is_nan() {
        0.0
    } else {
        r
    }
}

/// Comparison of annualized returns: rounding of roi is amplified by the exponent.
fn annual_ok(got: f64, duration: u64, roi: f64) -> bool {
    let want = annualized(duration, roi);
    if duration == 0 || near(got, want, 1e-12) {
        return near(got, want, 1e-12);
    }
    let exp = YEAR / duration as f64;
    if exp * (1.0 + roi).abs().ln().abs() > 690.0 || (1.0 + roi).abs() < 1e-6 {
        // Close to the range of f64, or to losing everything.
        return got.is_infinite() || got.abs() > 1e290 || got.abs() <= 1.0 + 1e-9;
    }
    near(got, want, (want.abs() + 1.0) * (1e-9 + exp * 1e-11 / (1.0 + roi).abs().min(1.0)))
}

pub fn c14() -> ! {
    let spec = Spec::new("C14", 3_000_000, 30_000_000, "a summary with at least one position; distinct by (number of positions, counts, bits of profit and drawdown)")
        .require(&["exact_summaries", "with_drawdown", "without_drawdown", "longs", "shorts", "zero_profit", "zero_duration", "annualized_over_a_year"])
        .assume(&["sums are f64 and compared with a relative tolerance of 1e-10 of the amounts involved; signs of rounding-sized profits are only decided where exact", "a zero profit counts as in profit", "positions which cost nothing have no return"]);
    crate::case::run(spec, |case| {
        let (s, exact) = any_summary(case);
        let c = CoreStatistics::compose(&s);
        let ps = flats(&s);
        let ctx = || format!("{} positions, quote {}, exact {exact}: {c:?}; {}", ps.len(), s.quote, serde_json::to_string(&s).unwrap_or_default().chars().take(900).collect::<String>());
        if exact {
            case.count("exact_summaries", 1);
        }
        let n = ps.len();
        let mag = s.quote.abs() + ps.iter().map(|p| p.magnitude()).sum::<f64>();
        let tol = mag * 1e-11;
        let profits: Vec<f64> = ps.iter().map(|p| p.profit()).collect();
        let total: f64 = profits.iter().sum();
        case.check(near(c.profit, total, tol), "profit", || format!("profit {} want {total}: {}", c.profit, ctx()));
        case.check(near(c.gain, s.quote + total, tol), "gain", || format!("gain {} want {}: {}", c.gain, s.quote + total, ctx()));
        case.check(c.cost == s.quote, "cost", || format!("cost: {}", ctx()));
        case.check(c.start == s.start && c.end == s.end, "period", || format!("period: {}", ctx()));
        case.check(c.duration.0 == s.end.0 - s.start.0, "duration", || format!("duration: {}", ctx()));
        let roi = total / s.quote;
        case.check(near(c.roi, roi, tol / s.quote), "roi", || format!("roi {} want {roi}: {}", c.roi, ctx()));
        case.check(annual_ok(c.annualized_roi, c.duration.0, c.roi), "annualized-roi", || format!("annualized roi {} want {}: {}", c.annualized_roi, annualized(c.duration.0, c.roi), ctx()));
        if c.duration.0 as f64 > YEAR {
            case.count("annualized_over_a_year", 1);
        }
        let mean = if n == 0 { 0.0 } else { total / n as f64 };
        case.check(near(c.mean_position_profit, mean, tol), "mean-profit", || format!("mean profit {} want {mean}: {}", c.mean_position_profit, ctx()));
        let dur: u64 = ps.iter().map(|p| p.close - p.open).sum();
        let mean_dur = if n == 0 { 0 } else { dur / n as u64 };
        case.check(c.mean_position_duration.0 == mean_dur, "mean-duration", || format!("mean duration {} want {mean_dur}: {}", c.mean_position_duration.0, ctx()));
        let (mut q, mut peak, mut worst, mut sum) = (s.quote, s.quote, 0f64, 0.0);
        for p in &profits {
            q += p;
            peak = peak.max(q);
            let d = (peak - q) / peak;
            worst = worst.max(d);
            sum += d;
        }
        let dtol = 1e-10 + tol / s.quote;
        case.check(near(c.max_drawdown, worst, dtol), "max-drawdown", || format!("max drawdown {} want {worst}: {}", c.max_drawdown, ctx()));
        let md = if n == 0 { 0.0 } else { sum / n as f64 };
        case.check(near(c.mean_drawdown, md, dtol), "mean-drawdown", || format!("mean drawdown {} want {md}: {}", c.mean_drawdown, ctx()));
        if worst == 0.0 {
            case.count("without_drawdown", 1);
            if exact || profits.iter().all(|p| *p >= tol) {
                case.check(c.return_over_max_drawdown == 0.0, "romd-zero", || format!("return over max drawdown without a drawdown: {}", ctx()));
            }
        } else if worst > 1e-7 && worst > 1e3 * dtol {
            case.count("with_drawdown", 1);
            let want = roi / worst;
            case.check(near(c.return_over_max_drawdown, want, 4.0 * tol / s.quote / worst + want.abs() * (1e-9 + dtol / worst)), "romd", || {
                format!("return over max drawdown {} want {want}: {}", c.return_over_max_drawdown, ctx())
            });
        }
        case.check(c.num_positions as usize == n, "num", || format!("num_positions: {}", ctx()));
        let slack = |p: &Pos| if exact { 0.0 } else { p.magnitude() * 1e-12 };
        let lost_surely = ps.iter().filter(|p| p.profit() < -slack(p)).count() as u32;
        let lost_maybe = ps.iter().filter(|p| if slack(p) == 0.0 { p.profit() < 0.0 } else { p.profit() < slack(p) }).count() as u32;
        case.check(c.num_positions_in_loss >= lost_surely && c.num_positions_in_loss <= lost_maybe, "num-loss", || format!("positions in loss {} want {lost_surely}..={lost_maybe}: {}", c.num_positions_in_loss, ctx()));
        case.check(c.num_positions_in_profit + c.num_positions_in_loss == n as u32, "num-profit", || format!("positions in profit: {}", ctx()));
        let count = |r: CloseReason| ps.iter().filter(|p| p.reason == r).count() as u32;
        case.check(c.num_stop_losses == count(CloseReason::StopLoss), "num-sl", || format!("stop losses: {}", ctx()));
        case.check(c.num_take_profits == count(CloseReason::TakeProfit), "num-tp", || format!("take profits: {}", ctx()));
        for (i, p) in ps.iter().enumerate() {
            case.count(if p.long { "longs" } else { "shorts" }, 1);
            let st = PositionStatistics::compose(&s.positions[i]);
            let pc = || format!("position {i} {p:?}: {}", serde_json::to_string(&st).unwrap_or_default());
            let tol = p.magnitude() * 1e-12;
            if p.profit() == 0.0 {
                case.count("zero_profit", 1);
            }
            if p.open == p.close {
                case.count("zero_duration", 1);
            }
            case.check(matches!(st.type_, PositionType::Long) == p.long, "pos-type", pc);
            case.check(st.open_time.0 == p.open && st.close_time.0 == p.close, "pos-times", pc);
            case.check(st.duration.0 == p.close - p.open, "pos-duration", pc);
            case.check(st.close_reason == p.reason, "pos-reason", pc);
            case.check(near(st.cost, p.cost(), tol), "pos-cost", pc);
            case.check(near(st.profit, p.profit(), tol), "pos-profit", pc);
            case.check(near(st.gain, p.cost() + p.profit(), tol), "pos-gain", pc);
            if p.cost() > p.magnitude() * 1e-6 {
                case.check(near(st.roi, p.profit() / p.cost(), tol / p.cost()), "pos-roi", pc);
                case.check(annual_ok(st.annualized_roi, st.duration.0, st.roi), "pos-annualized-roi", pc);
            }
        }
        if n > 0 {
            case.nontrivial(&(n, c.num_positions_in_loss, c.profit.to_bits(), c.max_drawdown.to_bits()));
            case.sample(|| json!({"positions": n, "core": serde_json::to_value(&c).unwrap()}));
        }
    })
}

/// Daily prices for the days of a summary; the first is the opening price.
pub fn prices_for(rng: &mut StdRng, s: &TradingSummary, candles: &[Candle]) -> (HashMap<String, Vec<f64>>, usize) {
    let days = (s.end.0 / DAY - s.start.0 / DAY) as usize;
    let mk = |rng: &mut StdRng, len: usize| match rng.gen_range(0..5) {
        0 => vec![1.0; len],
        1 => closes(rng, len, Shape::Flat),
        2 => closes(rng, len, Shape::Trend),
        _ => closes(rng, len, Shape::Walk),
    };
    let extra = pick(rng, &[0, 0, 1, 5]);
    let mut m = HashMap::new();
    m.insert("eth".to_string(), mk(rng, days + 1 + extra));
    m.insert("btc".to_string(), mk(rng, days + 1 + extra));
    m.insert("usdt".to_string(), vec![1.0; days + 1]);
    if !candles.is_empty() && chance(rng, 0.8) {
        // Consistent with the prices traded at.
        let first = s.start.0 / DAY;
        let q = m["btc"].clone();
        let mut p = vec![candles[0].open * q[0]];
        let mut i = 0;
        for d in 0..days + extra {
            while i + 1 < candles.len() && candles[i + 1].time.0 < (first + d as u64 + 1) * DAY {
                i += 1;
            }
            p.push(candles[i].close * q[d + 1]);
        }
        m.insert("eth".to_string(), p);
    }
    (m, days)
}

/// Logarithmic daily returns of the marked-to-market portfolio.
/// The second value is how much rounding of the amounts involved is amplified by cancellation in the portfolio's value.
pub fn returns(s: &TradingSummary, base: &[f64], quote: &[f64], days: usize) -> (Vec<f64>, f64) {
    let first = s.start.0 / DAY;
    let ps: Vec<Pos> = s.positions.iter().map(flat).collect();
    let mut prev = s.quote * quote[0];
    let mut out = vec![];
    let mut amplified = 1f64;
    let most = ps.iter().map(|p| p.magnitude()).fold(s.quote, f64::max);
    let most_base = ps.iter().map(|p| p.o[1].max(p.c[1]).max(p.borrowed)).fold(0.0, f64::max);
    for d in 0..days {
        let (mut q, mut b) = (s.quote, 0.0);
        for p in &ps {
            // A trade belongs to the day in which it takes place.
            if p.open / DAY <= first + d as u64 {
                if p.long {
                    q -= p.o[2];
                    b += p.o[1] - p.o[3];
                } else {
                    q += p.o[2] - p.o[3];
                    b -= p.borrowed;
                }
            }
            if p.close / DAY <= first + d as u64 {
                if p.long {
                    q += p.c[2] - p.c[3];
                    b -= p.c[1];
                } else {
                    q -= p.c[2];
                    b += p.borrowed;
                }
            }
        }
        let v = b * base[d + 1] + q * quote[d + 1];
        out.push((v / prev).ln());
        prev = v;
        let mag = most * quote[d + 1] + if b == 0.0 { 0.0 } else { most_base * base[d + 1] };
        amplified = amplified.max(mag / v.abs());
    }
    (out, amplified)
}

fn moments(r: &[f64]) -> (f64, f64) {
    let n = r.len() as f64;
    let m = r.iter().sum::<f64>() / n;
    (m, (r.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / n).sqrt())
}

struct Ref {
    annual: f64,
    sharpe: Option<f64>,
    sortino: Option<f64>,
}

/// None where the ratio is dominated by rounding.
fn reference(r: &[f64], amplified: f64) -> Ref {
    let (m, sd) = moments(r);
    let annual = 365.0 * m;
    let scale = r.iter().fold(0f64, |a, v| a.max(v.abs()));
    let ratio = |sd: f64| -> Option<f64> {
        let f = annual / (365f64.sqrt() * sd);
        if annual.is_nan() || annual == 0.0 {
            return if annual.is_nan() || scale == 0.0 { Some(0.0) } else { None };
        }
        if sd.is_nan() || annual.is_infinite() {
            return Some(0.0);
        }
        if sd < 1e-8 * scale.max(1e-7) || sd < 1e-5 * amplified {
            return None;
        }
        Some(if f.is_finite() { f } else { 0.0 })
    };
    let neg: Vec<f64> = r.iter().copied().filter(|v| *v < 0.0).collect();
    // Returns which are rounding errors of zero make the set of negative ones ambiguous.
    let ambiguous = r.iter().any(|v| *v != 0.0 && v.abs() < 1e-11);
    let sharpe = ratio(sd);
    let sortino = if ambiguous {
        None
    } else if neg.is_empty() {
        Some(0.0)
    } else {
        ratio(moments(&neg).1)
    };
    Ref { annual, sharpe, sortino }
}

fn close_rel(a: f64, b: f64, abs: f64) -> bool {
    a == b || (a - b).abs() <= abs + 1e-6 * b.abs().max(a.abs())
}

fn daily_summary(case: &mut Case) -> (TradingSummary, Vec<Candle>) {
    match case.rng.gen_range(0..5) {
        0 => (synthetic(&mut case.rng, false), vec![]),
        1 => (synthetic(&mut case.rng, true), vec![]),
        _ => {
            let s = scenario(&mut case.rng);
            (s.run(), s.series.candles)
        }
    }
}

pub fn c15() -> ! {
    let spec = Spec::new("C15", 900_000, 18_000_000, "a run whose statistics were computed by both paths; distinct by the bits of the four statistics")
        .require(&["without_positions", "no_full_day", "single_day", "lost_everything", "no_volatility", "compared_sharpe", "compared_sortino", "profitable"])
        .assume(&["ratios whose volatility is below 1e-8 of the largest return (or 1e-5, times the cancellation in the portfolio's value) are rounding noise and only have to be finite"]);
    crate::case::run(spec, |case| {
        let (s, candles) = daily_summary(case);
        let (prices, days) = prices_for(&mut case.rng, &s, &candles);
        let sym = "eth-btc";
        let full = Statistics::compose(&s, sym, &prices, Interval::DAY_MS);
        let fast = [
            statistics::get_profit(&s),
            statistics::get_return_over_max_drawdown(&s),
            statistics::get_sharpe_ratio(&s, sym, &prices, Interval::DAY_MS),
            statistics::get_sortino_ratio(&s, sym, &prices, Interval::DAY_MS),
        ];
        let slow = [full.core.profit, full.core.return_over_max_drawdown, full.extended.sharpe_ratio, full.extended.sortino_ratio];
        let names = ["profit", "romd", "sharpe", "sortino"];
        let ctx = |i: usize| {
            format!("{}: fast {} full {}, {} positions, {days} days, quote {}; {}", names[i], fast[i], slow[i], s.positions.len(), s.quote,
                serde_json::to_string(&s).unwrap_or_default().chars().take(700).collect::<String>())
        };
        let (r, amplified) = returns(&s, &prices["eth"], &prices["btc"], days);
        let rf = reference(&r, amplified);
        let stable = amplified < 1e5 && r.iter().all(|v| v.abs() < 10.0);
        let mag = s.quote + flats(&s).iter().map(|p| p.magnitude()).sum::<f64>();
        for i in 0..4 {
            case.check(fast[i].is_finite(), &format!("finite-fast-{}", names[i]), || ctx(i));
            case.check(slow[i].is_finite(), &format!("finite-full-{}", names[i]), || ctx(i));
            let decided = match i {
                2 => stable && rf.sharpe.is_some(),
                3 => stable && rf.sortino.is_some(),
                1 => full.core.max_drawdown == 0.0 || full.core.max_drawdown > 1e-7,
                _ => true,
            };
            if decided {
                let abs = if i == 0 { mag * 1e-11 } else { 1e-7 };
                case.check(close_rel(fast[i], slow[i], abs), &format!("equal-{}", names[i]), || ctx(i));
                if i >= 2 && slow[i] != 0.0 {
                    case.count(if i == 2 { "compared_sharpe" } else { "compared_sortino" }, 1);
                }
            }
        }
        if s.positions.is_empty() {
            case.count("without_positions", 1);
        }
        match days {
            0 => case.count("no_full_day", 1),
            1 => case.count("single_day", 1),
            _ => {}
        }
        if full.core.gain <= s.quote * 0.01 {
            case.count("lost_everything", 1);
        }
        if days > 0 && r.iter().all(|v| *v == 0.0) {
            case.count("no_volatility", 1);
        }
        if full.core.profit > 0.0 {
            case.count("profitable", 1);
        }
        case.nontrivial(&fast.map(|v| v.to_bits()));
        case.sample(|| json!({"positions": s.positions.len(), "days": days, "fast": fast, "full": slow}));
    })
}

pub fn c16() -> ! {
    let spec = Spec::new("C16", 900_000, 18_000_000, "a run of at least one full day whose annualized return was decided; distinct by its bits and the number of days")
        .require(&["decided_sharpe", "decided_sortino", "with_shorts_open_overnight", "with_longs_open_overnight", "nonzero_sharpe", "nonzero_sortino"])
        .assume(&[
            "the prices start with the opening price of the summary's first day, as the statistics document",
            "ratios whose volatility is below 1e-8 of the largest return, or whose negative returns can't be told from rounding, are not compared",
        ]);
    crate::case::run(spec, |case| {
        let (s, candles) = daily_summary(case);
        let (prices, days) = prices_for(&mut case.rng, &s, &candles);
        if days == 0 {
            return;
        }
        let (sym, b, q) = pick(&mut case.rng, &[("eth-btc", "eth", "btc"), ("eth-btc", "eth", "btc"), ("eth-usdt", "eth", "usdt"), ("btc-eth", "btc", "eth")]);
        let (pb, pq) = (&prices[b], &prices[q]);
        if pq.len() < days + 1 {
            return;
        }
        let ext = ExtendedStatistics::compose(&s, sym, &prices, Interval::DAY_MS);
        let fast = [statistics::get_sharpe_ratio(&s, sym, &prices, Interval::DAY_MS), statistics::get_sortino_ratio(&s, sym, &prices, Interval::DAY_MS)];
        let (r, amplified) = returns(&s, pb, pq, days);
        let rf = reference(&r, amplified);
        for p in flats(&s) {
            if p.open / DAY != p.close / DAY && p.close / DAY < s.end.0 / DAY {
                case.count(if p.long { "with_longs_open_overnight" } else { "with_shorts_open_overnight" }, 1);
            }
        }
        let ctx = || {
            format!("annualized {} sharpe {} sortino {} want {} {:?} {:?}; {sym} {days} days, returns {:?}; {}", ext.annualized_return, ext.sharpe_ratio, ext.sortino_ratio, rf.annual, rf.sharpe, rf.sortino,
                &r[..r.len().min(8)], serde_json::to_string(&s).unwrap_or_default().chars().take(700).collect::<String>())
        };
        // A portfolio worth (almost) nothing has no meaningful returns.
        let wild = r.iter().any(|v| !v.is_finite() || v.abs() > 10.0) || amplified > 1e5;
        let noise = r.iter().map(|v| v.abs()).fold(0.0, f64::max) * 1e-9 + 1e-10 + amplified * 1e-14;
        if !wild {
            case.check(close_rel(ext.annualized_return, rf.annual, 365.0 * noise), "annualized", ctx);
            if let Some(v) = rf.sharpe {
                case.count("decided_sharpe", 1);
                case.count("nonzero_sharpe", (v != 0.0) as u64);
                case.check(close_rel(ext.sharpe_ratio, v, 1e-6), "sharpe", ctx);
                case.check(close_rel(fast[0], v, 1e-6), "fast-sharpe", || format!("fast {}: {}", fast[0], ctx()));
            }
            if let Some(v) = rf.sortino {
                case.count("decided_sortino", 1);
                case.count("nonzero_sortino", (v != 0.0) as u64);
                case.check(close_rel(ext.sortino_ratio, v, 1e-6), "sortino", ctx);
                case.check(close_rel(fast[1], v, 1e-6), "fast-sortino", || format!("fast {}: {}", fast[1], ctx()));
            }
            case.nontrivial(&(days, ext.annualized_return.to_bits()));
            case.sample(|| json!({"days": days, "symbol": sym, "annualized": ext.annualized_return, "sharpe": ext.sharpe_ratio, "sortino": ext.sortino_ratio}));
        } else {
            case.count("worthless_portfolios", 1);
            case.check(ext.sharpe_ratio.is_finite() && ext.sortino_ratio.is_finite(), "finite", ctx);
        }
    })
}

pub fn c17() -> ! {
    let spec = Spec::new("C17", 90_000, 1_800_000, "a population evaluated with positions traded; distinct by the bits of the fitnesses")
        .require(&["individuals", "multi_symbol", "negative_values", "Profit", "ReturnOverMaxDrawdown", "SharpeRatio", "SortinoRatio", "Linear", "Log10", "Log10Factored", "orders_compared"])
        .assume(&["the backtest and the statistic of one symbol are those of the library (C01-C07, C14-C16)"]);
    crate::case::run(spec, |case| {
        let w = world::World::new(&mut case.rng);
        let n = case.rng.gen_range(1..8);
        let stat = EvaluationStatistic::values()[case.rng.gen_range(0..4)];
        let agg = EvaluationAggregation::values()[case.rng.gen_range(0..3)];
        let sname = serde_json::to_value(stat).unwrap().as_str().unwrap().to_string();
        let aname = serde_json::to_value(agg).unwrap().as_str().unwrap().to_string();
        case.count(&sname, 1);
        case.count(&aname, 1);
        let k = case.rng.gen_range(1..=w.symbols.len());
        let mut training: Vec<String> = w.symbols.clone();
        training.shuffle(&mut case.rng);
        training.truncate(k);
        let pop: Vec<_> = (0..n).map(|_| w.chromosome(&mut case.rng)).collect();
        let fits = w.evaluate(&training, stat, agg, &pop);
        let mut rev = training.clone();
        rev.shuffle(&mut case.rng);
        let fits2 = w.evaluate(&rev, stat, agg, &pop);
        let mut traded = false;
        for (i, p) in pop.iter().enumerate() {
            case.count("individuals", 1);
            if k > 1 {
                case.count("multi_symbol", 1);
            }
            let mut want = 0.0;
            let mut scale = 0.0;
            let mut unsure = false;
            let mut parts = vec![];
            for sym in &training {
                let s = w.backtest(sym, p);
                traded |= !s.positions.is_empty();
                let st = Statistics::compose(&s, sym, &w.prices, Interval::DAY_MS);
                let v = match stat {
                    EvaluationStatistic::Profit => st.core.profit,
                    EvaluationStatistic::ReturnOverMaxDrawdown => st.core.return_over_max_drawdown,
                    EvaluationStatistic::SharpeRatio => st.extended.sharpe_ratio,
                    EvaluationStatistic::SortinoRatio => st.extended.sortino_ratio,
                };
                let (b, q) = sym.split_once('-').unwrap();
                let days = (s.end.0 / DAY - s.start.0 / DAY) as usize;
                let (r, amplified) = returns(&s, &w.prices[b], &w.prices[q], days);
                let r = reference(&r, amplified);
                unsure |= match stat {
                    EvaluationStatistic::SharpeRatio => amplified > 1e5 || r.sharpe.is_none(),
                    EvaluationStatistic::SortinoRatio => amplified > 1e5 || r.sortino.is_none(),
                    EvaluationStatistic::ReturnOverMaxDrawdown => st.core.max_drawdown != 0.0 && st.core.max_drawdown < 1e-7,
                    _ => false,
                };
                let log = |v: f64| if v >= 0.0 { (1.0 + v).log10() } else { -(10f64.powf(1.0 - v)) };
                let a = match agg {
                    EvaluationAggregation::Linear => v,
                    EvaluationAggregation::Log10 => log(v),
                    EvaluationAggregation::Log10Factored => log(10.0 * v),
                };
                if v < 0.0 {
                    case.count("negative_values", 1);
                }
                // A value around zero may fall to either side of the jump.
                unsure |= !matches!(agg, EvaluationAggregation::Linear) && v != 0.0 && v.abs() < 1e-9;
                unsure |= v.abs() > 1e4 && !matches!(agg, EvaluationAggregation::Linear);
                want += a;
                scale += a.abs();
                parts.push(json!({"symbol": sym, "value": v, "aggregated": a, "positions": s.positions.len()}));
            }
            if unsure {
                case.count("ill_conditioned", 1);
                continue;
            }
            let ctx = || format!("{sname} {aname} fitness {} want {want} of {parts:?}; {}", fits[i], serde_json::to_string(p).unwrap());
            let tol = 1e-7 + scale * 1e-5;
            case.check(fits[i] == want || (fits[i] - want).abs() <= tol, "fitness", ctx);
            case.check(fits2[i] == fits[i] || (fits2[i] - fits[i]).abs() <= 1e-9 + scale * 1e-9, "order", || format!("fitness {} with symbols {training:?} but {} with {rev:?}", fits[i], fits2[i]));
            case.count("orders_compared", 1);
            case.sample(|| json!({"statistic": sname, "aggregation": aname, "fitness": fits[i], "parts": parts}));
        }
        if traded {
            case.nontrivial(&fits.iter().map(|f| f.to_bits()).collect::<Vec<_>>());
        }
    })
}
