//! C01-C05, C07: monitors over the record of a backtest (the positions which trade() reports).
use crate::case::{Case, Spec};
use crate::gen::{self, *};
use crate::rules::{self, Hit, SlRef, TpRef};
use juno::{
    statistics::{CoreStatistics, PositionStatistics},
    strategies::StrategyMeta,
    trading::{trade, CloseReason, Position, TradeInput, TradingParams, TradingSummary},
    Advice, Candle,
};
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;

/// One position, flattened. Fills are (price, size, quote, fee).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pos {
    pub long: bool,
    pub open: u64,
    pub close: u64,
    pub reason: CloseReason,
    pub collateral: f64,
    pub borrowed: f64,
    pub o: [f64; 4],
    pub c: [f64; 4],
}

pub fn flat(p: &Position) -> Pos {
    let f = |f: &juno::Fill| [f.price, f.size, f.quote, f.fee];
    match p {
        Position::Long(p) => Pos {
            long: true,
            open: p.open_time.0,
            close: p.close_time.0,
            reason: p.close_reason,
            collateral: 0.0,
            borrowed: 0.0,
            o: f(&p.open_fills[0]),
            c: f(&p.close_fills[0]),
        },
        Position::Short(p) => Pos {
            long: false,
            open: p.open_time.0,
            close: p.close_time.0,
            reason: p.close_reason,
            collateral: p.collateral,
            borrowed: p.borrowed,
            o: f(&p.open_fills[0]),
            c: f(&p.close_fills[0]),
        },
    }
}
pub fn flats(s: &TradingSummary) -> Vec<Pos> {
    s.positions.iter().map(flat).collect()
}

impl Pos {
    pub fn profit(&self) -> f64 {
        if self.long {
            self.c[2] - self.c[3] - self.o[2]
        } else {
            self.o[2] - self.o[3] - self.c[2]
        }
    }
    pub fn cost(&self) -> f64 {
        if self.long {
            self.o[2]
        } else {
            self.collateral
        }
    }
    pub fn magnitude(&self) -> f64 {
        self.o[2].abs() + self.c[2].abs() + self.collateral.abs()
    }
}

#[derive(Clone)]
pub struct Scn {
    pub series: Series,
    pub market: Market,
    pub json: Value,
    pub params: TradingParams,
    pub long: bool,
    pub short: bool,
}

impl Scn {
    pub fn run_on(&self, candles: &[Candle]) -> TradingSummary {
        trade(
            &self.params,
            &TradeInput {
                candles,
                fees: &self.market.fees,
                filters: &self.market.filters,
                borrow_info: &self.market.borrow,
                margin_multiplier: self.market.margin_multiplier,
                quote: self.market.quote,
                long: self.long,
                short: self.short,
            },
        )
    }
    pub fn run(&self) -> TradingSummary {
        self.run_on(&self.series.candles)
    }
    /// Winning all along, the balance leaves what f64 can count: such a history ends before.
    pub fn tame(&mut self) {
        if self.series.candles.len() >= 1_000 {
            let first = flats(&self.run()).iter().find(|p| [p.o[2], p.c[2], p.collateral].iter().any(|x| x.abs() > 1e100)).map(|p| p.open);
            if let Some(t) = first {
                self.series.candles.retain(|c| c.time.0 < t);
            }
        }
    }
    pub fn describe(&self) -> Value {
        json!({"params": self.json, "long": self.long, "short": self.short, "candles": self.series.candles.len(),
               "interval": self.series.interval, "shape": format!("{:?}", self.series.shape), "gaps": self.series.gaps,
               "market": format!("{:?}", self.market)})
    }
}

pub fn scenario(rng: &mut StdRng) -> Scn {
    let n = match rng.gen_range(0..12) {
        0 => rng.gen_range(0..4),
        1 if gen::chance(rng, 0.05) => rng.gen_range(2_000..8_000),
        1 => rng.gen_range(300..900),
        _ => rng.gen_range(20..250),
    };
    let gap_p = gen::pick(rng, &[0.0, 0.0, 0.02, 0.15]);
    let mut series = gen::series(rng, n, gap_p);
    let mut market = gen::market(rng);
    if let (true, Some(first)) = (gen::chance(rng, 0.7), series.candles.first()) {
        // Most runs should be able to trade: enough quote for the smallest size, and a unit of quote which is small.
        let min = market.filters.size.min.max(market.filters.size.step);
        let need = min * first.open * gen::log_uniform(rng, 1.5, 1e5);
        if market.quote < need {
            market.quote = need;
        }
    }
    let dyadic = series.shape == Shape::Dyadic && gen::chance(rng, 0.8);
    let pmax = gen::pick(rng, &[3, 5, 8, 20]);
    if series.candles.is_empty() {
        series.gaps = false;
    }
    let json = gen::trading(rng, series.interval, pmax, dyadic);
    let params = gen::parse_trading(&json);
    let (long, short) = gen::pick(rng, &[(true, true), (true, true), (true, true), (true, false), (false, true), (false, false)]);
    let mut scn = Scn { series, market, json, params, long, short };
    scn.tame();
    scn
}

fn unit(p: u32) -> f64 {
    10f64.powi(-(p as i32))
}
fn tiny(v: f64, unit: f64) -> f64 {
    v.abs() * 1e-12 + unit * 1e-6
}
fn is_multiple(v: f64, unit: f64) -> bool {
    let n = v / unit;
    n.abs() > 1e9 || (n - n.round()).abs() < 1e-5
}
/// v is x rounded down to the unit (floating point may lose one more unit right at a multiple).
pub fn is_down(v: f64, x: f64, unit: f64) -> bool {
    v <= x + tiny(x, unit) && v >= x - unit - tiny(x, unit) && is_multiple(v, unit)
}
pub fn is_half_up(v: f64, x: f64, unit: f64) -> bool {
    // On a tie which is exact in binary, half goes up.
    let n = x / unit;
    let exact_tie = unit >= 0.01 && n.abs() < 1e6 && n.fract() == 0.5 && (x * 1024.0).fract() == 0.0;
    if exact_tie {
        return (v / unit - n.ceil()).abs() < 1e-6;
    }
    (v - x).abs() <= unit * 0.5 + tiny(x, unit) && is_multiple(v, unit)
}

/// Whether `size` is the largest amount the size filter allows for up to `x`.
pub fn size_ok(size: f64, x: f64, rel: f64, f: &juno::filters::Size) -> Result<(), String> {
    let e = |s: &str| Err(format!("{s}: size {size}, available {x}, filter {f:?}"));
    let m = if f.max > 0.0 { x.min(f.max) } else { x };
    let rel = rel.max(1e-12);
    let eps = m.abs() * rel.max(1e-9);
    if size == 0.0 {
        // Nothing tradable: the largest multiple of the step is below min (or zero).
        let top = if f.step > 0.0 { ((m - eps) / f.step).floor() * f.step } else { m };
        if top > 0.0 && top >= f.min * (1.0 + 1e-9) && x > f.min * (1.0 + 1e-9) {
            return e("zero although tradable");
        }
        return Ok(());
    }
    if !(size > 0.0) {
        return e("not positive");
    }
    if size > m + m.abs() * rel {
        return e("more than available or than max");
    }
    if size < f.min * (1.0 - 1e-12) {
        return e("below min");
    }
    if f.step > 0.0 {
        let n = size / f.step;
        if n.abs() < 1e9 && (n - n.round()).abs() > 1e-5 {
            return e("not a multiple of step");
        }
        if size + f.step < m - eps.min(f.step * 1e-3) - m.abs() * rel {
            return e("not the largest");
        }
    } else if (size - m).abs() > m.abs() * rel {
        return e("not the largest");
    }
    Ok(())
}

pub struct Bal {
    pub avail: f64,
    pub peak: f64,
}
impl Bal {
    pub fn new(q: f64) -> Self {
        Bal { avail: q, peak: q.abs() }
    }
    pub fn step(&mut self, p: &Pos) {
        self.avail += p.profit();
        self.peak = self.peak.max(self.avail.abs()).max(p.magnitude());
    }
    pub fn rel(&self) -> f64 {
        self.tol() / self.avail
    }
    pub fn tol(&self) -> f64 {
        self.peak * 1e-11
    }
}

fn observe(case: &mut Case, scn: &Scn, ps: &[Pos]) {
    case.count("positions", ps.len() as u64);
    for p in ps {
        case.count(if p.long { "longs" } else { "shorts" }, 1);
        case.count(
            match p.reason {
                CloseReason::Strategy => "closed_strategy",
                CloseReason::StopLoss => "closed_stop_loss",
                CloseReason::TakeProfit => "closed_take_profit",
                CloseReason::Cancelled => "closed_cancelled",
            },
            1,
        );
    }
    if !ps.is_empty() {
        let sig: Vec<(bool, u64, u64, u8)> = ps.iter().map(|p| (p.long, p.open, p.close, p.reason as u8)).collect();
        case.nontrivial(&sig);
        case.sample(|| {
            let mut v = scn.describe();
            v["positions"] = json!(ps.len());
            v["first"] = json!(format!("{:?}", ps[0]));
            v
        });
    }
}

// ---------------------------------------------------------------- C01

pub fn c01() -> ! {
    let spec = Spec::new("C01", 1_200_000, 24_000_000, "a backtest with at least one position; distinct by the sequence of (side, open time, close time, reason)")
        .require(&["longs", "shorts", "balance_checks", "reversals"])
        .assume(&["amounts are f64: balances are compared with a tolerance of 1e-11 of the largest amount seen in the run"]);
    crate::case::run(spec, |case| {
        let scn = scenario(&mut case.rng);
        let s = scn.run();
        let ps = flats(&s);
        observe(case, &scn, &ps);
        let mut bal = Bal::new(scn.market.quote);
        case.check(s.quote == scn.market.quote, "quote", || format!("reported starting quote {} != {}", s.quote, scn.market.quote));
        let f = &scn.market.filters;
        for (i, p) in ps.iter().enumerate() {
            let ctx = || format!("position {i} {p:?}, balance {}, scenario {}", bal.avail, scn.describe());
            case.count("balance_checks", 1);
            if i > 0 && ps[i - 1].close == p.open {
                case.count("reversals", 1);
            }
            let all = p.o.iter().chain(p.c.iter()).chain([&p.collateral, &p.borrowed]).all(|v| v.is_finite());
            case.check(all, "finite", || format!("non finite amount: {}", ctx()));
            case.check(p.o.iter().chain(p.c.iter()).all(|v| *v >= 0.0), "negative", || format!("negative amount in a fill: {}", ctx()));
            if p.long {
                case.check(p.o[2] <= bal.avail + bal.tol(), "overspend", || format!("long spends more than there is: {}", ctx()));
                // The most that fits: another step would not have been affordable.
                if bal.avail > bal.tol() * 1e3 {
                    if let Err(e) = size_ok(p.o[1], bal.avail / p.o[0], bal.rel(), &f.size) {
                        case.fail("most", format!("long does not buy the most that fits: {e}; {}", ctx()));
                    }
                }
                case.check(is_down(p.o[2], p.o[0] * p.o[1], unit(f.quote_precision)), "pays", || {
                    format!("a long does not pay price times size: {}", ctx())
                });
                // Only what was bought, minus fee, can be sold.
                let got = p.o[1] - p.o[3];
                case.check(p.c[1] <= got + got.abs() * 1e-12, "oversell", || format!("long sells more than it bought: {}", ctx()));
            } else {
                case.check((p.collateral - bal.avail).abs() <= bal.tol(), "collateral", || {
                    format!("a short does not pledge exactly the balance: {}", ctx())
                });
                case.check(p.c[1] >= p.borrowed * (1.0 - 1e-12), "repay", || format!("a short does not buy back what it owes: {}", ctx()));
                case.check(is_down(p.o[2], p.o[0] * p.borrowed, unit(f.quote_precision)), "proceeds", || {
                    format!("a short does not receive price times borrowed: {}", ctx())
                });
            }
            case.check(is_down(p.c[2], p.c[0] * p.c[1], unit(f.quote_precision)), "closing", || {
                format!("closing quote is not price times size: {}", ctx())
            });
            let st = PositionStatistics::compose(&s.positions[i]);
            let tol = bal.tol() + p.magnitude() * 1e-12;
            case.check((st.profit - p.profit()).abs() <= tol, "profit", || {
                format!("reported position profit {} != change of balance {}: {}", st.profit, p.profit(), ctx())
            });
            case.check((st.gain - st.cost - p.profit()).abs() <= tol, "gain", || {
                format!("reported gain {} - cost {} != change of balance {}: {}", st.gain, st.cost, p.profit(), ctx())
            });
            case.check((st.cost - p.cost()).abs() <= tol, "cost", || format!("reported cost {}: {}", st.cost, ctx()));
            bal.step(p);
        }
        let c = CoreStatistics::compose(&s);
        let tol = bal.tol() * (1.0 + ps.len() as f64);
        case.check((c.profit - (bal.avail - scn.market.quote)).abs() <= tol, "total-profit", || {
            format!("total profit {} but the balance went from {} to {}: {}", c.profit, scn.market.quote, bal.avail, scn.describe())
        });
        case.check((c.gain - bal.avail).abs() <= tol, "total-gain", || {
            format!("gain {} but the balance is {}: {}", c.gain, bal.avail, scn.describe())
        });
        case.check(c.cost == scn.market.quote, "total-cost", || format!("cost {} but started with {}", c.cost, scn.market.quote));
    })
}

// ---------------------------------------------------------------- C02

pub fn c02() -> ! {
    let spec = Spec::new("C02", 1_200_000, 24_000_000, "a backtest with at least one position; distinct by the sequence of (side, open time, close time, reason)")
        .require(&["longs", "shorts", "fills", "fees_nonzero"])
        .assume(&["floating point may lose one unit where the exact value is a multiple of the unit within 1e-12", "ties of half up are decided only where they are exact in binary"]);
    crate::case::run(spec, |case| {
        let mut scn = scenario(&mut case.rng);
        if chance(&mut case.rng, 0.15) {
            // Whole sizes, binary fee rates and coarse precision make exact ties.
            scn.market.fees.taker = pick(&mut case.rng, &[0.125, 0.25, 0.5, 0.0625]);
            let z = &mut scn.market.filters;
            z.base_precision = pick(&mut case.rng, &[0, 1, 2]);
            z.quote_precision = pick(&mut case.rng, &[0, 1, 2]);
            z.size.step = pick(&mut case.rng, &[1.0, 0.5]);
            z.size.min = z.size.step;
            z.size.max = 0.0;
            let p = scn.series.candles.first().map_or(1.0, |c| c.close);
            scn.market.quote = p * case.rng.gen_range(10.0..1000.0);
        }
        scn.tame();
        let s = scn.run();
        let ps = flats(&s);
        observe(case, &scn, &ps);
        let close_at: HashMap<u64, f64> = scn.series.candles.iter().map(|c| (c.time.0 + scn.series.interval, c.close)).collect();
        let f = &scn.market.filters;
        let (bu, qu, taker) = (unit(f.base_precision), unit(f.quote_precision), scn.market.fees.taker);
        let mut bal = Bal::new(scn.market.quote);
        for (i, p) in ps.iter().enumerate() {
            let ctx = || format!("position {i} {p:?}, balance {}, scenario {}", bal.avail, scn.describe());
            case.count("fills", 2);
            if p.o[3] > 0.0 {
                case.count("fees_nonzero", 1);
            }
            case.check(close_at.get(&p.open) == Some(&p.o[0]), "open-price", || format!("open fill isn't priced at the candle's close: {}", ctx()));
            case.check(close_at.get(&p.close) == Some(&p.c[0]), "close-price", || format!("close fill isn't priced at the candle's close: {}", ctx()));
            case.check(is_down(p.o[2], p.o[0] * p.o[1], qu), "open-quote", || format!("opening quote isn't price*size rounded down: {}", ctx()));
            case.check(is_down(p.c[2], p.c[0] * p.c[1], qu), "close-quote", || format!("closing quote isn't price*size rounded down: {}", ctx()));
            if p.long {
                if bal.avail > bal.tol() * 1e3 {
                    if let Err(e) = size_ok(p.o[1], bal.avail / p.o[0], bal.rel(), &f.size) {
                        case.fail("open-size", format!("opening size: {e}; {}", ctx()));
                    }
                }
                case.check(is_half_up(p.o[3], p.o[1] * taker, bu), "open-fee", || format!("long's opening fee isn't {taker} of the size in base: {}", ctx()));
                let got = p.o[1] - p.o[3];
                if let Err(e) = size_ok(p.c[1], got, 0.0, &f.size) {
                    case.fail("close-size", format!("closing size: {e}; {}", ctx()));
                }
                case.check(is_half_up(p.c[3], p.c[2] * taker, qu), "close-fee", || format!("long's closing fee isn't {taker} of the quote: {}", ctx()));
            } else {
                case.check(p.o[1] == p.borrowed, "short-size", || format!("a short sells what it borrowed: {}", ctx()));
                case.check(is_half_up(p.o[3], p.o[2] * taker, qu), "short-open-fee", || format!("short's opening fee isn't {taker} of the quote: {}", ctx()));
                let net = p.c[1] - p.c[3];
                case.check(is_half_up(p.c[3], net * taker, bu), "short-close-fee", || format!("short's closing fee isn't {taker} of the base bought: {}", ctx()));
            }
            bal.step(p);
        }
    })
}

// ---------------------------------------------------------------- C03

pub fn c03() -> ! {
    let spec = Spec::new("C03", 1_200_000, 24_000_000, "a backtest with at least one position; distinct by the sequence of (side, open time, close time, reason)")
        .require(&["longs", "shorts", "closed_cancelled", "empty_histories", "gap_histories", "positions_ending_early"])
        .assume(&["candles are given in order of time and aligned to their interval"]);
    crate::case::run(spec, |case| {
        let scn = scenario(&mut case.rng);
        let s = scn.run();
        let ps = flats(&s);
        observe(case, &scn, &ps);
        let iv = scn.series.interval;
        let cs = &scn.series.candles;
        if cs.is_empty() {
            case.count("empty_histories", 1);
            case.check(ps.is_empty(), "empty", || "positions without candles".into());
            case.check(s.start.0 == 0 && s.end.0 <= iv, "empty-period", || format!("period {:?}..{:?} of an empty history", s.start.0, s.end.0));
            return;
        }
        if scn.series.gaps {
            case.count("gap_histories", 1);
        }
        let end = cs.last().unwrap().time.0 + iv;
        case.check(s.start == cs[0].time, "start", || format!("start {} != {}", s.start.0, cs[0].time.0));
        case.check(s.end.0 == end, "end", || format!("end {} != {}", s.end.0, end));
        let times: std::collections::HashSet<u64> = cs.iter().map(|c| c.time.0 + iv).collect();
        for (i, p) in ps.iter().enumerate() {
            let ctx = || format!("position {i} of {} {p:?}, scenario {}", ps.len(), scn.describe());
            case.check(times.contains(&p.open), "open-time", || format!("opens not at the end of a candle: {}", ctx()));
            case.check(times.contains(&p.close), "close-time", || format!("closes not at the end of a candle: {}", ctx()));
            let cancelled = p.reason == CloseReason::Cancelled;
            case.check(if cancelled { p.open <= p.close } else { p.open < p.close }, "order", || format!("closes before it opens: {}", ctx()));
            if i > 0 {
                case.check(ps[i - 1].close <= p.open, "overlap", || format!("opens before the previous one closed at {}: {}", ps[i - 1].close, ctx()));
            }
            if cancelled {
                case.check(i + 1 == ps.len() && p.close == end, "cancelled", || format!("cancelled, but not at the end of the last candle: {}", ctx()));
            } else if p.close < end {
                case.count("positions_ending_early", 1);
            }
            case.check(if p.long { scn.long } else { scn.short }, "side", || format!("a position of a disabled side: {}", ctx()));
        }
    })
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tri {
    Yes,
    No,
    Maybe,
}

fn tradable(avail: f64, price: f64, f: &juno::filters::Size) -> Tri {
    let at = |x: f64| {
        let m = if f.max > 0.0 { x.min(f.max) } else { x };
        let s = if f.step > 0.0 { (m / f.step).floor() * f.step } else { m };
        x >= f.min && s >= f.min && s > 0.0
    };
    let x = avail / price;
    match (at(x * (1.0 - 1e-9)), at(x), at(x * (1.0 + 1e-9))) {
        (true, true, true) => Tri::Yes,
        (false, false, false) => Tri::No,
        _ => Tri::Maybe,
    }
}

pub fn c04() -> ! {
    let spec = Spec::new("C04", 1_200_000, 24_000_000, "a backtest with at least one position; distinct by the sequence of (side, open time, close time, reason)")
        .require(&["longs", "shorts", "closed_strategy", "closed_stop_loss", "closed_take_profit", "closed_cancelled", "held_off_reentry", "reversals", "trading_ended_unaffordable"])
        .assume(&[
            "the advice itself is taken from a separate instance of the strategy under test (its rules are C20 and C21)",
            "a close within 1e-9 of a threshold counts as either, unless the comparison is exact in binary",
            "an order that is too small for the exchange ends the run; the ADX which the trending take profit uses is the indicator under test (C18)",
        ]);
    crate::case::run(spec, |case| {
        let scn = scenario(&mut case.rng);
        let s = scn.run();
        let ps = flats(&s);
        observe(case, &scn, &ps);
        engine(case, &scn, &ps);
    })
}

pub fn engine(case: &mut Case, scn: &Scn, ps: &[Pos]) {
    let iv = scn.series.interval;
    let mut strat = scn.params.strategy.construct(&StrategyMeta { interval: iv.into() });
    let mut sl = SlRef::new(&scn.json["stop_loss"]);
    let mut tp = TpRef::new(&scn.json["take_profit"]);
    let mut last: Option<Advice> = None;
    let mut p = 0;
    let mut open = false;
    let mut bal = Bal::new(scn.market.quote);
    let n = scn.series.candles.len();
    for (i, c) in scn.series.candles.iter().enumerate() {
        let t = c.time.0 + iv;
        sl.update(c);
        tp.update(c);
        strat.update(c);
        let raw = strat.advice();
        let adv = if raw != Advice::None && Some(raw) != last {
            last = Some(raw);
            raw
        } else {
            Advice::None
        };
        let ctx = |p: usize| format!("candle {i} of {n} ({c:?}), raw advice {raw:?}, new advice {adv:?}, position {p} {:?}, scenario {}", ps.get(p), scn.describe());
        let mut closed_now = false;
        if open {
            let long = ps[p].long;
            let opposite = if long { Advice::Short } else { Advice::Long };
            let mut allowed: Vec<Option<CloseReason>> = vec![];
            if adv == opposite || adv == Advice::Liquidate {
                allowed.push(Some(CloseReason::Strategy));
            } else {
                let s = sl.hit(long);
                let k = tp.hit(long);
                if s != Hit::No {
                    allowed.push(Some(CloseReason::StopLoss));
                }
                if s != Hit::Yes {
                    if k != Hit::No {
                        allowed.push(Some(CloseReason::TakeProfit));
                    }
                    if k != Hit::Yes {
                        allowed.push(None);
                    }
                }
                if allowed.len() > 1 {
                    case.count("threshold_ambiguous", 1);
                }
            }
            let actual = (ps[p].close == t && ps[p].reason != CloseReason::Cancelled).then_some(ps[p].reason);
            if !case.check(allowed.contains(&actual), "close", || format!("expected close {allowed:?} but got {actual:?}: {}", ctx(p))) {
                return;
            }
            if actual.is_some() {
                bal.step(&ps[p]);
                p += 1;
                open = false;
                closed_now = true;
            } else {
                case.count("held", 1);
            }
        }
        if !open {
            let want = match adv {
                Advice::Long if scn.long => Some(true),
                Advice::Short if scn.short => Some(false),
                _ => None,
            };
            if !closed_now && want.is_none() && (raw == Advice::Long && scn.long || raw == Advice::Short && scn.short) && last == Some(raw) && p > 0 {
                case.count("held_off_reentry", 1);
            }
            let actual = ps.get(p).filter(|q| q.open == t).map(|q| q.long);
            if let Some(w) = want {
                let feasible = if bal.avail > bal.tol() * 1e3 {
                    tradable(bal.avail, c.close, &scn.market.filters.size)
                } else if bal.avail < -bal.tol() {
                    Tri::No
                } else {
                    Tri::Maybe
                };
                match actual {
                    Some(a) => {
                        case.check(a == w, "open-side", || format!("opened the wrong side (long: {a}): {}", ctx(p)));
                        if !case.check(feasible != Tri::No, "open-unaffordable", || format!("opened although too small for the exchange: {}", ctx(p))) {
                            return;
                        }
                        if closed_now {
                            case.count("reversals", 1);
                        }
                        open = true;
                    }
                    None => {
                        if !case.check(feasible != Tri::Yes, "open-missing", || format!("did not open (long: {w}) with balance {}: {}", bal.avail, ctx(p))) {
                            return;
                        }
                        // An order which the exchange would refuse ends the run.
                        case.count("trading_ended_unaffordable", 1);
                        case.check(p == ps.len(), "after-end", || format!("positions after an unaffordable order: {}", ctx(p)));
                        return;
                    }
                }
            } else if !case.check(actual.is_none(), "open-unadvised", || format!("opened without being advised to: {}", ctx(p))) {
                return;
            }
            sl.clear(c);
            tp.clear(c);
        }
    }
    if open {
        case.check(ps[p].reason == CloseReason::Cancelled, "cancelled", || format!("position open at the end isn't cancelled: {:?}", ps[p]));
        p += 1;
    }
    case.check(p == ps.len(), "extra", || format!("{} positions reported but {} explained: {}", ps.len(), p, scn.describe()));
}

// ---------------------------------------------------------------- C05

pub fn c05() -> ! {
    let spec = Spec::new("C05", 750_000, 15_000_000, "a backtest with positions, compared with runs on a prefix and on a history with another future; distinct by (prefix length, positions)")
        .require(&["prefix_runs", "perturbed_runs", "cut_open_positions", "positions_before_cut"])
        .assume(&["candles are given in order of time"]);
    crate::case::run(spec, |case| {
        let scn = scenario(&mut case.rng);
        let full = flats(&scn.run());
        observe(case, &scn, &full);
        let n = scn.series.candles.len();
        if n < 2 {
            return;
        }
        let iv = scn.series.interval;
        for round in 0..3 {
            // Cutting around an event is the most telling.
            let k = if !full.is_empty() && chance(&mut case.rng, 0.6) {
                let p = full.choose(&mut case.rng).unwrap();
                let t = if case.rng.gen() { p.open } else { p.close };
                let j = scn.series.candles.iter().position(|c| c.time.0 + iv == t).unwrap_or(0) as i64;
                (j + 1 + case.rng.gen_range(-1..=1)).clamp(1, n as i64 - 1) as usize
            } else {
                case.rng.gen_range(1..n)
            };
            let prefix = &scn.series.candles[..k];
            let t = prefix[k - 1].time.0 + iv;
            let cut = flats(&scn.run_on(prefix));
            case.count("prefix_runs", 1);
            compare(case, &scn, "prefix", k, t, &cut, &full);
            if round == 0 {
                // Same past, other future: of another length, volatility and with gaps.
                let m = case.rng.gen_range(1..60);
                let shape = pick(&mut case.rng, &SHAPES);
                let mut other = prefix.to_vec();
                let start = t + iv * case.rng.gen_range(0..3);
                other.extend(series_with(&mut case.rng, m, iv, shape, start, 0.05).candles);
                let alt = flats(&scn.run_on(&other));
                case.count("perturbed_runs", 1);
                compare(case, &scn, "perturbed", k, t, &cut, &alt);
            }
        }
    })
}

/// cut: positions of the run on the prefix which ends at t; full: of a run which continues after it.
fn compare(case: &mut Case, scn: &Scn, what: &str, k: usize, t: u64, cut: &[Pos], full: &[Pos]) {
    let ctx = |i: usize| format!("{what} of {k} candles (until {t}), position {i}: {:?} vs. {:?}; {}", cut.get(i), full.get(i), scn.describe());
    for (i, p) in cut.iter().enumerate() {
        case.count("positions_before_cut", 1);
        let Some(q) = full.get(i) else {
            case.fail(&format!("{what}-missing"), format!("a position disappears with more candles: {}", ctx(i)));
            return;
        };
        if p.reason == CloseReason::Cancelled {
            case.count("cut_open_positions", 1);
            let same = p.long == q.long && p.open == q.open && p.o == q.o && p.collateral == q.collateral && p.borrowed == q.borrowed;
            case.check(same && q.close > t, &format!("{what}-open"), || format!("the open position depends on later candles: {}", ctx(i)));
        } else {
            case.check(p == q, &format!("{what}-closed"), || format!("a closed position depends on later candles: {}", ctx(i)));
        }
    }
    if let Some(q) = full.get(cut.len()) {
        case.check(q.open > t, &format!("{what}-extra"), || format!("a position appears in the past with more candles: {}", ctx(cut.len())));
    }
}

// ---------------------------------------------------------------- C07

pub fn c07() -> ! {
    let spec = Spec::new("C07", 1_200_000, 24_000_000, "a backtest with at least one short; distinct by the sequence of (side, open time, close time, reason)")
        .require(&["shorts", "limited_by_borrow_limit", "limited_by_margin", "interest_nonzero", "interest_started_interval"])
        .assume(&["floating point may lose one step where the exact size is a multiple of the step within 1e-9"]);
    crate::case::run(spec, |case| {
        let mut scn = scenario(&mut case.rng);
        scn.short = true;
        if chance(&mut case.rng, 0.3) {
            // Limits around what the margin allows.
            let x = scn.market.quote / scn.series.candles.first().map_or(1.0, |c| c.close);
            scn.market.borrow.limit = x * case.rng.gen_range(0.1..3.0);
        }
        if chance(&mut case.rng, 0.3) {
            scn.market.borrow.interest_interval = pick(&mut case.rng, &[scn.series.interval, scn.series.interval * 2, scn.series.interval / 2, scn.series.interval * 3 / 2, scn.series.interval + 1]).max(1);
        }
        scn.tame();
        let s = scn.run();
        let ps = flats(&s);
        if ps.iter().any(|p| !p.long) {
            observe(case, &scn, &ps);
        }
        let f = &scn.market.filters;
        let b = &scn.market.borrow;
        let (bu, qu, taker) = (unit(f.base_precision), unit(f.quote_precision), scn.market.fees.taker);
        let mut bal = Bal::new(scn.market.quote);
        for (i, p) in ps.iter().enumerate() {
            let ctx = || format!("position {i} {p:?}, balance {}, scenario {}", bal.avail, scn.describe());
            if !p.long {
                case.check(p.borrowed <= b.limit * (1.0 + 1e-12), "limit", || format!("borrows more than the limit: {}", ctx()));
                let m = (scn.market.margin_multiplier - 1) as f64;
                if p.borrowed >= b.limit * (1.0 - 1e-12) {
                    case.count("limited_by_borrow_limit", 1);
                    // The margin must allow at least as much.
                    let most = p.collateral / p.o[0] * m;
                    case.check(p.borrowed <= most * (1.0 + 1e-9), "margin", || format!("borrows more than the margin allows ({most}): {}", ctx()));
                } else {
                    case.count("limited_by_margin", 1);
                    if m == 0.0 {
                        case.check(p.borrowed == 0.0, "no-margin", || format!("borrows without margin: {}", ctx()));
                    } else if bal.avail > bal.tol() * 1e3 {
                        if let Err(e) = size_ok(p.borrowed / m, p.collateral / p.o[0], bal.rel(), &f.size) {
                            case.fail("margin-size", format!("borrowed isn't {m} times the largest size the collateral buys: {e}; {}", ctx()));
                        }
                    }
                }
                case.check((p.collateral - bal.avail).abs() <= bal.tol(), "collateral", || format!("collateral isn't the balance: {}", ctx()));
                case.check(p.o[1] == p.borrowed, "sold", || format!("sells something else than it borrowed: {}", ctx()));
                case.check(is_down(p.o[2], p.o[0] * p.borrowed, qu), "proceeds", || format!("proceeds of the borrowed: {}", ctx()));
                // Interest for every started interval.
                let d = p.close - p.open;
                let started = d / b.interest_interval + u64::from(d % b.interest_interval != 0);
                if d % b.interest_interval != 0 {
                    case.count("interest_started_interval", 1);
                }
                let due = p.borrowed * started as f64 * b.interest_rate;
                let interest = p.c[1] - p.c[3] - p.borrowed;
                if due > bu {
                    case.count("interest_nonzero", 1);
                }
                let tol = p.c[1].abs() * 1e-12 + bu * 1e-6;
                let tie = bu >= 0.01 && (due / bu).fract() == 0.5 && (due * 1024.0).fract() == 0.0 && due / bu < 1e6;
                let ok = if tie { (interest / bu - (due / bu).ceil()).abs() < 1e-6 + p.c[1] * 1e-12 / bu } else { (interest - due).abs() <= bu * 0.5 + tol };
                case.check(ok, "interest", || format!("interest {interest} isn't {due} ({started} intervals) rounded half up: {}", ctx()));
                let whole = interest / bu;
                case.check((whole - whole.round()).abs() <= 1e-5 + p.c[1].abs() * 1e-12 / bu, "interest-unit", || {
                    format!("interest {interest} isn't in units of the base precision: {}", ctx())
                });
                let fee = (p.c[1] - p.c[3]) * taker;
                case.check(is_half_up(p.c[3], fee, bu), "fee", || format!("closing fee isn't the taker rate on what is bought back: {}", ctx()));
                case.check(is_down(p.c[2], p.c[0] * p.c[1], qu), "cost", || format!("closing quote: {}", ctx()));
            }
            bal.step(p);
        }
    })
}

pub fn c06() -> ! {
    rules::c06()
}
