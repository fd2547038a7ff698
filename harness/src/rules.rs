//! Reference stop losses and take profits (C06), used by the reference engine of C04 as well.
use crate::case::{guard, Case, Spec};
use crate::gen::{self, *};
use juno::{
    easing::{tween, Easing},
    indicators::Adx,
    stop_loss::StopLossParams,
    take_profit::TakeProfitParams,
    Candle,
};
use rand::prelude::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hit {
    Yes,
    No,
    /// Within rounding error of the threshold.
    Maybe,
}

fn or(a: Hit, b: Hit) -> Hit {
    match (a, b) {
        (Hit::Yes, _) | (_, Hit::Yes) => Hit::Yes,
        (Hit::Maybe, _) | (_, Hit::Maybe) => Hit::Maybe,
        _ => Hit::No,
    }
}

/// Whether close >= base * (1 + th) (sign 1) or close <= base * (1 - th) (sign -1).
pub fn crossed(close: f64, base: f64, th: f64, sign: f64, rel: f64) -> Hit {
    let factor = 1.0 + sign * th;
    let level = base * factor;
    // Decided strictly where no rounding takes place.
    let exact = (factor - 1.0) * sign == th && base.mul_add(factor, -level) == 0.0;
    let d = (close - level) * sign;
    if !exact && d.abs() <= rel * (base.abs() + close.abs()) {
        return Hit::Maybe;
    }
    if d >= 0.0 {
        Hit::Yes
    } else {
        Hit::No
    }
}

pub struct SlRef {
    p: Value,
    base: f64,
    best_hi: f64,
    best_lo: f64,
    close: f64,
}

impl SlRef {
    pub fn new(p: &Value) -> Self {
        SlRef { p: p.clone(), base: f64::NAN, best_hi: f64::NAN, best_lo: f64::NAN, close: f64::NAN }
    }
    pub fn update(&mut self, c: &Candle) {
        self.close = c.close;
        self.best_hi = self.best_hi.max(c.close);
        self.best_lo = self.best_lo.min(c.close);
    }
    pub fn clear(&mut self, c: &Candle) {
        self.base = c.close;
        self.best_hi = c.close;
        self.best_lo = c.close;
    }
    pub fn hit(&self, long: bool) -> Hit {
        let one = |p: &Value, trail: bool| {
            let th = p[if long { "up_threshold" } else { "down_threshold" }].as_f64().unwrap();
            self.moved(long, trail, th)
        };
        match self.p["type"].as_str().unwrap() {
            "Basic" => one(&self.p, false),
            "Trailing" => one(&self.p, true),
            "BasicPlusTrailing" => or(one(&self.p["basic"], false), one(&self.p["trailing"], true)),
            "Legacy" => {
                let th = self.p["threshold"].as_f64().unwrap();
                if th == 0.0 {
                    Hit::No
                } else {
                    self.moved(long, self.p["trail"].as_bool().unwrap(), th)
                }
            }
            "Noop" => Hit::No,
            t => panic!("stop loss {t}"),
        }
    }
    fn moved(&self, long: bool, trail: bool, th: f64) -> Hit {
        let base = match (trail, long) {
            (false, _) => self.base,
            (true, true) => self.best_hi,
            (true, false) => self.best_lo,
        };
        crossed(self.close, base, th, if long { -1.0 } else { 1.0 }, 1e-12)
    }
}

pub struct TpRef {
    p: Value,
    base: f64,
    close: f64,
    adx: Option<Adx>,
    /// With whether they are exactly the minimal ones.
    locked: (f64, f64, bool),
}

impl TpRef {
    pub fn new(p: &Value) -> Self {
        let adx = (p["type"] == "Trending").then(|| Adx::new(p["period"].as_u64().unwrap() as u32));
        TpRef { p: p.clone(), base: f64::NAN, close: f64::NAN, adx, locked: (0.0, 0.0, false) }
    }
    fn thresholds(&self) -> (f64, f64, bool) {
        let e: Easing = serde_json::from_value(self.p["easing"].clone()).unwrap();
        let x = tween(self.adx.as_ref().unwrap().value / 100.0, e);
        let mix = |v: &Value| {
            let (a, b) = (v[0].as_f64().unwrap(), v[1].as_f64().unwrap());
            a + (b - a) * x
        };
        let exact = self.adx.as_ref().unwrap().value == 0.0 && self.p["easing"] == "Linear";
        (mix(&self.p["up_thresholds"]), mix(&self.p["down_thresholds"]), exact)
    }
    fn exact_tie(&self, long: bool) -> bool {
        let t = if self.p["lock_threshold"].as_bool().unwrap() { self.locked } else { self.thresholds() };
        t.2 && self.close == self.base * (1.0 + if long { t.0 } else { -t.1 })
    }
    pub fn update(&mut self, c: &Candle) {
        self.close = c.close;
        if let Some(a) = self.adx.as_mut() {
            a.update(c.high, c.low)
        }
    }
    pub fn clear(&mut self, c: &Candle) {
        self.base = c.close;
        if self.adx.is_some() {
            self.locked = self.thresholds();
        }
    }
    pub fn hit(&self, long: bool) -> Hit {
        let th = match self.p["type"].as_str().unwrap() {
            "Basic" => self.p[if long { "up_threshold" } else { "down_threshold" }].as_f64().unwrap(),
            "Legacy" => {
                let th = self.p["threshold"].as_f64().unwrap();
                if th == 0.0 {
                    return Hit::No;
                }
                th
            }
            "Noop" => return Hit::No,
            "Trending" => {
                let t = if self.p["lock_threshold"].as_bool().unwrap() { self.locked } else { self.thresholds() };
                let th = if long { t.0 } else { t.1 };
                if t.2 {
                    return crossed(self.close, self.base, th, if long { 1.0 } else { -1.0 }, 1e-12);
                }
                let level = self.base * (1.0 + if long { th } else { -th });
                let d = (self.close - level) * if long { 1.0 } else { -1.0 };
                let hit = if d.abs() <= 1e-9 * (self.base.abs() + self.close.abs()) {
                    Hit::Maybe
                } else if d > 0.0 {
                    Hit::Yes
                } else {
                    Hit::No
                };
                return hit;
            }
            t => panic!("take profit {t}"),
        };
        crossed(self.close, self.base, th, if long { 1.0 } else { -1.0 }, 1e-12)
    }
}

/// Drives the rules alone, with random position openings, which reaches far more threshold situations than backtests.
pub fn c06() -> ! {
    let spec = Spec::new("C06", 1_200_000, 24_000_000, "a rule object which triggered at least once while a position was open; distinct by (rule, sequence of hits)")
        .require(&["hits_stop_loss", "hits_take_profit", "decided_ties", "decided_Basic", "decided_Trailing", "decided_BasicPlusTrailing", "decided_Legacy", "decided_Noop", "decided_Trending", "trending_nonzero_adx", "trending_ties", "legacy_disabled", "reset_on_later_open", "long_histories"])
        .assume(&[
            "a close within rounding error of a threshold counts as either, unless the comparison is exact in binary",
            "the value of ADX and of the easing curves are those of the code under test (C18, C28)",
        ]);
    crate::case::run(spec, |case| {
        let long = chance(&mut case.rng, 0.001);
        case.count("long_histories", long as u64);
        let n = if long { case.rng.gen_range(500..3000) } else { case.rng.gen_range(10..120) };
        let gap = 0.0;
        let mut s = gen::series(&mut case.rng, n, gap);
        if chance(&mut case.rng, 0.35) {
            let start = start_time(&mut case.rng, DAY);
            s = series_with(&mut case.rng, n, DAY, Shape::Dyadic, start, 0.0);
        }
        let dyadic = s.shape == Shape::Dyadic;
        let slj = stop_loss(&mut case.rng, dyadic);
        let tpj = take_profit(&mut case.rng, dyadic);
        let slp: StopLossParams = serde_json::from_value(slj.clone()).unwrap();
        let tpp: TakeProfitParams = serde_json::from_value(tpj.clone()).unwrap();
        let (mut sl, mut tp) = (slp.construct(), tpp.construct());
        let (mut rs, mut rt) = (SlRef::new(&slj), TpRef::new(&tpj));
        let hold = pick(&mut case.rng, &[0.02, 0.1, 0.3]);
        let mut opens = 0;
        let mut sig: Vec<u8> = vec![];
        // None: flat. As in a backtest, the rules are cleared on every candle without a position.
        let mut side: Option<bool> = None;
        for (i, c) in s.candles.iter().enumerate() {
            sl.update(c);
            tp.update(c);
            rs.update(c);
            rt.update(c);
            if let Some(long) = side {
                let got_sl = if long { sl.upside_hit() } else { sl.downside_hit() };
                let got_tp = if long { tp.upside_hit() } else { tp.downside_hit() };
                for (what, got, want, p) in [("stop_loss", got_sl, rs.hit(long), &slj), ("take_profit", got_tp, rt.hit(long), &tpj)] {
                    let ty = p["type"].as_str().unwrap();
                    if want == Hit::Maybe {
                        case.count("ambiguous", 1);
                    } else {
                        case.count(&format!("decided_{ty}"), 1);
                        case.check(got == (want == Hit::Yes), &format!("{what}-{ty}"), || {
                            format!("{what} {p} says {got}, expected {want:?}: candle {i} close {}, long {long}, entry/best {} {} {}", c.close, rs.base, rs.best_hi, rs.best_lo)
                        });
                        if got {
                            case.count(&format!("hits_{what}"), 1);
                            if opens > 1 {
                                case.count("reset_on_later_open", 1);
                            }
                            sig.push(i as u8);
                        }
                    }
                }
                if dyadic && tpj["type"] == "Basic" {
                    let th = tpj[if long { "up_threshold" } else { "down_threshold" }].as_f64().unwrap();
                    if c.close == rs.base * (1.0 + if long { th } else { -th }) {
                        case.count("decided_ties", 1);
                    }
                }
                if dyadic && tpj["type"] == "Trending" && rt.exact_tie(long) {
                    case.count("trending_ties", 1);
                }
                if slj["type"] == "Legacy" && slj["threshold"] == json!(0.0) {
                    case.count("legacy_disabled", 1);
                }
                if rt.adx.as_ref().map_or(false, |a| a.value > 0.0) {
                    case.count("trending_nonzero_adx", 1);
                }
                if chance(&mut case.rng, hold) || got_sl || got_tp && case.rng.gen() {
                    side = None;
                }
            }
            if side.is_none() {
                if chance(&mut case.rng, 0.5) {
                    side = Some(case.rng.gen());
                    opens += 1;
                }
                sl.clear(c);
                tp.clear(c);
                rs.clear(c);
                rt.clear(c);
            }
        }
        if !sig.is_empty() {
            sig.push(slj["type"].as_str().unwrap().len() as u8);
            sig.push(tpj["type"].as_str().unwrap().len() as u8);
            case.nontrivial(&sig);
            case.sample(|| json!({"stop_loss": slj, "take_profit": tpj, "candles": n, "hits_at": sig}));
        }
        default_methods(case);
    })
}

/// The rules hold as well right after construction and with a huge ADX period.
fn default_methods(case: &mut Case) {
    if case.index % 64 != 0 {
        return;
    }
    let p: TakeProfitParams = serde_json::from_value(json!({"type": "Trending", "up_thresholds": [0.1, 0.2], "down_thresholds": [0.1, 0.2],
        "period": 1, "lock_threshold": true, "easing": "Linear"}))
    .unwrap();
    if let Err(e) = guard(|| {
        let mut t = p.construct();
        let c = gen::candle(&mut StdRng::seed_from_u64(1), 0, 1.0, 1.0, true);
        t.update(&c);
        t.clear(&c);
        t.update(&c);
        assert!(!t.upside_hit() && !t.downside_hit());
    }) {
        case.fail("trending-flat", e);
    }
}
