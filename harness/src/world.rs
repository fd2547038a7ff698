//! A market of several symbols with consistent exchange info, candles of several intervals and daily prices.
use crate::gen::*;
use juno::{
    genetics::{Chromosome, Evaluation, Individual},
    trading::{
        trade, BasicEvaluation, BasicEvaluationInput, EvaluationAggregation, EvaluationStatistic, TradeInput, TradingParams, TradingParamsContext, TradingSummary,
    },
    AssetInfo, BorrowInfo, Candle, ExchangeInfo, Fees, Filters, Interval, Timestamp,
};
use rand::prelude::*;
use std::collections::HashMap;

pub const SYMBOLS: [&str; 9] =
    ["eth-btc", "ltc-btc", "xrp-eth", "ada-usdt", "btc-usdt", "xrp-btc", "ada-eth", "ltc-usdt", "eth-usdt"];

pub struct World {
    pub symbols: Vec<String>,
    pub intervals: Vec<Interval>,
    pub info: ExchangeInfo,
    pub candles: HashMap<String, HashMap<Interval, Vec<Candle>>>,
    pub prices: HashMap<String, Vec<f64>>,
    pub start: u64,
    pub end: u64,
    pub quote: f64,
}

/// Aggregates candles of a finer interval, which start at a multiple of it.
fn coarser(fine: &[Candle], interval: u64, start: u64, end: u64) -> Vec<Candle> {
    let mut out: Vec<Candle> = vec![];
    let offset = if interval == WEEK { MONDAY } else { 0 };
    for c in fine {
        if c.time.0 < offset {
            continue;
        }
        let t = (c.time.0 - offset) / interval * interval + offset;
        // Only whole candles.
        if t < start || t + interval > end {
            continue;
        }
        match out.last_mut() {
            Some(l) if l.time.0 == t => {
                l.high = l.high.max(c.high);
                l.low = l.low.min(c.low);
                l.close = c.close;
                l.volume += c.volume;
            }
            _ => out.push(Candle { time: Timestamp(t), ..*c }),
        }
    }
    out
}

impl World {
    pub fn new(rng: &mut StdRng) -> World {
        let days = rng.gen_range(2..25usize);
        World::sized(rng, days)
    }

    pub fn sized(rng: &mut StdRng, days: usize) -> World {
        let start = start_day(rng) * DAY;
        let end = start + days as u64 * DAY;
        // Sums of many are sensitive to the order of summation.
        let k = if chance(rng, 0.25) { rng.gen_range(5..=SYMBOLS.len()) } else { rng.gen_range(1..=4) };
        let mut symbols: Vec<String> = SYMBOLS.choose_multiple(rng, k).map(|s| s.to_string()).collect();
        symbols.shuffle(rng);
        let mut ivs = vec![HOUR, 2 * HOUR, 4 * HOUR, 8 * HOUR, DAY];
        // Longer than the daily prices.
        ivs.extend([2 * DAY, 3 * DAY, WEEK].iter().filter(|i| **i * 3 <= days as u64 * DAY && chance(rng, 0.5)));
        ivs.shuffle(rng);
        let k = rng.gen_range(1..=3);
        let intervals: Vec<Interval> = ivs[..k].iter().map(|i| Interval(*i)).collect();
        let mut info = ExchangeInfo { assets: HashMap::new(), fees: HashMap::new(), filters: HashMap::new(), borrow_info: HashMap::new() };
        let mut candles = HashMap::new();
        let mut prices: HashMap<String, Vec<f64>> = HashMap::new();
        for a in ["eth", "btc", "ltc", "xrp", "ada", "usdt"] {
            info.assets.insert(a.into(), AssetInfo { precision: 8 });
            let shape = if chance(rng, 0.1) { Shape::Flat } else { Shape::Walk };
            prices.insert(a.into(), closes(rng, days + 1, shape));
        }
        let quote = log_uniform(rng, 0.5, 1000.0);
        for s in &symbols {
            let base = s.split('-').next().unwrap();
            let shape = pick(rng, &SHAPES);
            let n = days * 24;
            let gap = pick(rng, &[0.0, 0.0, 0.01]);
            let mut fine = series_with(rng, n, HOUR, shape, start, gap).candles;
            fine.retain(|c| c.time.0 < end);
            if fine.is_empty() {
                fine = series_with(rng, n, HOUR, shape, start, 0.0).candles;
            }
            let m = market(rng);
            let mut f: Filters = m.filters;
            // Affordable for most.
            let first = fine[0].open;
            if f.size.min * first > quote || f.size.step * first > quote {
                f.size.step = 0.0;
                f.size.min = 0.0;
                f.size.max = 0.0;
            }
            info.fees.insert(s.clone(), m.fees);
            info.filters.insert(s.clone(), f);
            let mut b: HashMap<String, BorrowInfo> = HashMap::new();
            b.insert(base.into(), m.borrow);
            // Another asset's terms must not be used.
            b.insert("usdc".into(), BorrowInfo { interest_interval: 1, interest_rate: 0.5, limit: 1e-3 });
            info.borrow_info.insert(s.clone(), b);
            let per: HashMap<Interval, Vec<Candle>> = intervals.iter().map(|i| (*i, coarser(&fine, i.0, start, end))).collect();
            candles.insert(s.clone(), per);
        }
        World { symbols, intervals, info, candles, prices, start, end, quote }
    }

    pub fn context(&self) -> TradingParamsContext {
        let mut c = TradingParamsContext::default();
        c.trader.intervals = self.intervals.clone();
        c
    }

    /// Half of them with short periods, which trade on short histories.
    pub fn chromosome(&self, rng: &mut StdRng) -> TradingParams {
        if chance(rng, 0.3) {
            return TradingParams::generate(rng, &self.context());
        }
        let i = self.intervals[rng.gen_range(0..self.intervals.len())].0;
        let pmax = pick(rng, &[3, 6, 12]);
        parse_trading(&trading(rng, i, pmax, false))
    }

    pub fn evaluation(&self, training: &[String], stat: EvaluationStatistic, agg: EvaluationAggregation) -> BasicEvaluation {
        BasicEvaluation::new(&BasicEvaluationInput {
            exchange_info: &self.info,
            candles: &self.candles,
            prices: &self.prices,
            symbols: training,
            intervals: &self.intervals,
            start: Timestamp(self.start),
            end: Timestamp(self.end),
            quote: self.quote,
            evaluation_statistic: stat,
            evaluation_aggregation: agg,
        })
    }

    pub fn evaluate(&self, training: &[String], stat: EvaluationStatistic, agg: EvaluationAggregation, pop: &[TradingParams]) -> Vec<f64> {
        run_evaluation(&self.evaluation(training, stat, agg), pop)
    }

    pub fn backtest(&self, symbol: &str, p: &TradingParams) -> TradingSummary {
        let base = symbol.split('-').next().unwrap();
        let fees: &Fees = &self.info.fees[symbol];
        trade(
            p,
            &TradeInput {
                candles: &self.candles[symbol][&p.trader.interval],
                fees,
                filters: &self.info.filters[symbol],
                borrow_info: &self.info.borrow_info[symbol][base],
                margin_multiplier: 2,
                quote: self.quote,
                long: true,
                short: true,
            },
        )
    }
}

pub fn run_evaluation(e: &BasicEvaluation, pop: &[TradingParams]) -> Vec<f64> {
    let mut inds: Vec<Individual<TradingParams>> = pop.iter().map(|c| Individual { chromosome: *c, fitness: f64::MIN }).collect();
    e.evaluate(&mut inds);
    inds.iter().map(|i| i.fitness).collect()
}
