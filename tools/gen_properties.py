#!/usr/bin/env python3
"""Writes properties.jsonl. Kept as a script so that the wording lives in one readable place."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

TR = "juno/src/trading/traders.rs"; TM = "juno/src/trading/mod.rs"; EV = "juno/src/trading/evaluation.rs"
SC = "juno/src/statistics/core.rs"; SX = "juno/src/statistics/extended.rs"; SM = "juno/src/statistics/mod.rs"
BT = "juno_axum/src/routes/backtest.rs"; OP = "juno_axum/src/routes/optimize.rs"; EX = "juno_axum/src/exchange.rs"
CL = "juno/src/clients/juno_core.rs"; GA = "juno/src/genetics/algorithm.rs"
SUM = ["TradingSummary returned by trade()"]

prop("C01", "A backtest conserves quote money across all positions",
 """Starting from the initial quote, replaying the fills of the reported positions in order (a long pays its opening
 quote and receives its closing quote minus fee; a short receives its opening quote minus fee on top of its collateral and pays
 its closing quote) accounts for all the money: no position ever spends or pledges more than what its predecessors left, a short
 pledges all of it and a long buys the most that fits. The profits reported per position and in total, and the reported final gain,
 equal the change of that balance.""",
 ["inputs", "histories"], "every candle history, every trading parameters, fees, filters and starting quote",
 "The unit tests hold one hand-made summary of two longs; no test ties a run's money flows together, and none has shorts or fees.",
 [TR, TM, SC], [("quote bookkeeping on open and close", TR), ("LongPosition/ShortPosition cost, gain, profit", TM)],
 SUM + ["CoreStatistics", "PositionStatistics"], [dict(name="State.quote", meaning="quote balance of the run", where=TR)])
prop("C02", "Every fill obeys the exchange's size filter, precision and taker fee",
 """Every fill is priced at the close of the candle it happens on; a long's opening size is the largest the size filter allows for
 the available quote and its closing size the largest the filter allows for what was bought minus fee. Quote amounts are price times size
 rounded down to the quote precision, and fees are the taker rate rounded half up to the precision of the asset they are paid in: the base
 asset when buying, the quote asset when selling.""",
 ["inputs", "configurations"], "every candle history, quote amount, fee rate, size filter and asset precision",
 "No test looks at a fill made by trade(); filters and precision come from exchange data and vary per symbol.",
 [TR, "juno/src/filters.rs", "juno/src/math.rs"], [("round_down of sizes and quotes, round_half_up of fees", TR)], ["fills of every position of the TradingSummary"])
prop("C03", "Positions form a valid timeline and every one of them is closed",
 """Positions are reported in order, one at a time: each opens and closes at the end of some input candle, no earlier than the previous one
 closed, and does not close before it opened. A position still open at the last candle is closed there as cancelled, cancelled appears nowhere
 else, and longs or shorts never appear when that side is disabled. The reported period spans from the start of the first candle to the end of
 the last.""",
 ["inputs", "histories"], "every candle history including gaps, empty and single candle histories, and all combinations of long/short flags",
 "No test runs trade() and looks at times; gaps in candles and the end of data are never exercised.",
 [TR, TM], [("tick and the closing of the remaining position", TR)], SUM)
prop("C04", "Entries and exits follow the advice, stop loss and take profit exactly",
 """The side of the market changes exactly when it should: when flat, a newly given long (short) advice opens a position on an enabled side
 on that candle; a position closes on the first later candle with a newly given opposite or liquidate advice (reason Strategy), else with its stop
 loss hit, else with its take profit hit, checked in that order. An advice repeated without a different one in between is not new, so that a stopped
 out position is not re-entered on it, and an opposite advice opens the other side on the same candle.""",
 ["inputs", "histories"], "every candle history, strategy, stop loss, take profit and combination of enabled sides",
 "The tests of trading call trade() in a benchmark only; the order of checks and same-candle reversal depend on the history.",
 [TR, "juno/src/utils/changed.rs"], [("tick", TR), ("Changed filter", "juno/src/utils/changed.rs")], SUM + ["advice of a strategy instance driven with the same candles"])
prop("C05", "A backtest never uses information from the future",
 """What a backtest has done up to a candle depends only on candles up to it: running on a prefix of the history, or on a history whose later
 candles are different, gives the same positions up to that point, except that the one still open at the end of the prefix is closed there as
 cancelled.""",
 ["inputs", "histories"], "every history, every cut point, every change of later candles, every trading parameters",
 "It relates two executions; tests run one.", [TR, "juno/src/strategies", "juno/src/indicators", "juno/src/utils/buffered_candle.rs"],
 [("candle by candle update", TR)], SUM)
prop("C06", "Stop losses and take profits trigger exactly at their thresholds",
 """Relative to the close at which the position was opened, a basic or legacy stop loss triggers when the close has moved against the position by at
 least its threshold, a trailing one when it has moved so far from the best close since opening, basic plus trailing when either does, and a take
 profit when the close has moved in favour by at least its threshold; thresholds for longs and shorts are separate where configured separately, a
 legacy threshold of zero disables it, and noop never triggers. The trending take profit uses the interpolation from its min to its max threshold by the
 eased ADX/100, taken on every candle, or when the position opens if locked.""",
 ["inputs", "histories"], "every parameter set and every price path since entry, for both sides",
 "There are no tests of stop loss or take profit at all.",
 ["juno/src/stop_loss", "juno/src/take_profit", "juno/src/math.rs", "juno/src/easing.rs"],
 [("update/clear/upside_hit/downside_hit", "juno/src/stop_loss, juno/src/take_profit")], ["upside_hit and downside_hit after every candle"])
prop("C07", "Shorts borrow within limits and pay the right interest",
 """A short borrows the smaller of the borrow limit and (margin multiplier - 1) times the largest size the collateral could buy. On close it buys back
 what it borrowed plus interest (rate per started interest interval between open and close, rounded half up to the base precision) plus the base fee on
 that.""",
 ["inputs", "configurations"], "every history that produces shorts, every borrow limit, interest rate, interest interval, margin multiplier and precision",
 "No test opens a short.", [TR], [("try_open_short_position, close_short_position", TR)], ["short positions of the TradingSummary"])
prop("C08", "Parallel evaluation of a population equals evaluating each alone",
 """The fitness of an individual depends only on its chromosome and the market data: it is the same whatever the number of threads, the size and order of
 the population it is evaluated in, what was evaluated before, and whether other evaluations run at the same time.""",
 ["schedules", "inputs"], "every population, thread pool size and schedule",
 "Tests never evaluate a population, let alone on different pools.", [EV, TR], [("par_iter_mut over individuals", EV)], ["Individual.fitness after evaluate()"])
prop("C09", "An optimization with a given seed is exactly reproducible",
 """Two optimizations with the same seed, settings and market data give identical halls of fame in every generation, in the same or another process, with any
 number of threads. An optimization without a seed reports the one it used, and running again with it gives the same result.""",
 ["schedules", "inputs", "configurations"], "every seed, configuration, process and thread count",
 "Tests run in one process and never compare two runs; hash seeds differ per process.",
 [GA, "juno/src/genetics", "juno/src/easing.rs", EV], [("single StdRng seeded once; parallelism only in evaluation", GA)], ["Evolution.generations, Evolution.seed"])
prop("C10", "The hall of fame is the true ranking and never loses the best",
 """Evolving for N generations reports generations 0 to N, each once and in order, with a hall of fame of the configured size (at most the population's),
 sorted by fitness from best to worst, in which every individual has been evaluated and carries exactly the fitness the evaluation gives to its chromosome.
 In every generation each selected offspring is crossed with another one (a single offspring is not) and mutated before it is evaluated. With elite reinsertion the best individual ever evaluated stays at the top and the best fitness never decreases.""",
 ["inputs", "histories", "configurations"], "every fitness landscape (ties and negative values included), population and hall of fame size, seed and operator combination",
 "No test runs the genetic algorithm.", [GA, "juno/src/genetics/reinsertion.rs", "juno/src/genetics/selection.rs"],
 [("evaluate_and_sort_by_fitness_desc, reinsert", GA)], ["Generation.hall_of_fame", "on_generation callbacks", "calls of Evaluation::evaluate"])
prop("C11", "Optimization only produces usable parameters and respects pinned ones",
 """Every set of trading parameters which generation, crossover and mutation produce under a search context can be constructed and run. A parameter, component
 variant or candle interval fixed by the context keeps exactly that value in every individual of every generation, and other intervals than those listed are never used.""",
 ["inputs", "histories", "configurations"], "every context, seed and sequence of genetic operations",
 "The tests call generate, cross and mutate once on a small made-up struct.",
 ["juno_derive/src/macros/derive_chromosome.rs", "juno_derive/src/macros/derive_chromosome_enum.rs", TM, "juno/src/strategies", "juno/src/stop_loss", "juno/src/take_profit"],
 [("derived Chromosome and contexts", "juno_derive/src/macros")], ["TradingParams generated, crossed and mutated"])
prop("C12", "Crossover and mutation act on exactly the genes they should",
 """Crossing two chromosomes at a gene only exchanges that gene between them: nothing else changes, no value is lost or duplicated, doing it twice restores both, and
 every parameter belongs to some gene. Mutating a gene changes nothing outside it. Uniform crossover and mutation decide per gene, independently, with the
 configured probability, so that probability 0 changes nothing and 1 touches every gene.""",
 ["inputs"], "every pair of chromosomes, gene index, probability and random state",
 "The tests cover two hand-written structs and fixed indices.",
 ["juno_derive/src/macros/derive_chromosome.rs", "juno_derive/src/macros/derive_chromosome_enum.rs", "juno/src/genetics/crossover.rs", "juno/src/genetics/mutation.rs", TM],
 [("cross, mutate", "juno_derive/src/macros")], ["chromosomes before and after"])
prop("C13", "Selection and reinsertion keep the individuals they promise",
 """Selection yields floor(rate times parents) individuals: elite selection exactly the best parents, tournament selection the fittest of each random
 tournament, random selection fresh individuals. Reinsertion yields exactly the population size: elite keeps all offspring and fills up with the best parents and the
 configured share of fresh individuals, fitness keeps the best offspring, pure keeps the offspring; no individual is altered on the way.""",
 ["inputs", "configurations"], "every population, fitness distribution, rate and random state", "The operators have no tests.",
 ["juno/src/genetics/selection.rs", "juno/src/genetics/reinsertion.rs"], [("select, reinsert", "juno/src/genetics")], ["population before and after"])
prop("C14", "Core statistics restate the positions correctly",
 """All core statistics follow from the positions and the starting quote: profit, gain, return on investment (also annualized over the Gregorian year of 31556952 s),
 mean position profit and duration, max and mean drawdown of the quote balance after each position against its running peak, return over max drawdown (0 without a
 drawdown), and counts of positions in profit (zero included), in loss, stopped out and profit taken. The statistics of each position restate its cost, gain, profit, duration,
 return and close reason.""",
 ["inputs", "histories"], "every sequence of positions", "One test compares two implementations on one summary of two positions.", [SC, SM, "juno/src/math.rs"],
 [("CoreStatistics::compose, PositionStatistics::compose", SC)], ["CoreStatistics, PositionStatistics"])
prop("C15", "Fast fitness statistics equal the full ones and are always finite",
 """For every run the statistics computed on the fast path for optimization (profit, return over max drawdown, Sharpe and Sortino ratio) equal those of the full statistics,
 and they are finite numbers, including for runs without positions, without losses, without volatility, of a single day, or which lost everything.""",
 ["inputs"], "every run and price history", "One test on a summary with two positions and constant prices.", [SC, SX],
 [("get_profit, get_return_over_max_drawdown, get_sharpe_ratio, get_sortino_ratio", SX)], ["return values of both paths"])
prop("C16", "Sharpe and Sortino ratios come from the marked-to-market portfolio",
 """The annualized return and the Sharpe and Sortino ratios are those of the daily logarithmic returns of the portfolio: quote and base holdings after all trades up to and
 including that day, valued at that day's closing asset prices, the first value being the starting quote at the opening price, with base owed by an open short counted as
 negative. The ratios are 365 times the mean return over sqrt(365) times the standard deviation of all (Sharpe) or only negative (Sortino) returns, and 0 where that is not
 a finite number.""",
 ["inputs", "histories"], "every run, every price history of base and quote asset", "The only test compares the two code paths with constant prices of 1.", [SX, SM],
 [("get_asset_performance, calculate_statistics", SX)], ["ExtendedStatistics"])
prop("C17", "Fitness aggregates the chosen statistic over the training symbols",
 """The fitness of parameters is the sum over the training symbols of the aggregated value of the chosen statistic of a backtest on that symbol with its own candles, fees,
 filters and borrow info, long and short enabled: Linear adds the value v itself, Log10 adds log10(1+v) for v >= 0 and -10^(1-v) otherwise, Log10Factored does the same with 10v.
 It does not depend on the order of the symbols.""",
 ["inputs", "configurations"], "every set of symbols, statistic, aggregation and parameters", "There are no tests of evaluation.", [EV],
 [("evaluate_symbol and the aggregation functions", EV)], ["Individual.fitness"])
prop("C18", "Indicators equal their textbook definitions at every candle",
 """From maturity on, every indicator (SMA, EMA, EMA2, DEMA, SMMA, ALMA, KAMA, MACD, RSI, stochastic, DM, DI, DX, ADX) has the value of its textbook (Tulip Indicators) definition
 computed over the whole price history so far, for every period and however long the history.""",
 ["inputs", "histories"], "every price history and period", "The tests use one period and one price history of some dozen values per indicator, and none for SMMA and EMA2.",
 ["juno/src/indicators"], [("update", "juno/src/indicators")], ["indicator values after every update"])
prop("C19", "Indicators stay finite and in range and mature when they say",
 """Fed with any positive prices, flat stretches included, indicators never become NaN or infinite and stay in range: RSI, stochastic, DX, DI and ADX in 0 to 100, moving
 averages (other than DEMA) between the lowest and highest price seen, and equal to the price while it never changes. An indicator becomes mature exactly with the update its declared maturity says,
 and stays so.""",
 ["inputs", "histories"], "every positive price history and period", "The test data has no flat stretches and the tests do not look at maturity.",
 ["juno/src/indicators"], [("update, maturity, mature", "juno/src/indicators")], ["indicator values and mature() after every update"])
prop("C20", "Strategies advise by their rules, and only once mature",
 """A strategy gives no advice before all indicators it combines are mature. From then on its advice follows its rule on every candle: moving average crossings for single, double (also with thresholds in percent, and
 with stochastic confirmation) and triple moving averages, MACD against its signal line, channel breakouts for the four week rule, with the advice kept until the rule changes it;
 overbought and oversold states of RSI and stochastic compare against their thresholds.""",
 ["inputs", "histories"], "every strategy parameters and price history", "Each tested strategy has one parameter set and one price history.",
 ["juno/src/strategies"], [("update", "juno/src/strategies")], ["advice() after every candle"])
prop("C21", "Advice filters and their combination pass exactly what they should",
 """The changed filter passes an advice only when it differs from the last one passed; persistence passes one only after it was given unchanged for the configured number of further updates; mid
 trend with policy ignore holds back until the advice first changes and then passes everything; combining gives none if either is none, the common advice if equal and liquidate otherwise.
 Filtered signals (Sig, and SigOsc with its oscillator enforced or preventing) advise exactly the combination of mid trend and persistence of the underlying, oscillator-filtered advice.""",
 ["inputs", "histories"], "every sequence of advice, filter level and policy", "A few fixed sequences for changed, mid trend and persistence; none for Sig with filters.",
 ["juno/src/utils/changed.rs", "juno/src/utils/persistence.rs", "juno/src/utils/mid_trend.rs", "juno/src/utils/mod.rs", "juno/src/strategies/sig.rs", "juno/src/strategies/sig_osc.rs"],
 [("update, combine", "juno/src/utils")], ["advice after every update"])
prop("C22", "Buffering candles into a larger interval loses and invents nothing",
 """Buffering candles into a larger interval yields, in order and once each, one candle per completed larger interval that has any input: its time is the start of that interval (weeks start on Monday,
 months on the first), open is the first open, high and low the extremes, close the last close and volume the sum of exactly the candles inside. It is emitted on the candle that completes the interval, or on the first one after
 it if that is missing; without a larger interval candles pass through unchanged.""",
 ["inputs", "histories"], "every candle sequence with gaps (other than the rejected one where the first candle after a gap is the last of its interval), and pair of intervals",
 "Five fixed sequences of up to three candles.", ["juno/src/utils/buffered_candle.rs", "juno/src/primitives/timestamp.rs", "juno/src/lib.rs"], [("BufferedCandle::buffer", "juno/src/utils/buffered_candle.rs")], ["candles returned by buffer()"])
prop("C23", "Intervals and timestamps survive text and JSON; malformed text is rejected",
 """Formatting an interval or a timestamp and parsing it back gives the same value; JSON accepts both text and integer milliseconds, and the text form as keys of maps. Any text that is not a well formed interval or date, or does not fit the range, is
 rejected with an error: parsing never crashes and never yields a made-up value.""",
 ["inputs"], "every u64 interval, every timestamp from 1970 to 9999, every string", "A dozen fixed strings.", ["juno/src/primitives/interval.rs", "juno/src/primitives/timestamp.rs"],
 [("Display, FromStr, Deserialize", "juno/src/primitives")], ["parsed and formatted values"])
prop("C24", "Flooring, ceiling and decimal rounding obey the laws of rounding",
 """Flooring (ceiling) a timestamp gives the latest (earliest) boundary of the interval not after (before) it, with weeks starting on Monday and months on the first day at midnight UTC; both are idempotent and bracket the value by at most one interval.
 Rounding down to a number of decimals never exceeds the value and is less than one unit off, rounding half up is at most half a unit off, for every supported precision; multiples are exact over the full integer range.""",
 ["inputs"], "every timestamp from the first Monday of 1970 to 9999, interval up to a month, value and precision", "A handful of fixed values.", ["juno/src/primitives/timestamp.rs", "juno/src/primitives/interval.rs", "juno/src/math.rs"],
 [("floor, ceil", "juno/src/primitives/timestamp.rs"), ("round_down, round_half_up, *_multiple", "juno/src/math.rs")], ["return values"])
prop("C25", "Rounding to exchange filters yields the largest tradable amount",
 """Rounding a size or price down to a filter gives 0 if it is below the minimum, and otherwise the largest multiple of the step not above the value and the maximum, so never an amount
 above what was asked for, above the maximum, off the step or (other than 0) below the minimum; a maximum or step of 0 means there is none.""",
 ["inputs", "configurations"], "every filter and amount", "Filters have no tests.", ["juno/src/filters.rs"], [("Size::round_down, Price::round_down", "juno/src/filters.rs")], ["return values"])
prop("C26", "Span utilities partition time ranges exactly",
 """Merging adjacent spans covers the same points with the fewest spans in order; the missing spans of a range are exactly its points not in any existing span; paging covers a range that is a multiple of the interval in order
 without overlap, with no page of more than the limit.""",
 ["inputs"], "every range, ordered list of disjoint spans, interval and limit", "Two fixed examples.", ["juno/src/utils/mod.rs"], [("merge_adjacent_spans, generate_missing_spans, page", "juno/src/utils/mod.rs")], ["returned spans"])
prop("C27", "Trading parameters and summaries survive JSON and replay the same",
 """Any trading parameters written to JSON (as in an optimization result) and read back (as in a backtest request) are the same parameters (numbers up to the last digits a JSON parser may lose), and a backtest with them gives the same result; trading summaries survive JSON likewise, and optional fields left out
 take their defaults.""",
 ["inputs"], "every trading parameters that can be generated, every summary", "No test serializes any parameters.", [TM, "juno/src/strategies", "juno/src/stop_loss", "juno/src/take_profit", "juno/src/indicators/mod.rs"],
 [("serde derives, type tags", "juno/src")], ["JSON and results of replay"])
prop("C28", "Easing and interpolation hit their endpoints and shapes",
 """Every easing maps 0 to 0 and 1 to 1 and is the named curve: ease-in of a family mirrors its ease-out, in-out is point symmetric around one half, higher powers ease in slower, and all but elastic, back and bounce are monotonic, and all but elastic and back stay within 0 to 1. Linear
 interpolation gives its first value at 0, its second at 1 and moves proportionally in between; random choice reaches every easing.""",
 ["inputs"], "every easing and every progress value", "Easings have no tests, interpolation one at its midpoint.", ["juno/src/easing.rs", "juno/src/math.rs"], [("tween, lerp, gen_easing", "juno/src/easing.rs")], ["return values"])
prop("C29", "Symbols, name codes and iterator helpers are exact",
 """Splitting a symbol base-quote gives its two assets, which joined give it back, and listing the assets of symbols keeps base and quote in order; every moving average code is the checksum of its lowercase name and constructs that
 moving average; pairing neighbours yields each adjacent pair once in order, and the minimum and maximum are the true ones.""",
 ["inputs"], "every symbol, code, period and sequence", "A few fixed values; the lookup of moving averages by code has no test.", ["juno/src/primitives/symbol.rs", "juno/src/indicators/mod.rs", "juno/src/itertools.rs", "juno/src/math.rs"],
 [("assets, iter_assets, ma_from_adler32, pairwise, minmax", "juno/src")], ["return values"])
prop("S01", "A backtest request returns the statistics of each symbol's own data",
 """The response to a backtest request has exactly the requested symbols, each with the statistics the library computes for it from the candles, prices, fees, filters and borrow info the upstream service gave for that symbol, in whatever
 order and with whatever delays the upstream responses arrive.""",
 ["schedules", "inputs", "histories"], "every request, upstream data and order of upstream responses", "The server's routes have no tests; only the grouping helper has one.", [BT, EX, CL], [("gather_exchange_info_candles_prices, map_of_maps, par_backtest", EX)], ["HTTP responses of the running server"])
prop("S02", "An optimization response is consistent, replayable and reproducible",
 """In the response to an optimization request generations have their true numbers, starting with 0 and increasing, and appear only if they improve the hall of fame; every individual's fitness is the aggregated statistic of its training symbols, its statistics
 cover exactly the training and validation symbols and equal those of a backtest request with its parameters, and repeating the request with the reported seed gives the same response. Fixed search parameters are kept.""",
 ["schedules", "inputs", "configurations"], "every optimization request and upstream data", "The route has no tests.", [OP, EX, GA, EV], [("par_optimize", OP)], ["HTTP responses of the running server"])
prop("S03", "Upstream is asked for exactly what is needed; its failures surface as errors",
 """For a request the server asks the upstream service for exactly the exchange info, the candles of every distinct requested symbol and interval over the requested period, and the daily prices of all their assets and btc in usdt. If any of these fails (error status, malformed
 body, closed connection) the client gets a server error with a JSON message, which carries the upstream's message for a client error status, and never a result; the next request works again.""",
 ["fault_sequences", "schedules", "inputs"], "every kind of failure at every upstream call, in any combination and order", "No test has an upstream.", [EX, CL, "juno_axum/src/error.rs"], [("error_for_juno_status, try_join", CL)], ["HTTP responses of the running server", "requests received by a fake upstream"])
prop("S04", "Concurrent requests do not affect each other",
 """The response to a request is the same whether it is served alone or at the same time as any other backtest and optimization requests, failing ones included.""",
 ["schedules", "fault_sequences"], "every mix of concurrent requests and schedule", "No test sends a request.", [BT, OP, EX, CL], [("per-request data, shared client and thread pool", "juno_axum/src")], ["HTTP responses of the running server"])
prop("S05", "Every request gets an answer and none brings the server down",
 """Requests that are not valid (wrong method or path, malformed or incomplete JSON, wrong types, malformed intervals or dates, unknown variants) are refused with a client error status without asking upstream; ones that can't be computed (unknown symbols,
 missing exchange info, impossible sizes) get a server error with a JSON message. Afterwards the server still serves valid requests correctly.""",
 ["inputs", "fault_sequences"], "every request body and path", "No test sends a request.", ["juno_axum/src/main.rs", "juno_axum/src/error.rs", BT, OP, EX], [("axum extractors, Error, catching of panics", "juno_axum/src")], ["HTTP responses of the running server"])
prop("R01", "Shared state is free of data races and memory errors",
 """Evaluating populations, evolving and backtesting in parallel from many threads at once, whatever mix of strategies, stop losses and take profits they use, has no data race and no invalid memory access, and strategies, stop losses and take profits
 can be moved to and used from other threads.""",
 ["schedules", "inputs"], "every schedule of parallel evaluations", "Tests are sequential and uninstrumented; several strategies assert thread safety with unsafe impl.",
 [EV, "juno/src/strategies/single_ma.rs", "juno/src/strategies/double_ma.rs", "juno/src/strategies/double_ma_2.rs", "juno/src/strategies/triple_ma.rs", "juno/src/easing.rs"],
 [("unsafe impl Send/Sync; lazily initialised statics", "juno/src/strategies")], ["ThreadSanitizer and AddressSanitizer reports"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
