//! S06: the client library against a fake upstream.
use crate::case::*;
use crate::gen::*;
use crate::net::*;
use crate::server::{fault, near};
use crate::world::World;
use juno::clients::juno_core::{Client, Error, GetExchangeInfo, ListCandles, MapAssetPrices};
use juno::{Candle, CandleType, ExchangeInfo, Interval, Timestamp};
use rand::prelude::*;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::net::TcpListener;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex, OnceLock};

/// A call of one of the client's methods.
#[derive(Clone, Debug)]
enum Call {
    Info,
    Candles(String, u64, u64, u64, bool),
    Filled(String, u64, u64, u64, bool),
    Intervals,
    Prices(Vec<String>, u64, u64, u64, String),
}
use Call::*;

/// What a call returned, with the data back as JSON.
#[derive(Debug)]
enum Outcome {
    Data(Value),
    Api(u16, String, String),
    Failed(String),
}

fn outcome<T: Serialize>(r: Result<T, Error>) -> Outcome {
    match r {
        Ok(v) => Outcome::Data(serde_json::from_str(&serde_json::to_string(&v).unwrap()).unwrap()),
        Err(Error::Api { status, url, message }) => Outcome::Api(status.as_u16(), url.path().to_string(), message),
        Err(e) => Outcome::Failed(e.to_string()),
    }
}

fn type_of(heikin_ashi: bool) -> CandleType {
    if heikin_ashi {
        CandleType::HeikinAshi
    } else {
        CandleType::Regular
    }
}

impl Call {
    fn path(&self) -> &'static str {
        match self {
            Info => "/exchange_info",
            Candles(..) => "/candles",
            Filled(..) => "/candles_fill_missing_with_none",
            Intervals => "/candle_intervals",
            Prices(..) => "/prices",
        }
    }

    /// The request upstream has to receive, with times as milliseconds.
    fn request(&self, exchange: &str) -> Value {
        match self {
            Info | Intervals => json!({ "exchange": exchange }),
            Candles(s, i, a, b, h) | Filled(s, i, a, b, h) => {
                json!({"exchange": exchange, "symbol": s, "interval": i, "start": a, "end": b, "type_": if *h { "heikin-ashi" } else { "regular" }})
            }
            Prices(assets, i, a, b, t) => json!({"exchange": exchange, "assets": assets, "interval": i, "start": a, "end": b, "target_asset": t}),
        }
    }

    /// What the genuine answer says.
    fn expected(&self, e: &Exchange) -> Value {
        let read = |v: &Value| -> Value { serde_json::to_value(serde_json::from_str::<Candle>(&v.to_string()).unwrap()).unwrap() };
        let all = |s: &String, i: &u64, a: &u64, b: &u64| -> BTreeMap<u64, Value> {
            e.candles[s][i].as_array().unwrap().iter().map(|c| (ms(&c["time"]).unwrap(), read(c))).filter(|(t, _)| within(*t, *i, *a, *b)).collect()
        };
        match self {
            Info => serde_json::to_value(serde_json::from_str::<ExchangeInfo>(&e.info.to_string()).unwrap()).unwrap(),
            Intervals => {
                let mut ivs: Vec<u64> = e.candles.values().flat_map(|c| c.keys().copied()).collect();
                ivs.sort();
                ivs.dedup();
                json!(ivs)
            }
            Candles(s, i, a, b, _) => json!(all(s, i, a, b).values().collect::<Vec<_>>()),
            Filled(s, i, a, b, _) => {
                let c = all(s, i, a, b);
                json!((*a..*b).step_by(*i as usize).map(|t| c.get(&t).cloned().unwrap_or(Value::Null)).collect::<Vec<_>>())
            }
            Prices(assets, ..) => json!(assets.iter().map(|a| (a.clone(), e.prices[a].clone())).collect::<HashMap<_, _>>()),
        }
    }

    async fn run(self, client: Arc<Client>, exchange: String) -> Outcome {
        let exchange = exchange.as_str();
        match self {
            Info => outcome(client.get_exchange_info(GetExchangeInfo { exchange }).await),
            Intervals => outcome(client.list_candle_intervals(GetExchangeInfo { exchange }).await),
            Candles(symbol, i, a, b, h) => {
                let r = ListCandles { exchange, symbol: &symbol, interval: Interval(i), start: Timestamp(a), end: Timestamp(b), type_: type_of(h) };
                outcome(client.list_candles(r).await)
            }
            Filled(symbol, i, a, b, h) => {
                let r = ListCandles { exchange, symbol: &symbol, interval: Interval(i), start: Timestamp(a), end: Timestamp(b), type_: type_of(h) };
                outcome(client.list_candles_fill_missing_with_none(r).await)
            }
            Prices(assets, i, a, b, target_asset) => {
                let assets: Vec<&str> = assets.iter().map(String::as_str).collect();
                let r = MapAssetPrices { exchange, assets: &assets, interval: Interval(i), start: Timestamp(a), end: Timestamp(b), target_asset: &target_asset };
                outcome(client.map_asset_prices(r).await)
            }
        }
    }
}

fn call(rng: &mut StdRng, w: &World) -> Call {
    let s = w.symbols.choose(rng).unwrap().clone();
    let i = w.intervals.choose(rng).unwrap().0;
    let n = (w.end - w.start) / i;
    // A part of the history at times.
    let (a, b) = if chance(rng, 0.5) { (0, n) } else { let a = rng.gen_range(0..n); (a, rng.gen_range(a..=n)) };
    let (a, b) = (w.start + a * i, w.start + b * i);
    let h = chance(rng, 0.3);
    match rng.gen_range(0..12) {
        0 | 1 => Info,
        2 => Intervals,
        3 | 4 | 5 => Candles(s, i, a, b, h),
        6 | 7 | 8 => Filled(s, i, a, b, h),
        _ => {
            let mut assets: Vec<String> = w.prices.keys().cloned().collect();
            assets.sort();
            assets.shuffle(rng);
            assets.truncate(rng.gen_range(0..=assets.len()));
            Prices(assets, pick(rng, &[HOUR, DAY]), a, b, pick(rng, &["usdt", "btc", "eur"]).to_string())
        }
    }
}

/// Times of a recorded request as milliseconds, however they were written.
fn normal(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(o) = v.as_object_mut() {
        for k in ["interval", "start", "end"] {
            if let Some(m) = o.get(k).and_then(ms) {
                o.insert(k.into(), json!(m));
            }
        }
    }
    v
}

fn upstream() -> String {
    static URL: OnceLock<String> = OnceLock::new();
    URL.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("a port for the upstream");
        let url = format!("http://{}", l.local_addr().unwrap());
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                std::thread::spawn(move || serve_upstream(s));
            }
        });
        url
    })
    .clone()
}

pub fn s06() {
    for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    let spec = Spec::new("S06", 2_000, 60_000, "a batch of calls answered, some of them with faults injected; distinct by the calls, the faults and the outcomes")
        .threads(6)
        .level("fault_enumeration")
        .require(&[
            "exchange_info", "candles", "candles_fill_missing_with_none", "candle_intervals", "prices", "gaps", "heikin_ashi", "candles_returned", "api_errors", "other_errors",
            "client_error", "client_error_without_message", "server_error", "malformed", "wrong_shape", "truncated", "closed", "error_status_with_data", "shared_client", "overlapping_calls",
        ]);
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().expect("runtime");
    let url = upstream();
    let shared = Arc::new(Client::new(&url));
    let code = run_code2(
        spec,
        |c| {
            let rng = &mut c.rng.clone();
            // A client of its own has no pooled connections.
            let own = chance(rng, 0.1);
            let client = if own { Arc::new(Client::new(&url)) } else { shared.clone() };
            c.count("shared_client", !own as u64);
            let days = rng.gen_range(2..8);
            let w = World::sized(rng, days);
            let delay = pick(rng, &[0, 1, 3]);
            let n = rng.gen_range(1..10usize);
            // Every call has its own exchange of the same data, so that its fault is its own.
            struct One {
                call: Call,
                name: String,
                ex: Arc<Mutex<Exchange>>,
                fault: Option<(Fault, &'static str, Option<String>)>,
            }
            let mut calls = vec![];
            for k in 0..n {
                let call = call(rng, &w);
                let name = format!("s06-{:016x}-{k}", c.seed);
                let mut e = Exchange::of(&w, rng.gen(), delay);
                let f = chance(rng, 0.4).then(|| fault(rng, &name));
                if let Some((f, kind, _)) = &f {
                    e.faults = vec![(call.path().to_string(), None, f.clone())];
                    c.count(kind, 1);
                }
                c.count(&call.path()[1..], 1);
                calls.push(One { call, ex: register(&name, e), name, fault: f });
            }
            let outcomes: Vec<Outcome> = if chance(rng, 0.7) {
                c.count("overlapping_calls", (n > 1) as u64);
                let tasks: Vec<_> = calls.iter().map(|o| runtime.spawn(o.call.clone().run(client.clone(), o.name.clone()))).collect();
                runtime.block_on(async {
                    let mut out = vec![];
                    for t in tasks {
                        out.push(t.await.unwrap_or_else(|e| Outcome::Failed(format!("panic: {e}"))));
                    }
                    out
                })
            } else {
                calls.iter().map(|o| runtime.block_on(o.call.clone().run(client.clone(), o.name.clone()))).collect()
            };
            let mut sig = vec![];
            for (o, out) in calls.iter().zip(&outcomes) {
                let e = o.ex.lock().unwrap();
                let what = || format!("{:?} of {} with fault {:?}", o.call, o.name, o.fault);
                let want = o.call.request(&o.name);
                // A dropped connection may be retried, but only with the same request.
                let retry = matches!(o.fault, Some((Fault::Close | Fault::Truncated, ..)));
                let right = e.calls.iter().all(|(p, v)| p == o.call.path() && normal(v) == want);
                c.check(right && (e.calls.len() == 1 || retry && !e.calls.is_empty()), "request", || format!("upstream got {:?} instead of {} {want} for {}", e.calls, o.call.path(), what()));
                if let Candles(.., true) | Filled(.., true) = o.call {
                    c.count("heikin_ashi", 1);
                }
                match (&o.fault, out) {
                    (None, Outcome::Data(v)) => {
                        let want = o.call.expected(&e);
                        let bad = near(v, &want, 1e-12, "");
                        c.check(bad.is_none(), "data", || format!("{} for {}", bad.unwrap(), what()));
                        if let (Candles(..) | Filled(..), Some(a)) = (&o.call, v.as_array()) {
                            c.count("candles_returned", a.len() as u64);
                            c.count("gaps", a.iter().filter(|c| c.is_null()).count() as u64);
                        }
                        sig.push(hash(&v.to_string()));
                    }
                    (None, out) => c.fail("no data", format!("{out:?} for {}", what())),
                    (Some(_), Outcome::Data(v)) => c.fail("error ignored", format!("{} returned for {}", v.to_string().chars().take(200).collect::<String>(), what())),
                    (Some((Fault::Status(code, _), _, Some(m))), out) => {
                        c.count("api_errors", 1);
                        let right = matches!(out, Outcome::Api(s, p, msg) if s == code && p == o.call.path() && msg == m);
                        c.check(right, "api error", || format!("{out:?} for {}", what()));
                        sig.push(hash(&(code, o.call.path())));
                    }
                    (Some((f, kind, _)), out) => {
                        c.count("other_errors", 1);
                        // Not an upstream's message where there was none.
                        let right = match out {
                            // Data which is a list of one text can be read as a message.
                            Outcome::Api(s, ..) => matches!(f, Fault::Genuine(code) if code == s),
                            Outcome::Failed(m) => !m.is_empty() && !m.starts_with("panic"),
                            Outcome::Data(_) => unreachable!(),
                        };
                        c.check(right, "error", || format!("{out:?} for {}", what()));
                        sig.push(hash(&(kind, o.call.path(), matches!(f, Fault::Genuine(_)))));
                    }
                }
            }
            for o in &calls {
                unregister(&o.name);
            }
            c.nontrivial(&sig);
            c.sample(|| json!({"calls": calls.iter().map(|o| format!("{:?} {:?}", o.call, o.fault)).collect::<Vec<_>>()}));
        },
        |c| {
            c.count("upstream_calls", SERVED.load(Ordering::SeqCst));
            let st = strangers().lock().unwrap();
            c.check(st.is_empty(), "request", || format!("calls for no known exchange: {:?}", st[0]));
        },
    );
    std::process::exit(code)
}
