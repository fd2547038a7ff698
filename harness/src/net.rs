//! The real server (juno_axum) as a child process, a fake upstream service in front of it, and a small HTTP client.
use crate::case::*;
use crate::world::World;
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const UPSTREAM: &str = "127.0.0.1:3030";
pub const SERVER: &str = "127.0.0.1:4040";

#[derive(Clone, Debug)]
pub enum Fault {
    /// Error status with a body.
    Status(u16, String),
    /// Error status with the very data as body.
    Genuine(u16),
    /// Status 200 with this body instead of the data.
    Body(String),
    /// A response which ends before its declared length.
    Truncated,
    /// The connection is closed instead of a response.
    Close,
}

pub struct Exchange {
    pub info: Value,
    pub candles: HashMap<String, HashMap<u64, Value>>,
    pub prices: HashMap<String, Vec<f64>>,
    /// The day of the first price, where those of a part are asked for.
    pub start: Option<u64>,
    /// Path, symbol and interval (for candles) of calls which fail.
    pub faults: Vec<(String, Option<(String, u64)>, Fault)>,
    pub max_delay_ms: u64,
    pub calls: Vec<(String, Value)>,
    pub delays: StdRng,
}

fn registry() -> &'static Mutex<HashMap<String, Arc<Mutex<Exchange>>>> {
    static R: OnceLock<Mutex<HashMap<String, Arc<Mutex<Exchange>>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}
pub fn strangers() -> &'static Mutex<Vec<String>> {
    static R: OnceLock<Mutex<Vec<String>>> = OnceLock::new();
    R.get_or_init(Default::default)
}
pub static SERVED: AtomicU64 = AtomicU64::new(0);
pub static RUNNING: AtomicU64 = AtomicU64::new(0);
pub static OVERLAPPING: AtomicU64 = AtomicU64::new(0);

/// Whether a candle is entirely within the span, as upstream is assumed to understand it.
pub fn within(time: u64, interval: u64, a: u64, b: u64) -> bool {
    a <= time && time + interval <= b
}

pub fn register(name: &str, e: Exchange) -> Arc<Mutex<Exchange>> {
    let e = Arc::new(Mutex::new(e));
    registry().lock().unwrap().insert(name.to_string(), e.clone());
    e
}
/// Exchanges which are no longer in use, but may still be asked for by a request which has already been answered.
fn retired() -> &'static Mutex<HashSet<String>> {
    static R: OnceLock<Mutex<HashSet<String>>> = OnceLock::new();
    R.get_or_init(Default::default)
}
pub fn unregister(name: &str) {
    retired().lock().unwrap().insert(name.to_string());
    registry().lock().unwrap().remove(name);
}

impl Exchange {
    pub fn of(w: &World, seed: u64, max_delay_ms: u64) -> Exchange {
        Exchange {
            info: serde_json::to_value(&w.info).unwrap(),
            candles: w
                .candles
                .iter()
                .map(|(s, per)| (s.clone(), per.iter().map(|(i, c)| (i.0, serde_json::to_value(c).unwrap())).collect()))
                .collect(),
            prices: w.prices.clone(),
            start: None,
            faults: vec![],
            max_delay_ms,
            calls: vec![],
            delays: StdRng::seed_from_u64(seed),
        }
    }

    fn answer(&mut self, path: &str, req: &Value) -> Result<String, Fault> {
        self.calls.push((path.to_string(), req.clone()));
        let key = || Some((req["symbol"].as_str()?.to_string(), ms(&req["interval"])?));
        let fault = self.faults.iter().find(|(p, k, _)| p == path && (k.is_none() || *k == key())).map(|(_, _, f)| f.clone());
        match fault {
            Some(Fault::Genuine(code)) => return Err(Fault::Status(code, self.data(path, req).unwrap_or_default())),
            Some(f) => return Err(f),
            None => {}
        }
        self.data(path, req)
    }

    fn data(&self, path: &str, req: &Value) -> Result<String, Fault> {
        let key = || Some((req["symbol"].as_str()?.to_string(), ms(&req["interval"])?));
        let bad = |m: &str| Err(Fault::Status(400, json!({ "message": m }).to_string()));
        match path {
            "/exchange_info" => Ok(self.info.to_string()),
            "/candle_intervals" => {
                let mut ivs: Vec<u64> = self.candles.values().flat_map(|c| c.keys().copied()).collect();
                ivs.sort();
                ivs.dedup();
                // As text or as numbers.
                Ok(json!(ivs.iter().map(|i| if i % 2 == self.max_delay_ms % 2 { json!(i) } else { json!(crate::text::interval_text(*i)) }).collect::<Vec<_>>()).to_string())
            }
            "/candles" | "/candles_fill_missing_with_none" => {
                let Some((s, i)) = key() else { return bad("bad candle request") };
                let Some(c) = self.candles.get(&s).and_then(|c| c.get(&i)) else { return bad("no such candles") };
                let (Some(a), Some(b)) = (ms(&req["start"]), ms(&req["end"])) else { return bad("bad span") };
                let c: Vec<&Value> = c.as_array().unwrap().iter().filter(|c| within(ms(&c["time"]).unwrap(), i, a, b)).collect();
                if path == "/candles" {
                    return Ok(serde_json::to_string(&c).unwrap());
                }
                let by_time: HashMap<u64, &Value> = c.iter().map(|c| (ms(&c["time"]).unwrap(), *c)).collect();
                let all: Vec<Value> = (a..b).step_by(i as usize).map(|t| by_time.get(&t).map_or(Value::Null, |c| (*c).clone())).collect();
                Ok(json!(all).to_string())
            }
            "/prices" => {
                let Some(assets) = req["assets"].as_array() else { return bad("no assets") };
                let mut out = serde_json::Map::new();
                for a in assets {
                    let Some(p) = a.as_str().and_then(|a| self.prices.get(a)) else { return bad("unknown asset") };
                    let part = match (self.start, ms(&req["start"]), ms(&req["end"])) {
                        (Some(s), Some(a), Some(b)) => days_of(p, s, a, b),
                        _ => p,
                    };
                    out.insert(a.as_str().unwrap().into(), json!(part));
                }
                Ok(Value::Object(out).to_string())
            }
            _ => bad("unknown path"),
        }
    }
}

/// The opening price of the day of a, and the closing prices up to b.
pub fn days_of(p: &[f64], start: u64, a: u64, b: u64) -> &[f64] {
    let i = |t: u64| (t.saturating_sub(start) / 86_400_000) as usize;
    if i(a) <= i(b) && i(b) < p.len() { &p[i(a)..=i(b)] } else { p }
}

/// Milliseconds of a number or of text in any accepted form.
pub fn ms(v: &Value) -> Option<u64> {
    v.as_u64().or_else(|| {
        let s = v.as_str()?;
        serde_json::from_value::<juno::Timestamp>(json!(s)).ok().map(|t| t.0).or_else(|| serde_json::from_value::<juno::Interval>(json!(s)).ok().map(|i| i.0))
    })
}

fn read_message(s: &mut TcpStream) -> Option<(String, HashMap<String, String>, Vec<u8>)> {
    let mut buf = vec![];
    let mut chunk = [0u8; 65536];
    let head_end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        let n = s.read(&mut chunk).ok()?;
        if n == 0 {
            return None;
        }
        buf.extend_from_slice(&chunk[..n]);
    };
    let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
    let mut lines = head.split("\r\n");
    let first = lines.next()?.to_string();
    let headers: HashMap<String, String> =
        lines.filter_map(|l| l.split_once(':').map(|(k, v)| (k.trim().to_lowercase(), v.trim().to_string()))).collect();
    let mut body = buf[head_end + 4..].to_vec();
    if let Some(len) = headers.get("content-length").and_then(|l| l.parse::<usize>().ok()) {
        while body.len() < len {
            let n = s.read(&mut chunk).ok()?;
            if n == 0 {
                return None;
            }
            body.extend_from_slice(&chunk[..n]);
        }
        body.truncate(len);
    } else if headers.get("transfer-encoding").map_or(false, |t| t.contains("chunked")) {
        while !body.ends_with(b"0\r\n\r\n") {
            let n = s.read(&mut chunk).ok()?;
            if n == 0 {
                return None;
            }
            body.extend_from_slice(&chunk[..n]);
        }
        let mut out = vec![];
        let mut rest = &body[..];
        while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..i]).ok()?.split(';').next()?.trim(), 16).ok()?;
            if n == 0 {
                break;
            }
            out.extend_from_slice(rest.get(i + 2..i + 2 + n)?);
            rest = rest.get(i + 4 + n..)?;
        }
        body = out;
    } else if first.starts_with("HTTP/") && headers.get("connection").map_or(false, |c| c == "close") {
        while let Ok(n) = s.read(&mut chunk) {
            if n == 0 {
                break;
            }
            body.extend_from_slice(&chunk[..n]);
        }
    }
    Some((first, headers, body))
}

pub fn serve_upstream(mut s: TcpStream) {
    let _ = s.set_read_timeout(Some(Duration::from_secs(120)));
    let _ = s.set_nodelay(true);
    // Kept alive, as the client pools its connections.
    while let Some((first, _, body)) = read_message(&mut s) {
        let path = first.split(' ').nth(1).unwrap_or("").to_string();
        let method = first.split(' ').next().unwrap_or("").to_string();
        let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let ex = req["exchange"].as_str().and_then(|e| registry().lock().unwrap().get(e).cloned());
        let Some(ex) = ex else {
            if !req["exchange"].as_str().map_or(false, |e| retired().lock().unwrap().contains(e)) {
                strangers().lock().unwrap().push(format!("{first} {req}"));
            }
            let b = r#"{"message":"unknown exchange"}"#;
            let _ = s.write_all(format!("HTTP/1.1 404 Not Found\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{b}", b.len()).as_bytes());
            continue;
        };
        if RUNNING.fetch_add(1, Ordering::SeqCst) > 0 {
            OVERLAPPING.fetch_add(1, Ordering::SeqCst);
        }
        let (delay, res, close) = {
            let mut e = ex.lock().unwrap();
            let max = e.max_delay_ms;
            let d = if max == 0 { 0 } else { e.delays.gen_range(0..=max * 1000) };
            let path = if method == "POST" { path.clone() } else { format!("{method} {path}") };
            let close = e.delays.gen_range(0..10) == 0;
            (d, e.answer(&path, &req), close)
        };
        std::thread::sleep(Duration::from_micros(delay));
        SERVED.fetch_add(1, Ordering::SeqCst);
        RUNNING.fetch_sub(1, Ordering::SeqCst);
        let conn = if close { "connection: close\r\n" } else { "" };
        let send = |s: &mut TcpStream, status: u16, body: &str, len: usize| {
            let head = format!("HTTP/1.1 {status} Status\r\ncontent-type: application/json\r\n{conn}content-length: {len}\r\n\r\n");
            s.write_all(head.as_bytes()).and_then(|_| s.write_all(body.as_bytes())).is_ok()
        };
        let ok = match res {
            Ok(b) => send(&mut s, 200, &b, b.len()) && !close,
            Err(Fault::Status(code, b)) => send(&mut s, code, &b, b.len()) && !close,
            Err(Fault::Body(b)) => send(&mut s, 200, &b, b.len()) && !close,
            Err(Fault::Genuine(_)) => false,
            Err(Fault::Truncated) => {
                send(&mut s, 200, "{\"assets\": {", 5000);
                false
            }
            Err(Fault::Close) => false,
        };
        if !ok {
            let _ = s.shutdown(Shutdown::Both);
            return;
        }
    }
}

pub struct Server {
    child: Mutex<Child>,
}

fn inconclusive(msg: String) -> ! {
    println!("INCONCLUSIVE: {msg}");
    std::process::exit(2)
}

impl Server {
    /// Builds the server from the repository, starts it and the fake upstream. One at a time (check.sh takes a lock).
    pub fn start() -> Server {
        let target = verif_dir().join("target/axum");
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "-q", "-p", "juno_axum", "--manifest-path"])
            .arg(repo_dir().join("Cargo.toml"))
            .arg("--target-dir")
            .arg(&target)
            .env("CARGO_PROFILE_DEV_OPT_LEVEL", "1")
            .env("CARGO_PROFILE_DEV_DEBUG", "0")
            .env("CARGO_PROFILE_DEV_INCREMENTAL", "false")
            .env_remove("CARGO_TARGET_DIR")
            .output()
            .unwrap_or_else(|e| inconclusive(format!("cargo: {e}")));
        if !out.status.success() {
            inconclusive(format!("the server does not build: {}", String::from_utf8_lossy(&out.stderr)));
        }
        let listener = TcpListener::bind(UPSTREAM).unwrap_or_else(|e| inconclusive(format!("port of the upstream: {e}")));
        std::thread::spawn(move || {
            for s in listener.incoming().flatten() {
                std::thread::spawn(move || serve_upstream(s));
            }
        });
        if TcpStream::connect(SERVER).is_ok() {
            inconclusive(format!("something else is listening on {SERVER}"));
        }
        let mut cmd = Command::new(target.join("debug/juno_axum"));
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env("RUST_LOG", "error");
        for k in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
            cmd.env_remove(k);
        }
        let child = cmd.spawn().unwrap_or_else(|e| inconclusive(format!("the server does not start: {e}")));
        let s = Server { child: Mutex::new(child) };
        let t = Instant::now();
        while TcpStream::connect(SERVER).is_err() {
            if t.elapsed() > Duration::from_secs(60) || !s.alive() {
                s.stop();
                inconclusive("the server does not listen".into());
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        s
    }
    pub fn alive(&self) -> bool {
        matches!(self.child.lock().unwrap().try_wait(), Ok(None))
    }
    pub fn stop(&self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
    pub fn rss_kb(&self) -> u64 {
        let pid = self.child.lock().unwrap().id();
        std::fs::read_to_string(format!("/proc/{pid}/status"))
            .ok()
            .and_then(|s| s.lines().find(|l| l.starts_with("VmRSS"))?.split_whitespace().nth(1)?.parse().ok())
            .unwrap_or(0)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop()
    }
}

#[derive(Clone, Debug)]
pub struct Response {
    pub status: u16,
    pub text: String,
}
impl Response {
    pub fn json(&self) -> Option<Value> {
        serde_json::from_str(&self.text).ok()
    }
    pub fn message(&self) -> Option<String> {
        self.json()?.get("message")?.as_str().map(|s| s.to_string())
    }
    pub fn short(&self) -> String {
        format!("{} {}", self.status, self.text.chars().take(300).collect::<String>())
    }
}

/// Err if no complete response arrives.
pub fn request(method: &str, path: &str, content_type: Option<&str>, body: &str) -> Result<Response, String> {
    let mut s = TcpStream::connect(SERVER).map_err(|e| format!("connect: {e}"))?;
    let _ = s.set_nodelay(true);
    s.set_read_timeout(Some(Duration::from_secs(90))).unwrap();
    let ct = content_type.map(|c| format!("content-type: {c}\r\n")).unwrap_or_default();
    let head = format!("{method} {path} HTTP/1.1\r\nhost: localhost\r\nconnection: close\r\n{ct}content-length: {}\r\n\r\n", body.len());
    s.write_all(head.as_bytes()).and_then(|_| s.write_all(body.as_bytes())).map_err(|e| format!("send: {e}"))?;
    let (first, _, body) = read_message(&mut s).ok_or("no complete response")?;
    let status = first.split(' ').nth(1).and_then(|c| c.parse().ok()).ok_or_else(|| format!("not a response: {first}"))?;
    Ok(Response { status, text: String::from_utf8_lossy(&body).to_string() })
}
pub fn post(path: &str, body: &Value) -> Result<Response, String> {
    request("POST", path, Some("application/json"), &body.to_string())
}
