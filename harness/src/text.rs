//! C23 (text of intervals and timestamps), C24 (rounding), C25 (filters), C26 (spans), C28 (easing), C29 (symbols, codes, iterators).
use crate::cal;
use crate::case::{guard, Case, Spec};
use crate::gen::*;
use juno::{
    easing::{tween, Easing, EasingExt},
    filters::{Price, Size},
    indicators::{adler32 as codes, ma_from_adler32, MAParams},
    itertools::IteratorExt,
    math, symbol,
    utils::{generate_missing_spans, merge_adjacent_spans, page},
    Interval, SymbolExt, Timestamp,
};
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

pub const MONTH: u64 = 2_629_746_000;
/// 10000-01-01.
const END: u64 = 253_402_300_800_000;
const UNITS: [(&str, u64); 8] = [
    ("y", 31_556_952_000),
    ("M", MONTH),
    ("w", 604_800_000),
    ("d", 86_400_000),
    ("h", 3_600_000),
    ("m", 60_000),
    ("s", 1000),
    ("ms", 1),
];

// ---------------------------------------------------------------- C23

/// The value of well formed text, None for any other.
fn interval_value(s: &str) -> Option<u64> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut total: u128 = 0;
    if b.is_empty() {
        return None;
    }
    while i < b.len() {
        let d = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        let u = i;
        while i < b.len() && b[i].is_ascii_alphabetic() {
            i += 1;
        }
        if d == u || u == i {
            return None;
        }
        let unit = UNITS.iter().find(|(n, _)| *n == &s[u..i])?.1 as u128;
        let mut n: u128 = 0;
        for c in &b[d..u] {
            n = n * 10 + (c - b'0') as u128;
            if n > u64::MAX as u128 {
                return None;
            }
        }
        total += n * unit;
        if total > u64::MAX as u128 {
            return None;
        }
    }
    Some(total as u64)
}

pub fn interval_text(mut v: u64) -> String {
    if v == 0 {
        return "0ms".into();
    }
    let mut s = String::new();
    for (n, u) in UNITS {
        if v / u > 0 {
            s += &format!("{}{n}", v / u);
        }
        v %= u;
    }
    s
}

fn any_u64(rng: &mut StdRng) -> u64 {
    match rng.gen_range(0..6) {
        0 => rng.gen(),
        1 => rng.gen_range(0..2000),
        2 => u64::MAX - rng.gen_range(0..3),
        3 => {
            let u = UNITS[rng.gen_range(0..8)].1;
            (u * rng.gen_range(0..1000)).saturating_add(rng.gen_range(0..3)).saturating_sub(1)
        }
        4 => 1u64 << rng.gen_range(0..64),
        _ => (0..8).map(|i| if chance(rng, 0.5) { UNITS[i].1 * rng.gen_range(0..20) } else { 0 }).sum(),
    }
}

fn timestamp_text(t: u64) -> String {
    let (y, m, d) = cal::civil_from_days((t / DAY) as i64);
    let (ms, s) = (t % 1000, t / 1000 % 86_400);
    let frac = if ms == 0 { String::new() } else { format!(".{ms:03}").trim_end_matches('0').to_string() };
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}{frac}Z", s / 3600, s / 60 % 60, s % 60)
}

/// Milliseconds of a date or RFC 3339 date and time, leniently: None if it certainly is none.
fn lenient_timestamp(s: &str) -> Option<i128> {
    let s = s.strip_prefix('+').unwrap_or(s);
    let dig = |a: &str| -> Option<i64> { (!a.is_empty() && a.bytes().all(|b| b.is_ascii_digit())).then(|| a.parse().ok()).flatten() };
    let (y, m, d) = (dig(s.get(0..4)?)?, dig(s.get(5..7)?)?, dig(s.get(8..10)?)?);
    if s.get(4..5)? != "-" || s.get(7..8)? != "-" || !(1..=12).contains(&m) || d < 1 || d > cal::days_in_month(y, m) {
        return None;
    }
    let day = cal::days_from_civil(y, m, d) as i128 * DAY as i128;
    if s.len() == 10 {
        return Some(day);
    }
    let rest = s.get(11..)?;
    let (h, mi, se) = (dig(rest.get(0..2)?)?, dig(rest.get(3..5)?)?, dig(rest.get(6..8)?)?);
    if h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let mut i = 8;
    let mut ns: i128 = 0;
    if rest.get(8..9) == Some(".") {
        i = 9;
        let mut scale = 100_000_000i128;
        while rest.as_bytes().get(i).map_or(false, |b| b.is_ascii_digit()) {
            ns += (rest.as_bytes()[i] - b'0') as i128 * scale;
            scale /= 10;
            i += 1;
        }
    }
    let off = match rest.get(i..)? {
        "Z" | "z" => 0,
        o => {
            let sign = match o.get(0..1)? {
                "+" => 1,
                "-" => -1,
                _ => return None,
            };
            let (oh, om) = (dig(o.get(1..3)?)?, dig(o.get(4..6)?)?);
            if o.len() != 6 {
                return None;
            }
            sign * (oh * 60 + om) as i128 * 60_000
        }
    };
    let ns_total = (day + (h * 3600 + mi * 60 + se) as i128 * 1000 - off) * 1_000_000 + ns;
    Some(ns_total.div_euclid(1_000_000))
}

fn any_timestamp(rng: &mut StdRng) -> u64 {
    match rng.gen_range(0..5) {
        0 => rng.gen_range(0..END),
        1 => rng.gen_range(0..5_000_000_000_000),
        2 => rng.gen_range(0..END / DAY) * DAY,
        3 => {
            // Around the edges of months and years, leap days included.
            let (y, m) = (rng.gen_range(1970..9999), rng.gen_range(1..=12));
            let d = cal::days_from_civil(y, m, 1) as u64 * DAY;
            (d + rng.gen_range(0..5)).saturating_sub(2)
        }
        _ => pick(rng, &[0, 1, END - 1, DAY - 1, 951_782_400_000, 951_868_799_999]),
    }
}

fn garble(rng: &mut StdRng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..rng.gen_range(1..3) {
        let alphabet: Vec<char> = "0123456789yMwdhmsTZ+-:. ٣é１\0µ".chars().collect();
        let c = *alphabet.choose(rng).unwrap();
        let i = if cs.is_empty() { 0 } else { rng.gen_range(0..cs.len()) };
        match rng.gen_range(0..4) {
            0 => cs.insert(i, c),
            1 if !cs.is_empty() => cs[i] = c,
            2 if !cs.is_empty() => {
                cs.remove(i);
            }
            _ => cs.push(c),
        }
    }
    cs.into_iter().collect()
}

pub fn c23() -> ! {
    crate::case::run(
        Spec::new("C23", 2_400_000, 48_000_000, "an interval and a timestamp formatted and parsed back, and malformed variants of both; signature of the values")
            .require(&["interval_roundtrips", "timestamp_roundtrips", "malformed_intervals", "malformed_timestamps", "json_values", "json_rejected", "overflows", "before_1970", "offsets", "map_keys"])
            .assume(&["timestamps after the year 9999 have no text"]),
        |c| {
            // Intervals.
            let v = any_u64(&mut c.rng);
            let s = Interval(v).to_string();
            c.check(s == interval_text(v), "interval-format", || format!("{v} ms is formatted as {s:?}, expected {:?}", interval_text(v)));
            c.check(Interval::from_str(&s) == Ok(Interval(v)), "interval-roundtrip", || format!("{s:?} is parsed as {:?}, not {v}", Interval::from_str(&s)));
            let w = if chance(&mut c.rng, 0.3) { v } else { any_u64(&mut c.rng) };
            c.check((Interval(v) == w) == (v == w) && (Timestamp(v) == w) == (v == w), "compare", || format!("{v} as an interval or timestamp compares wrongly to {w}"));
            c.count("interval_roundtrips", 1);
            let text = match c.rng.gen_range(0..6) {
                0 => garble(&mut c.rng, &s),
                1 => {
                    // Groups in any order, repeated ones and leading zeros too.
                    let n = c.rng.gen_range(1..5);
                    (0..n)
                        .map(|_| {
                            let z = pick(&mut c.rng, &["", "0", "00"]);
                            let u = pick(&mut c.rng, &UNITS).0;
                            format!("{z}{}{u}", c.rng.gen_range(0..400))
                        })
                        .collect()
                }
                2 => {
                    // Out of range.
                    c.count("overflows", 1);
                    let u = UNITS[c.rng.gen_range(0..8)];
                    let n = (u64::MAX / u.1) as u128 + c.rng.gen_range(0..3);
                    format!("{n}{}{}", u.0, if chance(&mut c.rng, 0.3) { "1y" } else { "" })
                }
                3 => pick(&mut c.rng, &["", " ", "1", "h", "1 h", "1H", "1.5h", "-1h", "+1h", "1h ", " 1h", "1hd", "1h1", "d1", "1mM", "1Ms", "1q", "1hour", "x1h", "1h,2m", "1min", "0", "99999999999999999999h", "1D", "1W", "1Y", "1MS"]).to_string(),
                4 => format!("{}{}", c.rng.gen_range(0..100), ["ms", "m", "M", "s", "S", "mS", "y", "w", "d", "h", "Mm"].choose(&mut c.rng).unwrap()),
                _ => (0..c.rng.gen_range(0..8)).map(|_| *b"0123456789yMwdhms -.".choose(&mut c.rng).unwrap() as char).collect(),
            };
            let want = interval_value(&text);
            let got = guard(|| Interval::from_str(&text));
            c.check(matches!((&got, want), (Ok(Ok(g)), Some(w)) if g.0 == w) || matches!((&got, want), (Ok(Err(_)), None)), "interval-parse", || {
                format!("{text:?} is parsed as {got:?}, expected {want:?}")
            });
            if want.is_none() {
                c.count("malformed_intervals", 1);
            }
            let j = guard(|| serde_json::from_value::<Interval>(json!(text)).ok().map(|i| i.0));
            c.check(j == Ok(want), "interval-json-text", || format!("JSON of {text:?} is read as {j:?}, expected {want:?}"));
            c.check(serde_json::from_str::<Interval>(&v.to_string()).ok() == Some(Interval(v)), "interval-json-number", || format!("JSON {v} isn't read as an interval"));
            c.check(serde_json::to_string(&Interval(v)).ok() == Some(v.to_string()), "interval-json-write", || format!("{v} isn't written as such"));
            // As keys.
            let m: Result<HashMap<Interval, u32>, _> = serde_json::from_value(json!({ s.clone(): 1 }));
            c.check(m.ok().map_or(false, |m| m.get(&Interval(v)) == Some(&1)), "interval-key", || format!("{s:?} as a key isn't read as {v}"));
            c.count("map_keys", 1);

            // Timestamps.
            let t = any_timestamp(&mut c.rng);
            let s = Timestamp(t).to_string();
            c.check(s == timestamp_text(t), "timestamp-format", || format!("{t} is formatted as {s:?}, expected {:?}", timestamp_text(t)));
            c.check(Timestamp::from_str(&s) == Ok(Timestamp(t)), "timestamp-roundtrip", || format!("{s:?} is parsed as {:?}, not {t}", Timestamp::from_str(&s)));
            c.count("timestamp_roundtrips", 1);
            let date = &timestamp_text(t)[..10];
            c.check(Timestamp::from_str(date) == Ok(Timestamp(t / DAY * DAY)), "timestamp-date", || format!("{date:?} is parsed as {:?}", Timestamp::from_str(date)));
            let (text, valid) = match c.rng.gen_range(0..5) {
                0 => {
                    let from = if chance(&mut c.rng, 0.5) { &s } else { date };
                    (garble(&mut c.rng, from), None)
                }
                1 => {
                    // Local time with an offset, fractions of any length.
                    c.count("offsets", 1);
                    let off = c.rng.gen_range(-23 * 60..=23 * 60i64);
                    let local = t as i128 / 1000 * 1000 + off as i128 * 60_000;
                    if local < 0 || local >= END as i128 {
                        (date.to_string(), Some(Some(t / DAY * DAY)))
                    } else {
                        let base = timestamp_text(local as u64);
                        let digits = c.rng.gen_range(1..=9);
                        let frac: String = (0..digits).map(|_| (b'0' + c.rng.gen_range(0..10)) as char).collect();
                        let ms: u64 = format!("{frac}00").get(..3).unwrap().parse().unwrap();
                        let with = chance(&mut c.rng, 0.5);
                        let text = format!(
                            "{}{}{}{:02}:{:02}",
                            &base[..19],
                            if with { format!(".{frac}") } else { String::new() },
                            if off < 0 { '-' } else { '+' },
                            off.abs() / 60,
                            off.abs() % 60
                        );
                        (text, Some(Some(t / 1000 * 1000 + if with { ms } else { 0 })))
                    }
                }
                2 => {
                    // Nonexistent dates and times.
                    let (y, m) = (c.rng.gen_range(1970..2100), c.rng.gen_range(1..=12));
                    let d = cal::days_in_month(y, m) + c.rng.gen_range(1..40);
                    let text = match c.rng.gen_range(0..7) {
                        0 => format!("{y:04}-{m:02}-{d:02}"),
                        1 => format!("{y:04}-{:02}-01", pick(&mut c.rng, &[0, 13, 99])),
                        2 => format!("{y:04}-{m:02}-00"),
                        3 => format!("{y:04}-{m:02}-01T{}:00:00Z", c.rng.gen_range(24..99)),
                        4 => format!("{y:04}-{m:02}-01T00:{}:00Z", c.rng.gen_range(60..99)),
                        5 => format!("{y:04}-{m:02}-01T00:00:{}Z", c.rng.gen_range(61..99)),
                        _ => format!("{y:04}-{m:02}-{d:02}T00:00:00Z"),
                    };
                    (text, Some(None))
                }
                3 => {
                    // Before the epoch.
                    c.count("before_1970", 1);
                    let (y, m, d) = (c.rng.gen_range(0..1970), c.rng.gen_range(1..=12), c.rng.gen_range(1..=28));
                    let text = match c.rng.gen_range(0..4) {
                        0 => format!("{y:04}-{m:02}-{d:02}"),
                        1 => format!("{y:04}-{m:02}-{d:02}T01:02:03Z"),
                        2 => "1969-12-31T23:59:59.999999999Z".into(),
                        _ => format!("1970-01-01T{:02}:00:00+{:02}:01", y % 20, y % 20),
                    };
                    (text, Some(None))
                }
                _ => (pick(&mut c.rng, &["", "now", "2020", "2020-01", "2020-1-1", "20200101", "2020/01/01", "01-01-2020", "2020-01-01 ", " 2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00Z", "1577836800000", "2020-01-01T00:00:00ZZ", "2020-01-01Z", "2020-W01-1", "12020-01-01", "-2020-01-01", "2020-01-01T00:00:00+0000", "2020-01-01T00:00:00+24:00"]).to_string(), Some(None)),
            };
            let got = guard(|| Timestamp::from_str(&text));
            let lenient = lenient_timestamp(&text);
            let ok = match (&got, valid) {
                (Err(_), _) => false,
                (Ok(Ok(g)), Some(Some(w))) => g.0 == w,
                (Ok(Err(_)), Some(Some(_))) => false,
                (Ok(Ok(_)), Some(None)) => false,
                (Ok(Err(_)), _) => true,
                // Whatever else is accepted must mean what it says. A leap second counts as the one before.
                (Ok(Ok(g)), None) => lenient == Some(g.0 as i128) || text.contains(":60"),
            };
            c.check(ok, "timestamp-parse", || format!("{text:?} is parsed as {got:?}, expected {}", match valid { Some(v) => format!("{v:?}"), None => format!("an error or {lenient:?}") }));
            if matches!(got, Ok(Err(_))) {
                c.count("malformed_timestamps", 1);
            }
            let j = guard(|| serde_json::from_value::<Timestamp>(json!(text)).ok().map(|t| t.0));
            c.check(j == got.map(|g| g.ok().map(|t| t.0)), "timestamp-json-text", || format!("JSON of {text:?} is read as {j:?}"));
            c.check(serde_json::from_str::<Timestamp>(&v.to_string()).ok() == Some(Timestamp(v)), "timestamp-json-number", || format!("JSON {v} isn't read as a timestamp"));
            c.check(serde_json::to_string(&Timestamp(t)).ok() == Some(t.to_string()), "timestamp-json-write", || format!("{t} isn't written as such"));
            let m: Result<BTreeMap<Timestamp, u32>, _> = serde_json::from_value(json!({ s.clone(): 1 }));
            c.check(m.ok().map_or(false, |m| m.get(&Timestamp(t)) == Some(&1)), "timestamp-key", || format!("{s:?} as a key isn't read as {t}"));
            c.count("json_values", 4);

            // Other JSON is refused.
            for bad in [json!(-1), json!(1.5), json!(null), json!(true), json!([1]), json!({"ms": 1}), json!("")] {
                let b = guard(|| (serde_json::from_value::<Interval>(bad.clone()).is_err(), serde_json::from_value::<Timestamp>(bad.clone()).is_err()));
                c.check(b == Ok((true, true)), "json-accepted", || format!("{bad} is read as an interval or a timestamp"));
                c.count("json_rejected", 1);
            }
            c.nontrivial(&(v, t, text.clone()));
            c.sample(|| json!({"interval": v, "timestamp": s, "malformed": text}));
        },
    )
}

// ---------------------------------------------------------------- C24

/// Whether v * 10^p is (nearly) an integer.
fn on_grid(v: f64, p: u32) -> bool {
    let x = v * 10f64.powi(p as i32);
    (x - x.round()).abs() <= 1e-9_f64.max(x.abs() * 1e-15)
}

pub fn c24() -> ! {
    crate::case::run(
        Spec::new("C24", 4_500_000, 45_000_000, "a timestamp with an interval and a value with a precision; signature of them")
            .require(&["weeks", "months", "exact_boundaries", "ties", "multiples", "high_precisions"])
            .assume(&["decimal rounding of a value within rounding error of a multiple of the unit may lose one unit", "half up is asked for values that are not negative"]),
        |c| {
            let kind = c.rng.gen_range(0..4);
            let (iv, mut t) = match kind {
                0 => (WEEK, c.rng.gen_range(MONDAY..END - WEEK)),
                1 => (MONTH, any_timestamp(&mut c.rng).min(END - 40 * DAY)),
                2 => (pick(&mut c.rng, &[1, 1000, MIN, 5 * MIN, HOUR, 4 * HOUR, DAY, 3 * DAY, 6 * DAY, WEEK - 1]), any_timestamp(&mut c.rng)),
                _ => (c.rng.gen_range(1..WEEK), c.rng.gen_range(0..u64::MAX - WEEK)),
            };
            let flr = |t: u64| match iv {
                WEEK => cal::week_floor(t),
                MONTH => cal::month_floor(t),
                _ => (t as u128 / iv as u128 * iv as u128) as u64,
            };
            let cl = |t: u64| match iv {
                WEEK => cal::week_ceil(t),
                MONTH => cal::month_ceil(t),
                _ => ((t as u128 + iv as u128 - 1) / iv as u128 * iv as u128) as u64,
            };
            match c.rng.gen_range(0..4) {
                0 => t = flr(t),
                1 => t = flr(t) + 1,
                2 => t = flr(t).saturating_sub(1).max(if iv == WEEK { MONDAY } else { 0 }),
                _ => {}
            }
            if c.index % 16 == 0 {
                let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
                let (before, now, after) = (clock(), Timestamp::now().0, clock());
                // A clock which is set meanwhile decides nothing.
                if before <= after && after - before < 10_000 {
                    c.check(before <= now && now <= after, "now", || format!("it is {now} between {before} and {after}"));
                    c.count("now", 1);
                }
            }
            let (f, e) = (Timestamp(t).floor(Interval(iv)), Timestamp(t).ceil(Interval(iv)));
            c.check(f.0 == flr(t), "floor", || format!("{t} floored to {iv} is {}, expected {}", f.0, flr(t)));
            c.check(e.0 == cl(t), "ceil", || format!("{t} ceiled to {iv} is {}, expected {}", e.0, cl(t)));
            c.check(f.floor(Interval(iv)) == f && f.ceil(Interval(iv)) == f && e.ceil(Interval(iv)) == e && e.floor(Interval(iv)) == e, "idempotent", || {
                format!("{t}: boundaries {} and {} of {iv} are not kept by flooring or ceiling", f.0, e.0)
            });
            let longest = if iv == MONTH { 31 * DAY } else { iv };
            c.check(f.0 <= t && t <= e.0 && e.0 - f.0 <= longest, "bracket", || format!("{t} is not bracketed by {} and {} of {iv}", f.0, e.0));
            if f.0 == t {
                c.count("exact_boundaries", 1);
            }
            c.count(if iv == WEEK { "weeks" } else if iv == MONTH { "months" } else { "other_intervals" }, 1);

            // Multiples over the full range.
            let m = any_u64(&mut c.rng).max(1);
            let v = any_u64(&mut c.rng);
            let off = if chance(&mut c.rng, 0.5) { 0 } else { c.rng.gen_range(0..=v) };
            let fl = (v as u128 / m as u128 * m as u128) as u64;
            let ce = (v as u128 + m as u128 - 1) / m as u128 * m as u128;
            c.check(math::floor_multiple(v, m) == fl, "floor-multiple", || format!("{v} floored to a multiple of {m} is {}", math::floor_multiple(v, m)));
            let d = v - off;
            c.check(math::floor_multiple_offset(v, m, off) == (d as u128 / m as u128 * m as u128) as u64 + off, "floor-multiple-offset", || format!("{v} floored to {off} and a multiple of {m} is {}", math::floor_multiple_offset(v, m, off)));
            if ce <= u64::MAX as u128 {
                c.check(math::ceil_multiple(v, m) as u128 == ce, "ceil-multiple", || format!("{v} ceiled to a multiple of {m} is {}, expected {ce}", math::ceil_multiple(v, m)));
                c.check(Interval(v).ceil(Interval(m)).0 as u128 == ce, "interval-ceil", || format!("interval {v} ceiled to a multiple of {m} is {}", Interval(v).ceil(Interval(m)).0));
            }
            let co = (d as u128 + m as u128 - 1) / m as u128 * m as u128 + off as u128;
            if co <= u64::MAX as u128 {
                c.check(math::ceil_multiple_offset(v, m, off) as u128 == co, "ceil-multiple-offset", || format!("{v} ceiled to {off} and a multiple of {m} is {}", math::ceil_multiple_offset(v, m, off)));
            }
            c.count("multiples", 1);

            // Decimals.
            let p = c.rng.gen_range(0..=15u32);
            if p >= 10 {
                c.count("high_precisions", 1);
            }
            let scale = 10f64.powi(p as i32);
            let unit = 1.0 / scale;
            let top = 1e15 / scale;
            let x = match c.rng.gen_range(0..5) {
                0 => c.rng.gen_range(0..1_000_000) as f64 / scale,
                1 => c.rng.gen_range(0.0..top),
                2 => log_uniform(&mut c.rng, unit.min(top) / 100.0, top),
                3 => c.rng.gen_range(0.0..(1000.0 * unit).min(top)),
                _ => pick(&mut c.rng, &[0.0, 0.29, 1.15, 2.675, 0.1 + 0.2, 1.0, 0.07, 8.41]),
            };
            let r = math::round_down(x, p);
            let slack = 4.0 * f64::EPSILON * x;
            c.check(r >= 0.0 && r <= x + slack, "round-down-above", || format!("{x:?} rounded down to {p} decimals is {r:?}"));
            c.check(x - r <= unit * (1.0 + 1e-9) + slack, "round-down-far", || format!("{x:?} rounded down to {p} decimals is {r:?}"));
            c.check(on_grid(r, p), "round-down-grid", || format!("{x:?} rounded down to {p} decimals is {r:?}"));
            let near_multiple = on_grid(x, p);
            if !near_multiple {
                c.check(x - r < unit, "round-down-unit", || format!("{x:?} rounded down to {p} decimals is {r:?}"));
            }
            let h = math::round_half_up(x, p);
            c.check((h - x).abs() <= unit / 2.0 * (1.0 + 1e-9) + slack, "half-up-far", || format!("{x:?} rounded half up to {p} decimals is {h:?}"));
            c.check(on_grid(h, p), "half-up-grid", || format!("{x:?} rounded half up to {p} decimals is {h:?}"));
            // Exactly representable ties.
            let p = c.rng.gen_range(0..4u32);
            let k = c.rng.gen_range(0..500u64);
            // (2k+1) * 5^(p+1) / 10^(p+1) / ... : an odd multiple of half a unit which is a dyadic fraction.
            let tie = (2 * k + 1) as f64 * 5f64.powi(p as i32) / 2.0 / 10f64.powi(p as i32);
            let units = (2 * k + 1) * 5u64.pow(p);
            let want = (units / 2 + 1) as f64 / 10f64.powi(p as i32);
            let h = math::round_half_up(tie, p);
            c.check((h - want).abs() < 1e-9, "half-up-tie", || format!("{tie:?} rounded half up to {p} decimals is {h:?}, expected {want:?}"));
            // To the unit, where nothing is lost by scaling: also of the nearest values to ties and ones without any fraction.
            let x = match c.rng.gen_range(0..4) {
                0 => k as f64 + 0.5,
                1 => f64::from_bits((k as f64 + 0.5).to_bits() - 1),
                2 => c.rng.gen_range(0..1u64 << 53) as f64,
                _ => log_uniform(&mut c.rng, 1e-3, 1e15),
            };
            let want = x.floor() + if x - x.floor() >= 0.5 { 1.0 } else { 0.0 };
            let h = math::round_half_up(x, 0);
            c.check(h == want, "half-up-unit", || format!("{x:?} rounded half up to no decimals is {h:?}, expected {want:?}"));
            let d = math::round_down(x, 0);
            c.check(d == x.floor(), "round-down-to-unit", || format!("{x:?} rounded down to no decimals is {d:?}"));
            c.count("ties", 1);
            c.nontrivial(&(iv, t, x.to_bits()));
            c.sample(|| json!({"interval": iv, "time": t, "floor": f.0, "ceil": e.0, "value": x, "precision": p}));
        },
    )
}

// ---------------------------------------------------------------- C25

pub fn c25() -> ! {
    crate::case::run(
        Spec::new("C25", 4_500_000, 45_000_000, "a filter and an amount; signature of both and the result")
            .require(&["below_min", "at_max", "on_step", "no_step", "no_max", "min_off_step", "rounded_to_zero", "rounded_up", "valid", "not_valid", "valid_off_step"])
            .assume(&["an amount within rounding error of a multiple of the step may lose one step"]),
        |c| {
            let f = filters(&mut c.rng);
            let (mut min, mut max, mut step) = (f.size.min, f.size.max, f.size.step);
            if chance(&mut c.rng, 0.3) {
                step = pick(&mut c.rng, &[0.0, 0.25, 0.3, 1.0, 10.0, 1e-8, 0.07]);
                min = log_uniform(&mut c.rng, 1e-8, 100.0);
                max = if chance(&mut c.rng, 0.3) { 0.0 } else { min * log_uniform(&mut c.rng, 1.0, 1e6) };
            }
            if max > 0.0 && max < min {
                max = min;
            }
            let s = match c.rng.gen_range(0..7) {
                0 => min * c.rng.gen_range(0.0..2.0),
                1 => max * c.rng.gen_range(0.5..2.0),
                2 => step * c.rng.gen_range(0..10_000) as f64,
                3 => min,
                4 => max,
                5 => step * (c.rng.gen_range(0..1000) as f64 + c.rng.gen_range(0.0..1.0)),
                _ => log_uniform(&mut c.rng, 1e-9, 1e8),
            };
            let price = chance(&mut c.rng, 0.4);
            let got = if price { Price { min, max, step }.round_down(s) } else { Size { min, max, step }.round_down(s) };
            let what = if price { "price" } else { "size" };
            let ctx = || format!("{what} {s:?} rounded down with min {min:?}, max {max:?}, step {step:?} is {got:?}");
            let cap = if max > 0.0 { s.min(max) } else { s };
            // The largest multiple, and how certain it is.
            let ulp = 4.0 * f64::EPSILON;
            let (best, lower) = if step > 0.0 {
                let q = cap / step;
                let near = (q - q.round()).abs() <= 1e-9_f64.max(q * 4.0 * f64::EPSILON);
                if near {
                    (q.round() * step, (q.round() - 1.0) * step)
                } else {
                    (q.floor() * step, q.floor() * step)
                }
            } else {
                (cap, cap)
            };
            c.check(got.is_finite() && got >= 0.0, "invalid", ctx);
            c.check(got <= s * (1.0 + ulp) && (max == 0.0 || got <= max * (1.0 + ulp)), "above", ctx);
            c.check(got == 0.0 || got >= min, "below-min", ctx);
            if s < min {
                c.check(got == 0.0, "min-ignored", ctx);
                c.count("below_min", 1);
            } else {
                let is = |v: f64| (got - v).abs() <= v.abs() * ulp;
                // 0 only if what is left after rounding is below the minimum.
                let zero_ok = got == 0.0 && lower < min * (1.0 + ulp);
                c.check(is(best) && best >= min * (1.0 - ulp) || is(lower) && lower >= min * (1.0 - ulp) || zero_ok, "not-largest", || format!("{}, expected {best:?}", ctx()));
            }
            if max > 0.0 && s >= max {
                c.count("at_max", 1);
            }
            if step == 0.0 {
                c.count("no_step", 1);
            } else if got > 0.0 {
                c.count("on_step", 1);
            }
            if max == 0.0 {
                c.count("no_max", 1);
            }
            if step > 0.0 && (min / step).fract() > 0.01 && (min / step).fract() < 0.99 {
                c.count("min_off_step", 1);
            }
            if s >= min && got == 0.0 {
                c.count("rounded_to_zero", 1);
            }
            // Rounding up, where the maximum leaves room for it.
            let f = Size { min, max, step };
            let up = f.round_up(s);
            let ctx = || format!("size {s:?} rounded up with min {min:?}, max {max:?}, step {step:?} is {up:?}");
            if s < min {
                c.check(up == 0.0, "up-min-ignored", ctx);
            } else if step > 0.0 && (max == 0.0 || s + step <= max) {
                c.check(up >= s * (1.0 - ulp) && up < (s + step) * (1.0 + ulp), "up-not-smallest", ctx);
                let q = up / step;
                c.check((q - q.round()).abs() <= 1e-9_f64.max(q * ulp), "up-off-step", ctx);
                c.count("rounded_up", 1);
            } else if step == 0.0 {
                c.check(up == if max > 0.0 { s.min(max) } else { s }, "up-no-step", ctx);
            }
            // What is valid, where arithmetic is exact.
            let e = c.rng.gen_range(-8..4);
            let unit = 2f64.powi(e);
            let (vstep, k) = (if chance(&mut c.rng, 0.2) { 0.0 } else { unit * c.rng.gen_range(1..5) as f64 }, c.rng.gen_range(0..6));
            // The minimum is not necessarily a multiple of the step.
            let vmin = if vstep > 0.0 && chance(&mut c.rng, 0.5) { vstep * k as f64 } else { unit / 4.0 * c.rng.gen_range(0..24) as f64 };
            let vmax = if chance(&mut c.rng, 0.3) { 0.0 } else { vmin + unit * c.rng.gen_range(0..100) as f64 };
            let v = if chance(&mut c.rng, 0.1) { pick(&mut c.rng, &[vmin, vmax]) } else { unit / 4.0 * c.rng.gen_range(0..600) as f64 };
            let on = vstep == 0.0 || ((v - vmin) / vstep).fract() == 0.0;
            let want = v >= vmin && (vmax == 0.0 || v <= vmax) && on;
            let (a, b) = (Size { min: vmin, max: vmax, step: vstep }.valid(v), Price { min: vmin, max: vmax, step: vstep }.valid(v));
            c.check(a == want && b == want, "valid", || format!("{v:?} is {}valid with min {vmin:?}, max {vmax:?}, step {vstep:?}, but size says {a} and price {b}", if want { "" } else { "not " }));
            c.count(if want { "valid" } else { "not_valid" }, 1);
            // What rounding leaves is valid, unless the minimum is off the steps itself.
            let off = vstep > 0.0 && (vmin / vstep).fract() != 0.0;
            if off && want {
                c.count("valid_off_step", 1);
            }
            let down = Size { min: vmin, max: vmax, step: vstep }.round_down(v);
            if down > 0.0 && !off {
                c.check(Size { min: vmin, max: vmax, step: vstep }.valid(down), "rounded-not-valid", || format!("{v:?} rounded down to {down:?} is not valid with min {vmin:?}, max {vmax:?}, step {vstep:?}"));
            }
            c.nontrivial(&(min.to_bits(), max.to_bits(), step.to_bits(), s.to_bits()));
            c.sample(|| json!({"amount": s, "min": min, "max": max, "step": step, "rounded": got}));
        },
    )
}

// ---------------------------------------------------------------- C26

fn runs(points: &[bool]) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    for (i, p) in points.iter().enumerate() {
        if !p {
            continue;
        }
        match out.last_mut() {
            Some(l) if l.1 == i as u64 => l.1 += 1,
            _ => out.push((i as u64, i as u64 + 1)),
        }
    }
    out
}

pub fn c26() -> ! {
    crate::case::run(
        Spec::new("C26", 4_500_000, 45_000_000, "a range with existing spans inside, across and outside of it, and a paging; signature of them")
            .require(&["merged", "missing_spans", "outside_spans", "pages", "empty_ranges", "partial_pages", "fully_covered", "long_ranges", "no_limit"])
            .assume(&["paged ranges are multiples of the interval, as all callers' ranges are"]),
        |c| {
            let n = 60u64;
            let unit = pick(&mut c.rng, &[1, 1, 1000, DAY, 1 << 40]);
            let base = if unit == 1 && chance(&mut c.rng, 0.3) { u64::MAX - n } else { c.rng.gen_range(0..1000) * unit };
            // Ordered disjoint spans, adjacent ones among them.
            let mut spans: Vec<(u64, u64)> = vec![];
            let mut x = c.rng.gen_range(0..5);
            let adj = c.rng.gen_range(0.0..0.9);
            loop {
                let len = c.rng.gen_range(1..8);
                if x + len > n || chance(&mut c.rng, 0.08) {
                    break;
                }
                spans.push((x, x + len));
                x += len;
                if !chance(&mut c.rng, adj) {
                    x += c.rng.gen_range(1..10);
                }
            }
            let abs = |s: &[(u64, u64)]| s.iter().map(|s| (base + s.0 * unit, base + s.1 * unit)).collect::<Vec<_>>();
            let mut pts = vec![false; n as usize];
            for s in &spans {
                for i in s.0..s.1 {
                    pts[i as usize] = true;
                }
            }
            let got = merge_adjacent_spans(&abs(&spans));
            let want = abs(&runs(&pts));
            c.check(got == want, "merge", || format!("{:?} merged is {got:?}", abs(&spans)));
            c.count("merged", (spans.len() - want.len().min(spans.len())) as u64);

            let (a, b) = (c.rng.gen_range(0..=n), c.rng.gen_range(0..=n));
            let (a, b) = (a.min(b), a.max(b));
            let missing: Vec<bool> = (0..n).map(|i| i >= a && i < b && !pts[i as usize]).collect();
            let want = abs(&runs(&missing));
            let got = generate_missing_spans(base + a * unit, base + b * unit, &abs(&spans));
            c.check(got == want, "missing", || format!("missing in {:?} besides {:?} is {got:?}, expected {want:?}", (base + a * unit, base + b * unit), abs(&spans)));
            c.count("missing_spans", want.len() as u64);
            if spans.iter().any(|s| s.0 < a || s.1 > b) {
                c.count("outside_spans", 1);
            }
            if a == b {
                c.count("empty_ranges", 1);
            } else if want.is_empty() {
                c.count("fully_covered", 1);
            }

            let iv = pick(&mut c.rng, &[1, MIN, HOUR, DAY, 7]);
            let count = if chance(&mut c.rng, 0.2) { 0 } else { log_uniform(&mut c.rng, 1.0, 3000.0) as u64 };
            let limit = log_uniform(&mut c.rng, 1.0, 1500.0) as u64;
            let (count, limit) = match c.rng.gen_range(0..10) {
                // Ranges of any length.
                0 => {
                    let count = c.rng.gen_range(1..1u64 << 62) >> c.rng.gen_range(0..62);
                    let pages = log_uniform(&mut c.rng, 1.0, 300.0) as u64;
                    c.count("long_ranges", 1);
                    (count, (count / pages + pick(&mut c.rng, &[0, 0, 1])).max(1))
                }
                1 => {
                    c.count("no_limit", 1);
                    (count, u64::MAX >> c.rng.gen_range(0..20))
                }
                _ => (count, limit),
            };
            let iv = if count > 1 << 30 { 1 } else { iv };
            let start = c.rng.gen_range(0..1u64 << 42);
            let end = start + count * iv;
            let pages: Vec<(u64, u64)> = page(start, end, iv, limit).collect();
            let mut at = start;
            let mut ok = true;
            for (i, p) in pages.iter().enumerate() {
                ok &= p.0 == at && p.1 > p.0 && (p.1 - p.0) as u128 <= limit as u128 * iv as u128;
                ok &= i + 1 == pages.len() || (p.1 - p.0) as u128 == limit as u128 * iv as u128;
                at = p.1;
            }
            ok &= at == end;
            c.check(ok, "page", || format!("{count} intervals of {iv} from {start} paged by {limit} are {:?}…", &pages[..pages.len().min(5)]));
            c.count("pages", pages.len() as u64);
            if count % limit != 0 {
                c.count("partial_pages", 1);
            }
            c.nontrivial(&(spans.clone(), a, b, count, limit));
            c.sample(|| json!({"existing": spans, "range": [a, b], "missing": got, "pages": pages.len()}));
        },
    )
}

// ---------------------------------------------------------------- C28

fn ease_in(f: &str, x: f64) -> f64 {
    use std::f64::consts::{FRAC_PI_2, PI};
    match f {
        "Quad" => x.powi(2),
        "Cubic" => x.powi(3),
        "Quart" => x.powi(4),
        "Quint" => x.powi(5),
        "Sine" => 1.0 - (x * FRAC_PI_2).cos(),
        "Circ" => 1.0 - (1.0 - x * x).max(0.0).sqrt(),
        "Expo" => if x == 0.0 { 0.0 } else { 2f64.powf(10.0 * (x - 1.0)) },
        "Elastic" => (13.0 * FRAC_PI_2 * x).sin() * 2f64.powf(10.0 * (x - 1.0)),
        "Back" => x.powi(3) - x * (x * PI).sin(),
        "Bounce" => {
            // Four parabolas of decreasing height.
            let t = 1.0 - x;
            1.0 - if t < 4.0 / 11.0 {
                121.0 * t * t / 16.0
            } else if t < 8.0 / 11.0 {
                363.0 / 40.0 * t * t - 99.0 / 10.0 * t + 17.0 / 5.0
            } else if t < 9.0 / 10.0 {
                4356.0 / 361.0 * t * t - 35442.0 / 1805.0 * t + 16061.0 / 1805.0
            } else {
                54.0 / 5.0 * t * t - 513.0 / 25.0 * t + 268.0 / 25.0
            }
        }
        _ => unreachable!(),
    }
}

fn ease(name: &str, x: f64) -> f64 {
    if name == "Linear" {
        return x;
    }
    if let Some(f) = name.strip_suffix("Inout") {
        return if x < 0.5 { ease_in(f, 2.0 * x) / 2.0 } else { 1.0 - ease_in(f, 2.0 - 2.0 * x) / 2.0 };
    }
    if let Some(f) = name.strip_suffix("In") {
        return ease_in(f, x);
    }
    1.0 - ease_in(name.strip_suffix("Out").unwrap(), 1.0 - x)
}

fn easing(name: &str) -> Easing {
    serde_json::from_value(json!(name)).expect("easing name")
}

pub fn c28() -> ! {
    crate::case::run(
        Spec::new("C28", 600_000, 12_000_000, "every easing at several progresses, among them its ends; signature of the progresses")
            .require(&["curve_points", "endpoints", "monotonic_pairs", "lerps", "choices"])
            .assume(&["values are compared within 1e-9"]),
        |c| {
            let mut xs: Vec<f64> = (0..8).map(|_| c.rng.gen_range(0.0..=1.0)).collect();
            xs.extend([c.rng.gen_range(0.0..1e-3), 1.0 - c.rng.gen_range(0.0..1e-3), 0.5, pick(&mut c.rng, &[0.25, 0.75, 4.0 / 11.0, 8.0 / 11.0, 0.9, 0.1])]);
            xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for name in EASINGS {
                let e = easing(name);
                let at = |x: f64| tween(x, e);
                for (x, w) in [(0.0, 0.0), (1.0, 1.0)] {
                    c.check((at(x) - w).abs() <= 1e-9, "endpoint", || format!("{name} at {x} is {}", at(x)));
                    c.count("endpoints", 1);
                }
                for x in &xs {
                    let (got, want) = (at(*x), ease(name, *x));
                    c.check((got - want).abs() <= 1e-9, "curve", || format!("{name} at {x} is {got}, expected {want}"));
                    c.count("curve_points", 1);
                }
                if !["Elastic", "Back", "Bounce"].iter().any(|f| name.starts_with(f)) {
                    for w in xs.windows(2) {
                        c.check(at(w[0]) <= at(w[1]) + 1e-12, "monotonic", || format!("{name} falls from {} to {}", w[0], w[1]));
                        c.count("monotonic_pairs", 1);
                    }
                }
                if !["Elastic", "Back"].iter().any(|f| name.starts_with(f)) {
                    c.check(xs.iter().all(|x| (-1e-12..=1.0 + 1e-12).contains(&at(*x))), "range", || format!("{name} leaves the range of 0 to 1"));
                }
            }
            // Interpolation.
            let (a, b) = match c.rng.gen_range(0..3) {
                0 => (c.rng.gen_range(-10.0..10.0), c.rng.gen_range(-10.0..10.0)),
                1 => (log_uniform(&mut c.rng, 1e-6, 1e6), log_uniform(&mut c.rng, 1e-6, 1e6)),
                _ => (0.0, 1.0),
            };
            let (t, m) = (xs[3], f64::max(f64::abs(a), f64::abs(b)));
            let tol = 1e-12 * m;
            c.check(math::lerp(a, b, 0.0) == a, "lerp-start", || format!("lerp of {a} and {b} at 0 is {}", math::lerp(a, b, 0.0)));
            c.check(math::lerp(a, b, 1.0) == b, "lerp-end", || format!("lerp of {a} and {b} at 1 is {}", math::lerp(a, b, 1.0)));
            c.check((math::lerp(a, b, t) - (a + (b - a) * t)).abs() <= tol, "lerp", || format!("lerp of {a} and {b} at {t} is {}", math::lerp(a, b, t)));
            c.count("lerps", 1);
            // Random choice.
            if c.index % 50 == 0 {
                let seed = c.rng.gen();
                let mut r = StdRng::seed_from_u64(seed);
                let mut seen: HashMap<Easing, u32> = HashMap::new();
                for _ in 0..4000 {
                    *seen.entry(r.gen_easing()).or_default() += 1;
                }
                c.check(seen.len() == EASINGS.len(), "choice", || format!("{} of {} easings are ever chosen", seen.len(), EASINGS.len()));
                c.count("choices", 4000);
            }
            c.nontrivial(&xs.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
            c.sample(|| json!({"progresses": xs, "lerp": [a, b, t]}));
        },
    )
}

// ---------------------------------------------------------------- C29

fn adler(s: &str) -> u32 {
    let (mut a, mut b) = (1u64, 0u64);
    for c in s.bytes() {
        a += c as u64;
        b += a;
    }
    ((b % 65521) << 16 | a % 65521) as u32
}

pub fn c29() -> ! {
    crate::case::run(
        Spec::new("C29", 4_500_000, 45_000_000, "symbols, a sequence of numbers, and a moving average constructed from its code; signature of them")
            .require(&["symbols", "ma_codes", "pairs", "minmax", "checksums", "long_checksums"]),
        |c| {
            let asset = |rng: &mut StdRng| -> String {
                let n = rng.gen_range(1..7);
                (0..n).map(|_| *b"abcdefghijklmnopqrstuvwxyz0123456789".choose(rng).unwrap() as char).collect::<String>() + if chance(rng, 0.05) { "é" } else { "" }
            };
            let pairs: Vec<(String, String)> = (0..c.rng.gen_range(0..6))
                .map(|_| {
                    let (b, mut q) = (asset(&mut c.rng), asset(&mut c.rng));
                    if chance(&mut c.rng, 0.1) {
                        q = format!("{q}-{}", asset(&mut c.rng));
                    }
                    (b, q)
                })
                .collect();
            let symbols: Vec<String> = pairs.iter().map(|p| format!("{}-{}", p.0, p.1)).collect();
            for (s, p) in symbols.iter().zip(&pairs) {
                c.check(s.assets() == (&p.0, &p.1) && s.base_asset() == p.0 && s.quote_asset() == p.1, "assets", || format!("{s} is split into {:?}, {} and {}", s.assets(), s.base_asset(), s.quote_asset()));
                c.count("symbols", 1);
            }
            let got: Vec<&str> = symbol::iter_assets(symbols.iter().map(|s| s.as_str())).collect();
            let want: Vec<&str> = pairs.iter().flat_map(|p| [p.0.as_str(), p.1.as_str()]).collect();
            c.check(got == want, "iter-assets", || format!("assets of {symbols:?} are {got:?}"));

            // Codes.
            let mut word = asset(&mut c.rng).replace('é', "");
            if c.index % 500 == 0 {
                word = word.repeat(3000);
                c.count("long_checksums", 1);
            }
            c.check(math::adler32(&word) == adler(&word), "adler32", || format!("checksum of {:?}… is {}", &word[..1], math::adler32(&word)));
            c.count("checksums", 1);
            let table = [("Alma", codes::ALMA), ("Ema", codes::EMA), ("Ema2", codes::EMA2), ("Sma", codes::SMA), ("Smma", codes::SMMA), ("Dema", codes::DEMA), ("Kama", codes::KAMA)];
            let (name, code) = pick(&mut c.rng, &table);
            let lower = name.to_lowercase();
            c.check(code == adler(&lower) && math::adler32(&lower) == code, "code", || format!("code of {name} is {code}, its checksum {}", adler(&lower)));
            let period = c.rng.gen_range(1..30u32);
            let mut v = json!({"type": name, "period": period});
            if name == "Alma" {
                v["offset"] = json!(0.85);
                v["sigma"] = Value::Null;
            }
            let mut m = ma_from_adler32(code, period);
            let mut r = serde_json::from_value::<MAParams>(v.clone()).unwrap().construct();
            c.check(m.maturity() == r.maturity(), "code-maturity", || format!("{name} {period} by code has maturity {}", m.maturity()));
            let n = c.rng.gen_range(1..80);
            let shape = pick(&mut c.rng, &SHAPES);
            let xs = closes(&mut c.rng, n, shape);
            for (i, x) in xs.iter().enumerate() {
                m.update(*x);
                r.update(*x);
                c.check(m.value() == r.value() && m.mature() == r.mature(), "code-value", || format!("{name} {period} by code is {} after {} prices, expected {}", m.value(), i + 1, r.value()));
            }
            c.count("ma_codes", 1);

            // Iterators.
            let k = c.rng.gen_range(0..8usize).min(xs.len());
            let ys = &xs[..k];
            let got: Vec<(f64, f64)> = ys.iter().copied().pairwise().collect();
            let want: Vec<(f64, f64)> = (1..k).map(|i| (ys[i - 1], ys[i])).collect();
            c.check(got == want, "pairwise", || format!("pairs of {ys:?} are {got:?}"));
            let got: Vec<(u64, u64)> = (0..k as u64).pairwise().collect();
            c.check(got.len() == k.saturating_sub(1) && got.iter().enumerate().all(|(i, p)| *p == (i as u64, i as u64 + 1)), "pairwise-int", || format!("pairs of {k} integers are {got:?}"));
            c.count("pairs", got.len() as u64);
            let sign = if chance(&mut c.rng, 0.3) { -1.0 } else { 1.0 };
            let zs: Vec<f64> = xs.iter().map(|x| x * sign).collect();
            let (lo, hi) = zs.iter().minmax();
            let mut sorted = zs.clone();
            sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
            c.check(lo == sorted[0] && hi == sorted[n - 1], "minmax", || format!("minimum and maximum of {zs:?} are {lo} and {hi}"));
            c.count("minmax", 1);
            c.nontrivial(&(symbols.clone(), name, period, xs[0].to_bits()));
            c.sample(|| json!({"symbols": symbols, "moving average": v, "code": code}));
        },
    )
}
