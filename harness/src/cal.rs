//! Calendar arithmetic on its own (days from civil, after Hinnant), as the reference for dates.
pub const DAY: u64 = 86_400_000;

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

pub fn month_floor(t: u64) -> u64 {
    let (y, m, _) = civil_from_days((t / DAY) as i64);
    days_from_civil(y, m, 1) as u64 * DAY
}

pub fn month_ceil(t: u64) -> u64 {
    let f = month_floor(t);
    if f == t {
        return t;
    }
    let (y, m, _) = civil_from_days((t / DAY) as i64);
    (if m == 12 { days_from_civil(y + 1, 1, 1) } else { days_from_civil(y, m + 1, 1) }) as u64 * DAY
}

/// 1970-01-01 was a Thursday.
pub fn week_floor(t: u64) -> u64 {
    let days = (t / DAY) as i64;
    let weekday = (days + 3).rem_euclid(7);
    (days - weekday) as u64 * DAY
}

pub fn week_ceil(t: u64) -> u64 {
    let f = week_floor(t);
    if f == t {
        t
    } else {
        f + 7 * DAY
    }
}

pub fn is_leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

pub fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + is_leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
