//! C17: dates and times are the same instants on both sides.
use crate::{model::*, sym};
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, TimeZone, Timelike};
use chrono_tz::Tz;
use clickhouse_rs::types::*;
use clickhouse_rs::{verif_hooks as vh, Block};

/// days since 1970 around the edges of years, leap years, ranges of types and of nanoseconds
const DAYS: [i64; 26] = [
    -25_567, -25_509, -25_508, -10_000, -366, -365, -1, 0, 1, 58, 59, 789, 10_956, 11_016, 11_322, 17_955, 18_261, 24_855, 36_524, 47_540, 49_710, 65_535, 106_751, 106_752, 109_573, 120_529,
];
/// far outside of the years ClickHouse supports, still fine for chrono with little precision
const FAR: [i64; 8] = [-106_752, -106_753, -719_162, -719_529, 2_932_896, 2_932_897, 90_000_000, -90_000_000];
const ZONES: [Tz; 4] = [Tz::UTC, Tz::Europe__Moscow, Tz::America__New_York, Tz::Asia__Kolkata];
const ZN: [&str; 4] = ["UTC", "Europe/Moscow", "America/New_York", "Asia/Kolkata"];

fn col(t: T, vs: Vec<i64>, w: usize) -> Vec<u8> {
    enc_block(&[Col { name: "x".into(), t, vs: vs.iter().map(|v| V::Raw(v.to_le_bytes()[..w].to_vec())).collect() }])
}
fn named(n: String, w: usize) -> T { let s: &'static str = Box::leak(n.into_boxed_str()); f2(s, s, w) }
fn date(day: i64) -> NaiveDate { NaiveDate::from_num_days_from_ce_opt((719_163 + day) as i32).unwrap() }

/// any number below n; zero is a case of its own
fn some(n: u32) -> u32 { if sym::choose(2) == 0 { 0 } else { 1 + sym::u32() % (n - 1) } }
/// an instant of a day from the list: seconds and nanoseconds, and its ticks
fn instant(days: &[i64], p: u32) -> (i64, i64, i64) {
    let day = days[sym::choose(days.len())];
    let s = some(86_400);
    let k = 10i64.pow(p);
    let sub = if p == 0 { 0 } else { some(k as u32) as i64 };
    let sec = day * 86_400 + s as i64;
    (sec, sub * 10i64.pow(9 - p), sec * k + sub)
}
fn eq(x: &DateTime<Tz>, sec: i64, ns: i64, z: Tz) {
    sym::check(x.timezone() == z, "an instant is given in another zone");
    sym::check(x.timestamp() == sec, "an instant is read as another second");
    sym::check(x.timestamp_subsec_nanos() as i64 == ns, "an instant is read with another fraction");
}
fn read(days: &[i64], p: u32) {
    // 64 bits hold no other instants in nanoseconds
    let days = if p == 9 { days.iter().copied().filter(|d| (-106_751..106_751).contains(d)).collect::<Vec<_>>() } else { days.to_vec() };
    let z = sym::choose(sym::param("zones", 2));
    let (sec, ns, ticks) = instant(&days, p);
    let b = sym::ok(vh::decode_block(&col(named(format!("DateTime64({}, '{}')", p, ZN[z]), 8), vec![ticks], 8), Tz::UTC, false).0, "a valid block is rejected");
    match sym::choose(4) {
        0 => eq(&sym::ok(b.get(0, 0), "an instant cannot be read"), sec, ns, ZONES[z]),
        1 => {
            let it: Vec<DateTime<Tz>> = sym::ok(b.columns()[0].iter::<DateTime<Tz>>(), "a column cannot be read").collect();
            sym::check(it.len() == 1, "a column has another length");
            eq(&it[0], sec, ns, ZONES[z]);
        }
        2 => {
            let it: Vec<NaiveDateTime> = sym::ok(b.columns()[0].iter::<NaiveDateTime>(), "a column cannot be read").collect();
            sym::check(it[0].timestamp() == sec, "an instant is read as another second");
            sym::check(it[0].nanosecond() as i64 == ns, "an instant is read with another fraction");
        }
        _ => {
            let c: Cell = sym::ok(b.get(0, 0), "a cell cannot be read");
            eq(&DateTime::<Tz>::from(c.0.clone()), sec, ns, ZONES[z]);
            eq(&DateTime::<Tz>::from(Value::from(c.0)), sec, ns, ZONES[z]);
        }
    }
    sym::reach("read");
}
pub fn c17_read() { let p = sym::choose(10) as u32; read(&DAYS[..sym::param("days", 26)], p) }
pub fn c17_far() { let p = [0, 3][sym::choose(2)]; read(&FAR, p) }
/// whatever a server sends is an instant or an error
pub fn c17_any() {
    let p = sym::choose(10) as u32;
    // the largest year chrono knows is 262142
    let lim = 8_210_266_876_799i128 * 10i128.pow(p);
    let e = sym::range(0, 63);
    let v = ((1i128 << e) - [0, 1][sym::choose(2)]) * [1, -1][sym::choose(2)];
    let v = v as i64;
    let b = sym::ok(vh::decode_block(&col(named(format!("DateTime64({}, 'UTC')", p), 8), vec![v], 8), Tz::UTC, false).0, "a valid block is rejected");
    let x: Result<DateTime<Tz>, _> = b.get(0, 0);
    match x {
        Ok(x) => { let k = 10i64.pow(p); eq(&x, v.div_euclid(k), v.rem_euclid(k) * 10i64.pow(9 - p), Tz::UTC); sym::reach("read") }
        Err(_) => { sym::check((v as i128).abs() > lim - 86_400 * 400 * 10i128.pow(p), "an instant cannot be read"); sym::reach("rejected") }
    }
}
/// DateTime: any second, in the zone of the column
pub fn c17_datetime() {
    let z = sym::choose(sym::param("zones", 2));
    let day = [0i64, 1, 58, 59, 789, 11_016, 18_261, 24_855, 36_524, 49_709][sym::choose(10)];
    let s = some(86_400);
    let sec = day * 86_400 + s as i64;
    let own = sym::choose(2) == 1;
    let b = sym::ok(vh::decode_block(&col(if own { named(format!("DateTime('{}')", ZN[z]), 4) } else { f("DateTime", 4) }, vec![sec], 4), if own { Tz::Asia__Tokyo } else { ZONES[z] }, false).0, "a valid block is rejected");
    match sym::choose(3) {
        0 => eq(&sym::ok(b.get(0, 0), "an instant cannot be read"), sec, 0, ZONES[z]),
        1 => eq(&sym::some(sym::ok(b.columns()[0].iter::<DateTime<Tz>>(), "a column cannot be read").next(), "no row"), sec, 0, ZONES[z]),
        _ => sym::check(sym::some(sym::ok(b.columns()[0].iter::<NaiveDateTime>(), "a column cannot be read").next(), "no row").timestamp() == sec, "an instant is read as another second"),
    }
    sym::reach("read");
}
/// Date: every day there is, in every zone the same
pub fn c17_date() {
    let hi = sym::choose(256) as u16;
    let lo = [0u16, 1, 30, 31, 58, 59, 60, 127, 128, 200, 254, 255][sym::choose(12)];
    let d = hi << 8 | lo;
    let b = sym::ok(vh::decode_block(&col(f("Date", 2), vec![d as i64], 2), ZONES[sym::choose(2) + 1], false).0, "a valid block is rejected");
    let x: NaiveDate = sym::ok(b.get(0, 0), "a date cannot be read");
    let y = sym::some(sym::ok(b.columns()[0].iter::<NaiveDate>(), "a column cannot be read").next(), "no row");
    sym::check(x == y && x.num_days_from_ce() as i64 - 719_163 == d as i64, "a date is read as another day");
    let b2 = Block::new().column("x", vec![x]);
    let w = vh::encode_block(&b2, false);
    sym::check(w[w.len() - 2..] == d.to_le_bytes(), "a date is written as another day");
    let v: Value = x.into();
    sym::check(NaiveDate::from(v.clone()) == x && v == Value::Date(d), "a date is another value");
    sym::reach("date");
}
/// an instant goes into a DateTime64 or DateTime column as itself, less what the precision leaves out
pub fn c17_write() {
    let p = sym::choose(10) as u32;
    let day = DAYS[sym::choose(sym::param("days", 26))];
    let s = some(86_400);
    let ns = some(1_000_000_000);
    let sec = day * 86_400 + s as i64;
    let z = ZONES[sym::choose(2)];
    let x: DateTime<Tz> = z.from_utc_datetime(&NaiveDateTime::new(date(day), chrono::NaiveTime::from_num_seconds_from_midnight_opt(s, ns).unwrap()));
    if p == 9 && !(-106_751..106_751).contains(&day) { return; }
    let b = Block::new().column("x", vec![x]);
    let k = 10i64.pow(p);
    let head = sym::ok(vh::decode_block(&col(named(format!("DateTime64({}, 'UTC')", p), 8), vec![], 8), Tz::UTC, false).0, "a valid block is rejected");
    let w = vh::encode_block(&sym::ok(vh::cast(&b, &head), "an instant cannot be inserted"), false);
    let mut t = [0u8; 8];
    t.copy_from_slice(&w[w.len() - 8..]);
    let t = i64::from_le_bytes(t);
    // less than a tick away, on either side before 1970
    let whole = sec * k;
    let sub = ns as i64 / 10i64.pow(9 - p);
    let exact = sub * 10i64.pow(9 - p) == ns as i64;
    sym::check(t == whole + sub || (!exact && sec < 0 && t == whole + sub + 1), "an instant is written as another one");
    sym::reach("written");
}
