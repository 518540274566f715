//! C02 / C04: what the user puts into a block is what an INSERT puts on the wire, whole or in chunks.
use crate::{model::*, p_read::*, sym, wire};
use chrono::{DateTime, NaiveDate, TimeZone, Datelike};
use chrono_tz::Tz;
use clickhouse_rs::types::column::ColumnFrom;
use clickhouse_rs::types::*;
use clickhouse_rs::{verif_hooks as vh, Block};
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use uuid::Uuid;

/// a Rust value the driver accepts, with the wire form it has to take
pub trait Elem: Sized + Clone {
    fn any() -> Self;
    fn v(&self) -> V;
    /// the type it is inserted as
    fn t() -> T;
}
macro_rules! num { ($($t:ty, $n:expr, $w:expr, $f:ident;)*) => { $( impl Elem for $t {
    fn any() -> Self { sym::$f() }
    fn v(&self) -> V { V::Raw(self.to_le_bytes().to_vec()) }
    fn t() -> T { f($n, $w) }
} )* } }
num! { u8, "UInt8", 1, u8; u16, "UInt16", 2, u16; u32, "UInt32", 4, u32; u64, "UInt64", 8, u64; u128, "UInt128", 16, u128; i8, "Int8", 1, i8; i16, "Int16", 2, i16; i32, "Int32", 4, i32; i64, "Int64", 8, i64; i128, "Int128", 16, i128; }
impl Elem for f32 { fn any() -> Self { f32::from_bits(sym::u32()) } fn v(&self) -> V { V::Raw(self.to_bits().to_le_bytes().to_vec()) } fn t() -> T { f("Float32", 4) } }
impl Elem for f64 { fn any() -> Self { f64::from_bits(sym::u64()) } fn v(&self) -> V { V::Raw(self.to_bits().to_le_bytes().to_vec()) } fn t() -> T { f("Float64", 8) } }
impl Elem for bool { fn any() -> Self { sym::bool() } fn v(&self) -> V { V::Raw(vec![*self as u8]) } fn t() -> T { f("Bool", 1) } }
impl Elem for String { fn any() -> Self { sym::ascii(sym::shape(3)) } fn v(&self) -> V { V::Raw(self.as_bytes().to_vec()) } fn t() -> T { st() } }
impl Elem for Ipv4Addr { fn any() -> Self { Ipv4Addr::from(sym::bytes::<4>()) } fn v(&self) -> V { let mut o = self.octets(); o.reverse(); V::Raw(o.to_vec()) } fn t() -> T { f("IPv4", 4) } }
impl Elem for Ipv6Addr { fn any() -> Self { Ipv6Addr::from(sym::bytes::<16>()) } fn v(&self) -> V { V::Raw(self.octets().to_vec()) } fn t() -> T { f("IPv6", 16) } }
impl Elem for Uuid { fn any() -> Self { Uuid::from_bytes(sym::bytes()) } fn v(&self) -> V { let b = self.as_bytes(); V::Raw((0..16).map(|i| if i < 8 { b[7 - i] } else { b[23 - i] }).collect()) } fn t() -> T { f("UUID", 16) } }
impl Elem for Enum8 { fn any() -> Self { let v = sym::i8(); sym::assume(v == -128 || v == 0 || v == 5); Enum8::of(v) } fn v(&self) -> V { V::Raw(self.internal().to_le_bytes().to_vec()) } fn t() -> T { f2(E8, E8, 1) } }
impl Elem for Enum16 { fn any() -> Self { let v = sym::i16(); sym::assume(v == -300 || v == 0 || v == 32767); Enum16::of(v) } fn v(&self) -> V { V::Raw(self.internal().to_le_bytes().to_vec()) } fn t() -> T { f2(E16, E16, 2) } }
/// days a Date can hold at the ends of its range and of months and years
pub const DAYS: [u16; 6] = [0, 1, 58, 789, 18262, 65535];
impl Elem for NaiveDate {
    fn any() -> Self { NaiveDate::from_num_days_from_ce_opt(719_163 + DAYS[sym::shape(DAYS.len())] as i32).unwrap() }
    fn v(&self) -> V { V::Raw(((self.num_days_from_ce() - 719_163) as u16).to_le_bytes().to_vec()) }
    fn t() -> T { f("Date", 2) }
}
/// an instant; `v` is its wire form as DateTime
pub const SECS: [u32; 5] = [0, 1, 951_782_400, 1_546_300_800, u32::MAX];
impl Elem for DateTime<Tz> {
    fn any() -> Self { [Tz::UTC, Tz::Europe__Moscow][sym::shape(2)].timestamp_opt(SECS[sym::shape(SECS.len())] as i64, 123_456_789).unwrap() }
    fn v(&self) -> V { V::Raw((self.timestamp() as u32).to_le_bytes().to_vec()) }
    fn t() -> T { f("DateTime", 4) }
}
/// Decimal(18, 4) from Decimal::new(x, 4)
impl Elem for Decimal { fn any() -> Self { Decimal::new(sym::i64(), 4) } fn v(&self) -> V { V::Raw(self.internal::<i64>().to_le_bytes().to_vec()) } fn t() -> T { f2("Decimal(18, 4)", "Decimal(18, 4)", 8) } }

pub type Made = (T, Vec<V>, Block);
fn plain<E: Elem>(n: usize) -> Made where Vec<E>: ColumnFrom {
    let x: Vec<E> = (0..n).map(|_| E::any()).collect();
    (E::t(), x.iter().map(|e| e.v()).collect(), Block::new().column("c", x))
}
fn opt<E: Elem>(n: usize) -> Made where Vec<Option<E>>: ColumnFrom {
    let x: Vec<Option<E>> = (0..n).map(|_| if sym::shape(2) == 0 { None } else { Some(E::any()) }).collect();
    (null(E::t()), x.iter().map(|e| match e { None => V::Null, Some(e) => V::Some(Box::new(e.v())) }).collect(), Block::new().column("c", x))
}
fn vecs<E: Elem>(n: usize) -> Made where Vec<Vec<E>>: ColumnFrom {
    let x: Vec<Vec<E>> = (0..n).map(|_| (0..sym::shape(3)).map(|_| E::any()).collect()).collect();
    (arr(E::t()), x.iter().map(|e| V::Arr(e.iter().map(|e| e.v()).collect())).collect(), Block::new().column("c", x))
}
fn as_type((_, vs, b): Made, t: T) -> Made { (t, vs, b) }
type Mk = fn(usize) -> Made;

pub fn w_scalars() -> Vec<Mk> {
    vec![
        plain::<u8>, plain::<u16>, plain::<u32>, plain::<u64>, plain::<u128>, plain::<i8>, plain::<i16>, plain::<i32>, plain::<i64>, plain::<i128>, plain::<f32>, plain::<f64>, plain::<bool>,
        plain::<String>, plain::<Ipv4Addr>, plain::<Ipv6Addr>, plain::<Uuid>, plain::<Enum8>, plain::<Enum16>, plain::<NaiveDate>, plain::<DateTime<Tz>>, plain::<Decimal>,
        |n| { // &str
            let x: Vec<String> = (0..n).map(|_| String::any()).collect();
            (st(), x.iter().map(|e| e.v()).collect(), Block::new().column("c", x.iter().map(|s| s.as_str()).collect::<Vec<_>>()))
        },
        |n| { // arbitrary bytes
            let x: Vec<Vec<u8>> = (0..n).map(|_| sym::vec(sym::shape(4))).collect();
            (st(), x.iter().map(|e| V::Raw(e.clone())).collect(), Block::new().column("c", x.iter().map(|s| &s[..]).collect::<Vec<_>>()))
        },
    ]
}
pub fn w_opts() -> Vec<Mk> {
    vec![
        opt::<u8>, opt::<u16>, opt::<u32>, opt::<u64>, opt::<i8>, opt::<i16>, opt::<i32>, opt::<i64>, opt::<f32>, opt::<f64>,
        opt::<String>, opt::<Ipv4Addr>, opt::<Ipv6Addr>, opt::<Uuid>, opt::<Enum8>, opt::<Enum16>, opt::<NaiveDate>, opt::<DateTime<Tz>>, opt::<Decimal>,
        |n| {
            let x: Vec<Option<Vec<u8>>> = (0..n).map(|_| if sym::shape(2) == 0 { None } else { Some(sym::vec(sym::shape(3))) }).collect();
            (null(st()), x.iter().map(|e| match e { None => V::Null, Some(e) => V::Some(Box::new(V::Raw(e.clone()))) }).collect(), Block::new().column("c", x))
        },
    ]
}
pub fn w_vecs() -> Vec<Mk> {
    vec![
        vecs::<u8>, vecs::<u16>, vecs::<u32>, vecs::<u64>, vecs::<i8>, vecs::<i16>, vecs::<i32>, vecs::<i64>, vecs::<f32>, vecs::<f64>, vecs::<bool>, vecs::<u128>, vecs::<i128>,
        vecs::<String>, vecs::<Enum8>, vecs::<Enum16>, vecs::<NaiveDate>, vecs::<DateTime<Tz>>,
    ]
}
pub fn w_maps() -> Vec<Mk> {
    fn ent<V2: Elem>(n: usize) -> Vec<Vec<(usize, V2)>> { (0..n).map(|_| (0..sym::shape(3)).map(|i| (i, V2::any())).collect()).collect() }
    vec![
        |n| {
            let x = ent::<u32>(n);
            let hs: Vec<HashMap<String, u32>> = x.iter().map(|r| r.iter().map(|(i, v)| (["a", "bb", "c"][*i].to_string(), *v)).collect()).collect();
            (map(st(), f("UInt32", 4)), x.iter().map(|r| V::Map(r.iter().map(|(i, v)| (V::Raw(["a", "bb", "c"][*i].into()), v.v())).collect())).collect(), Block::new().column("c", hs))
        },
        |n| {
            let x = ent::<i64>(n);
            let hs: Vec<HashMap<u16, i64>> = x.iter().map(|r| r.iter().map(|(i, v)| (*i as u16 * 300, *v)).collect()).collect();
            (map(f("UInt16", 2), f("Int64", 8)), x.iter().map(|r| V::Map(r.iter().map(|(i, v)| ((*i as u16 * 300).v(), v.v())).collect())).collect(), Block::new().column("c", hs))
        },
    ]
}
/// inserts where the column of the table has another type than the one the client guesses
pub fn w_casts() -> Vec<Mk> {
    fn pad(v: &V, n: usize) -> V { let mut b = raw(v).to_vec(); b.resize(n, 0); V::Raw(b) }
    fn d64(n: usize, p: u32, t: T) -> Made {
        let ns = [0i64, 1, 1_546_300_800_123_456_789, -5_000_000_000, 4_102_444_799_999_999_999];
        let k = 10i64.pow(9 - p);
        let x: Vec<DateTime<Tz>> = (0..n).map(|_| { let s = ns[sym::shape(ns.len())] / k * k; Tz::Europe__Moscow.timestamp_opt(s.div_euclid(1_000_000_000), s.rem_euclid(1_000_000_000) as u32).unwrap() }).collect();
        (t, x.iter().map(|d| V::Raw((d.timestamp_nanos_opt().unwrap() / k).to_le_bytes().to_vec())).collect(), Block::new().column("c", x))
    }
    fn dec(n: usize, from: u8, p: &'static str, s: u8, w: usize) -> Made {
        // rescaling multiplies or divides by a power of ten; only values which fit the target
        let lim = if w == 4 { 99_999i64 } else { 99_999_999_999 };
        let x: Vec<i64> = (0..n).map(|_| { let v = sym::i64(); sym::assume(v > -lim && v < lim); v }).collect();
        let want = |v: i64| if s >= from { v * 10i64.pow((s - from) as u32) } else { v / 10i64.pow((from - s) as u32) };
        (f2(p, p, w), x.iter().map(|v| V::Raw(want(*v).to_le_bytes()[..w].to_vec())).collect(), Block::new().column("c", x.iter().map(|v| Decimal::new(*v, from)).collect::<Vec<_>>()))
    }
    vec![
        |n| { let m = plain::<String>(n); let vs = m.1.iter().map(|v| pad(v, 2)).collect(); (T::FStr(2), vs, m.2) },
        |n| { let m = plain::<String>(n); let vs = m.1.iter().map(|v| pad(v, 5)).collect(); (T::FStr(5), vs, m.2) },
        |n| { let m = opt::<String>(n); let vs = m.1.iter().map(|v| match v { V::Some(x) => V::Some(Box::new(pad(x, 3))), v => v.clone() }).collect(); (null(T::FStr(3)), vs, m.2) },
        |n| { let m = vecs::<u8>(n); let vs = m.1.iter().map(|v| match v { V::Arr(x) => V::Raw(x.iter().map(|b| raw(b)[0]).collect()), _ => unreachable!() }).collect(); (st(), vs, m.2) },
        |n| { let m = vecs::<u8>(n); let vs = m.1.iter().map(|v| match v { V::Arr(x) => pad(&V::Raw(x.iter().map(|b| raw(b)[0]).collect()), 3), _ => unreachable!() }).collect(); (T::FStr(3), vs, m.2) },
        |n| as_type(plain::<DateTime<Tz>>(n), f2("DateTime('Europe/Moscow')", "DateTime", 4)),
        |n| d64(n, 3, f2("DateTime64(3, 'UTC')", "DateTime64(3, 'UTC')", 8)),
        |n| d64(n, 0, f2("DateTime64(0, 'UTC')", "DateTime64(0, 'UTC')", 8)),
        |n| d64(n, 9, f2("DateTime64(9, 'Asia/Tokyo')", "DateTime64(9, 'Asia/Tokyo')", 8)),
        |n| { // Nullable(DateTime64)
            let s = [0i64, 1_546_300_800_123_456, 7];
            let x: Vec<Option<i64>> = (0..n).map(|_| if sym::shape(2) == 0 { None } else { Some(s[sym::shape(3)]) }).collect();
            let ds: Vec<Option<DateTime<Tz>>> = x.iter().map(|o| o.map(|u| Tz::UTC.timestamp_opt(u / 1_000_000, (u % 1_000_000 * 1000) as u32).unwrap())).collect();
            (null(f2("DateTime64(6, 'UTC')", "DateTime64(6, 'UTC')", 8)), x.iter().map(|o| match o { None => V::Null, Some(u) => V::Some(Box::new(V::Raw(u.to_le_bytes().to_vec()))) }).collect(), Block::new().column("c", ds))
        },
        |n| dec(n, 4, "Decimal(9, 4)", 4, 4), |n| dec(n, 2, "Decimal(9, 4)", 4, 4), |n| dec(n, 4, "Decimal(9, 1)", 1, 4), |n| dec(n, 0, "Decimal(18, 7)", 7, 8), |n| dec(n, 9, "Decimal(18, 2)", 2, 8),
        |n| { let m = opt::<Decimal>(n); // same scale, narrower
            let mut lim = true;
            for v in &m.1 { if let V::Some(x) = v { let mut b = [0u8; 8]; b.copy_from_slice(raw(x)); let x = i64::from_le_bytes(b); lim &= x > -99_999_999 && x < 99_999_999 } }
            sym::assume(lim);
            (null(f2("Decimal(9, 4)", "Decimal(9, 4)", 4)), m.1.iter().map(|v| match v { V::Some(x) => V::Some(Box::new(V::Raw(raw(x)[..4].to_vec()))), v => v.clone() }).collect(), m.2) },
        |n| as_type(plain::<u64>(n), agg("sum", f("UInt64", 8))),
        |n| as_type(plain::<String>(n), agg("max", st())),
        |n| as_type(vecs::<u8>(n), agg("groupArrayArray", arr(f("UInt8", 1)))),
        |n| { // text to addresses
            let s = ["0.0.0.0", "255.254.1.2", "10.0.0.1"];
            let x: Vec<&str> = (0..n).map(|_| s[sym::shape(3)]).collect();
            (f("IPv4", 4), x.iter().map(|a| a.parse::<Ipv4Addr>().unwrap().v()).collect(), Block::new().column("c", x))
        },
        |n| {
            let s = ["::", "2001:db8::1:ff00", "::ffff:1.2.3.4"];
            let x: Vec<&str> = (0..n).map(|_| s[sym::shape(3)]).collect();
            (f("IPv6", 16), x.iter().map(|a| a.parse::<Ipv6Addr>().unwrap().v()).collect(), Block::new().column("c", x))
        },
    ]
}
pub fn w_lowcard() -> Vec<Mk> {
    vec![
        |n| { let s = ["", "a", "long string"]; let x: Vec<&str> = (0..n).map(|_| s[sym::shape(3)]).collect(); (lc(st(), 1), x.iter().map(|a| V::Raw(a.as_bytes().to_vec())).collect(), Block::new().column("c", x)) },
        |n| { let s = [0u32, 7, u32::MAX]; let x: Vec<u32> = (0..n).map(|_| s[sym::shape(3)]).collect(); (lc(f("UInt32", 4), 1), x.iter().map(|a| a.v()).collect(), Block::new().column("c", x)) },
        |n| { let s = [0i64, -7]; let x: Vec<i64> = (0..n).map(|_| s[sym::shape(2)]).collect(); (lc(f("Int64", 8), 1), x.iter().map(|a| a.v()).collect(), Block::new().column("c", x)) },
        |n| { let x: Vec<NaiveDate> = (0..n).map(|_| NaiveDate::any()).collect(); (lc(f("Date", 2), 1), x.iter().map(|a| a.v()).collect(), Block::new().column("c", x)) },
    ]
}
/// the block the server answers an INSERT with: the columns of the table, no rows
pub fn header(ts: &[T]) -> Block {
    let cols: Vec<Col> = ts.iter().enumerate().map(|(i, t)| Col { name: format!("h{}", i), t: t.clone(), vs: vec![] }).collect();
    sym::ok(vh::decode_block(&enc_block(&cols), Tz::UTC, false).0, "the header block is rejected")
}
/// what is sent for the block, in chunks of k rows, equals the rows
fn insert((t, vs, b): Made, k: usize) {
    let n = vs.len();
    // a second column keeps the rows aligned
    let ids: Vec<u16> = (0..n).map(|_| sym::u16()).collect();
    let idv: Vec<V> = ids.iter().map(|e| e.v()).collect();
    let b = b.column("id", ids);
    let ts = [t.clone(), f("UInt16", 2)];
    let cast = sym::ok(vh::cast(&b, &header(&ts)), "a block which fits the table is rejected");
    let mut rows = 0;
    let mut chunks = 0;
    for c in vh::chunks(cast, k) {
        chunks += 1;
        let out = vh::encode_block(&c, false);
        let mut r = wire::Rd::new(&out);
        if n == 0 { break; }
        let cols = dec_block(&mut r, &ts);
        r.end();
        let m = cols[0].vs.len();
        sym::check(cols[0].name == "c" && cols[1].name == "id", "column names");
        sym::check(m > 0 && m <= k && cols[1].vs.len() == m && rows + m <= n, "rows of a chunk");
        for i in 0..m {
            sym::check(veq(&cols[0].vs[i], &vs[rows + i]), "a cell is sent with another value");
            sym::check(veq(&cols[1].vs[i], &idv[rows + i]), "rows get misaligned");
        }
        rows += m;
    }
    sym::check(rows == n, "not every row is sent exactly once");
    if chunks > 1 { sym::reach("chunks") }
    sym::reach("sent");
}
fn whole(ms: Vec<Mk>, rows: usize) {
    let m = ms[sym::choose(ms.len())];
    let n = sym::range(0, rows);
    let made = m(n);
    insert(made, 1000)
}
pub fn c02_scalars() { whole(w_scalars(), sym::param("rows", 2)) }
pub fn c02_opts() { whole(w_opts(), sym::param("rows", 2)) }
pub fn c02_vecs() { whole(w_vecs(), sym::param("rows", 2)) }
pub fn c02_maps() { whole(w_maps(), sym::param("rows", 2)) }
pub fn c02_casts() { whole(w_casts(), sym::param("rows", 2)) }
/// more distinct values than a one byte index can hold
pub fn c02_lowcard_many() {
    let n = sym::param("n", 262);
    let x: Vec<u32> = (0..n).map(|i| if i % 97 == 5 { 3 } else { 1000 + i as u32 }).collect();
    let vs = x.iter().map(|a| a.v()).collect();
    insert((lc(f("UInt32", 4), 1), vs, Block::new().column("c", x)), 1000)
}
pub fn c02_lowcard() { whole(w_lowcard(), sym::param("rows", 3)) }

fn chunked(ms: Vec<Mk>, rows: usize) {
    let m = ms[sym::choose(ms.len())];
    let k = sym::range(1, rows);
    sym::shapes(8);
    let made = m(rows);
    insert(made, k)
}
pub fn c04_scalars() { chunked(w_scalars(), sym::param("rows", 4)) }
pub fn c04_opts() { chunked(w_opts(), sym::param("rows", 4)) }
pub fn c04_vecs() { chunked(w_vecs(), sym::param("rows", 4)) }
pub fn c04_maps() { chunked(w_maps(), sym::param("rows", 4)) }
pub fn c04_casts() { chunked(w_casts(), sym::param("rows", 4)) }
pub fn c04_lowcard() { chunked(w_lowcard(), sym::param("rows", 4)) }
