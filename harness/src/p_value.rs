//! C18: decimals; C19: values; C20: rows.
use crate::{model::*, p_read, sym};
use chrono::{DateTime, NaiveDate, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::types::*;
use clickhouse_rs::{row, verif_hooks as vh, Block};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::net::{Ipv4Addr, Ipv6Addr};
use uuid::Uuid;

/// keeps what is hashed
#[derive(Default, PartialEq)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { 0 }
}
fn hash<X: Hash>(x: &X) -> Rec { let mut r = Rec::default(); x.hash(&mut r); r }

/* C18 */
fn p10(n: usize) -> i128 { 10i128.pow(n as u32) }
pub fn c18_eq() {
    let (s, t) = (sym::choose(19), sym::choose(19));
    let n = NUMS[sym::choose(sym::param("nums", 8)) * 7 % 30];
    // the same number in another scale, or one close to it, if there is one
    let m = n as i128 * p10(t) / p10(s);
    if m > i64::MAX as i128 - 200 || m < i64::MIN as i128 + 200 { return; }
    let (a, b) = (n, m as i64 + sym::i8() as i64);
    let (x, y) = (Decimal::new(a, s as u8), Decimal::new(b, t as u8));
    let same = a as i128 * p10(18 - s) == b as i128 * p10(18 - t);
    sym::check((x == y) == same && (y == x) == same, "equality of decimals");
    if same { sym::check(hash(&x) == hash(&y), "equal decimals have different hashes"); sym::reach("equal") } else { sym::reach("different") }
    sym::check(y.internal::<i64>() == b && y.scale() == t, "the parts of a decimal");
}
const NUMS: [i64; 30] = [0, 1, -1, 5, -5, 9, 10, -10, 42, -99, 100, 101, -1000, 99_999, -100_000, 123_456_789, -123_456_789, 1_000_000_000, i32::MAX as i64, i32::MIN as i64, 99_999_999_999, -1_000_000_000_007,
    10_000_000_000_000_000, 123_456_789_012_345_678, -123_456_789_012_345_678, 999_999_999_999_999_999, 1_000_000_000_000_000_000, -1_000_000_000_000_000_000, i64::MAX, i64::MIN];
fn text(u: i64, s: usize) -> String {
    let m = u.unsigned_abs();
    let whole = m / 10u64.pow(s as u32);
    let mut o = String::new();
    if u < 0 { o.push('-') }
    o += &whole.to_string();
    if s > 0 {
        o.push('.');
        for i in (0..s).rev() { o.push((b'0' + (m / 10u64.pow(i as u32) % 10) as u8) as char) }
    }
    o
}
pub fn c18_print() {
    let (u, s) = (NUMS[sym::choose(NUMS.len())], sym::choose(19));
    let d = Decimal::new(u, s as u8);
    let e = text(u, s);
    match sym::choose(4) {
        0 => sym::check(format!("{}", d) == e, "a decimal is printed as another number"),
        1 => sym::check(format!("{:?}", d) == e, "a decimal is printed as another number"),
        2 => sym::check(format!("{}", Value::from(d)) == e, "a decimal is printed as another number"),
        _ => sym::check(format!("{}", ValueRef::Decimal(d)) == e, "a decimal is printed as another number"),
    }
    sym::reach("printed");
}
macro_rules! of { ($s:ident, $($t:ident),*) => { { let mut i = 0; let k = sym::choose(8); $( if i == k {
    let v = match sym::choose(4) { 0 => sym::i8() as $t, 1 => ($t::MAX / 3).wrapping_add(sym::i8() as $t), 2 => $t::MIN.wrapping_add(sym::i8() as $t), _ => (10i64.pow(18 - $s as u32) as $t).wrapping_add(sym::i8() as $t) };
    let e = v as i128 * p10($s);
    sym::assume(e >= -p10(18) && e <= p10(18));
    let d = Decimal::of(v, $s as u8);
    sym::check(d.internal::<i64>() as i128 == e && d.scale() == $s, "a decimal of an integer is another number");
} i += 1; )* let _ = i; } } }
pub fn c18_of() { let s = sym::choose(19); of!(s, i8, i16, i32, i64, u8, u16, u32, u64); sym::reach("made") }
/// floats which decimals hold exactly, and back
pub fn c18_float() {
    let s = sym::range(3, 15);
    let n = [0i64, 1, -1, 7, -7, 8, 100, -1001, 65_537, 799_999][sym::choose(10)];
    let x = n as f64 / 8.0;
    let e = n as i128 * p10(s) / 8;
    if e.abs() < 1 << 53 {
        let d = Decimal::of(x, s as u8);
        sym::check(d.internal::<i64>() as i128 == e, "a decimal of a float is another number");
        sym::check(f64::from(d.clone()) == x, "a decimal becomes another float");
        if e.abs() < 1 << 24 {
            sym::check(Decimal::of(x as f32, s as u8) == d, "a decimal of a float is another number");
        }
        sym::check((f32::from(d) - x as f32).abs() <= x.abs() as f32 * 1e-6, "a decimal becomes another float");
        sym::reach("float");
    }
}
/// numbers close to where a rescaled one does not fit any more, and others
fn edge(from: usize, to: usize, w: usize) -> i64 {
    let lim = 1i128 << (8 * w - 1);
    let e = if to >= from { lim / p10(to - from) } else { lim * p10(from - to) };
    let n = match sym::choose(6) { 0 => 0, 1 => e, 2 => -e, 3 => i64::MAX as i128, 4 => i64::MIN as i128, _ => 1_234_567_890_123 };
    (n.clamp(i64::MIN as i128, i64::MAX as i128) + sym::i8() as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64
}
fn dtype(p: usize, s: usize) -> &'static str { Box::leak(format!("Decimal({}, {})", p, s).into_boxed_str()) }
fn dcol(p: usize, s: usize) -> T { let n = dtype(p, s); f2(n, n, if p <= 9 { 4 } else { 8 }) }
/// what a decimal becomes in a column of another scale
fn rescaled(u: i64, from: usize, to: usize, w: usize) -> Option<i64> {
    let v = if to >= from { u as i128 * p10(to - from) } else { u as i128 / p10(from - to) };
    let lim = 1i128 << (8 * w - 1);
    if v >= -lim && v < lim { Some(v as i64) } else { None }
}
fn scales() -> (usize, usize, usize) {
    let a = [0, 1, 4, 9, 18][sym::choose(5)];
    let (p, b) = [(9, 0), (9, 4), (9, 9), (10, 0), (10, 3), (18, 0), (18, 1), (18, 9), (18, 18), (1, 1)][sym::choose(10)];
    (a, p, b)
}
fn head(t: &T, rows: usize) -> Block { sym::ok(vh::decode_block(&enc_block(&[Col { name: "x".into(), t: t.clone(), vs: (0..rows).map(|i| t.key(i)).collect() }]), Tz::UTC, false).0, "a valid block is rejected") }
/// into a column of the table
pub fn c18_insert() {
    let (a, p, s) = scales();
    let t = dcol(p, s);
    let w = if p <= 9 { 4 } else { 8 };
    let u = edge(a, s, w);
    let e = rescaled(u, a, s, w);
    let opt = sym::choose(2) == 1;
    let (b, h) = if opt { (Block::new().column("x", vec![Some(Decimal::new(u, a as u8)), None]), head(&null(t), 0)) } else { (Block::new().column("x", vec![Decimal::new(u, a as u8)]), head(&t, 0)) };
    match vh::cast(&b, &h) {
        Ok(b) => {
            let o = vh::encode_block(&b, false);
            let mut v = [0u8; 8];
            let at = o.len() - w * if opt { 2 } else { 1 };
            v[..w].copy_from_slice(&o[at..at + w]);
            let v = if w == 4 { i32::from_le_bytes([v[0], v[1], v[2], v[3]]) as i64 } else { i64::from_le_bytes(v) };
            sym::check(e == Some(v), "a decimal is inserted as another number");
            sym::reach("inserted");
        }
        Err(_) => { sym::check(e.is_none(), "a decimal cannot be inserted"); sym::reach("too large") }
    }
}
/// into a column of a block
pub fn c18_push() {
    let (a, p, s) = scales();
    let w = if p <= 9 { 4 } else { 8 };
    let u = edge(a, s, w);
    let e = rescaled(u, a, s, w);
    let opt = sym::choose(2) == 1;
    let t = if opt { null(dcol(p, s)) } else { dcol(p, s) };
    let mut b = head(&t, 0);
    let d = Decimal::new(u, a as u8);
    let v = if opt { Value::Nullable(either::Either::Right(Box::new(Value::from(d)))) } else { Value::from(d) };
    let r = b.push(row! { x: v });
    match r {
        Ok(()) => {
            let d: Decimal = if opt { sym::some(sym::ok(b.get::<Option<Decimal>, _>(0, "x"), "a cell cannot be read"), "a value became NULL") } else { sym::ok(b.get(0, "x"), "a cell cannot be read") };
            sym::check(d.scale() == s && Some(d.internal::<i64>()) == e, "a decimal is pushed as another number");
            sym::reach("pushed");
        }
        Err(_) => { sym::check(e.is_none(), "a decimal cannot be pushed"); sym::check(b.row_count() == 0, "a rejected row is in the block"); sym::reach("too large") }
    }
}

/* C19 */
/// any value of the type; days, instants and what is hashed by the driver are concrete
pub fn gen(t: &T, i: usize) -> V {
    match t {
        T::Fix(_, c, w) if c.starts_with("Date") => { let mut b = [0x11u8, 0x22, 0x33, 4, 0, 0, 0, 0]; b[0] += i as u8; V::Raw(b[..*w].to_vec()) }
        T::Fix(_, c, w) if c.starts_with("Decimal") => V::Raw([0i64, 1000, -1, 12_340][sym::choose(4)].to_le_bytes()[..*w].to_vec()),
        T::Fix(_, c, _) if c.starts_with("Enum8(") => V::Raw(vec![enum_values(c)[i % enum_values(c).len()].1 as u8]),
        T::Fix(_, c, _) if c.starts_with("Enum16(") => V::Raw((enum_values(c)[i % enum_values(c).len()].1 as i16).to_le_bytes().to_vec()),
        T::Null(t) => if sym::choose(2) == 0 { V::Null } else { V::Some(Box::new(gen(t, i))) },
        T::Arr(t) => { let n = [2, 0][sym::choose(2)]; V::Arr((0..n).map(|k| gen(t, i + k)).collect()) }
        T::Map(k, v) => { let n = [2, 0][sym::choose(2)]; V::Map((0..n).map(|j| (conc(k, i + j), gen(v, i + j))).collect()) }
        T::Lc(t, _) => conc(t, i),
        T::Agg(_, t) => gen(t, i),
        T::Str(_) => V::Raw(sym::vec([2, 0][sym::choose(2)])),
        t => t.any(),
    }
}
fn conc(t: &T, i: usize) -> V {
    match t {
        T::Fix(_, c, _) if c.starts_with("Date") || c.starts_with("Enum") => gen(t, i),
        T::Fix(_, "Bool", _) => V::Raw(vec![i as u8 % 2]),
        T::Null(t) => if i == 1 { V::Null } else { V::Some(Box::new(conc(t, i))) },
        T::Lc(t, _) | T::Agg(_, t) => conc(t, i),
        t => t.key(i),
    }
}
pub fn maps() -> Vec<T> {
    let mut m = vec![];
    for k in p_read::scalars() { m.push(map(k, f("UInt8", 1))) }
    for k in p_read::params() { if k.name(true) != "Enum8('one' = 1)" { m.push(map(k, f("UInt8", 1))) } }
    m.push(map(st(), null(st())));
    m.push(map(f("UInt32", 4), arr(f("UInt16", 2))));
    m.push(map(lc(st(), 1), st()));
    m.push(map(st(), map(f("UUID", 16), f("Bool", 1))));
    m
}
pub fn every() -> Vec<T> {
    let mut v = p_read::scalars();
    v.extend(p_read::params());
    v.extend(p_read::nested());
    v.push(lc(st(), 1));
    v.push(lc(null(st()), 1));
    v.push(lc(f("Date", 2), 1));
    v.push(lc(T::FStr(3), 1));
    v.push(arr(null(st())));
    v.push(arr(arr(f("UInt16", 2))));
    v.push(agg("any", f("UInt64", 8)));
    v.push(agg("sum", f("Float64", 8)));
    v
}
fn decode(t: &T, vs: &[V]) -> Block { decode_in(t, vs, Tz::UTC) }
fn decode_in(t: &T, vs: &[V], z: Tz) -> Block { sym::ok(vh::decode_block(&enc_block(&[Col { name: "x".into(), t: t.clone(), vs: vs.to_vec() }]), z, false).0, "a valid block is rejected") }
fn float(t: &T) -> bool { t.name(true).contains("Float") }
fn alike(a: &V, b: &V) -> bool {
    match (a, b) { (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| alike(k, l) && alike(v, w))), _ => a == b }
}
fn values(ts: Vec<T>) {
    let t = &ts[sym::choose(ts.len())];
    let vs = [gen(t, 0), gen(t, sym::choose(2))];
    let b = decode_in(t, &vs, Tz::Asia__Tokyo);
    let c: Cell = sym::ok(b.get(0, 0), "a cell cannot be read");
    let d: Cell = sym::ok(b.get(1, 0), "a cell cannot be read");
    let (x, y) = (Value::from(c.0.clone()), Value::from(d.0.clone()));
    // NaN is not equal to itself, both zeros are
    let nan = float(t) && x != Value::from(c.0.clone());
    if !nan {
        sym::check(x == x.clone() && c.0 == c.0.clone(), "a value is not equal to its copy");
        sym::check(hash(&x) == hash(&x.clone()) && hash(&c.0) == hash(&c.0.clone()), "a value and its copy have different hashes");
    }
    let same = alike(&vs[0], &vs[1]);
    let eq = x == y;
    sym::check(eq == (c.0 == d.0), "cells and their values are not equal in the same cases");
    if !float(t) { sym::check(eq == same, "equality of values") }
    if eq { sym::check(hash(&x) == hash(&y), "equal values have different hashes"); sym::check(hash(&c.0) == hash(&d.0), "equal cells have different hashes"); sym::reach("equal") } else { sym::reach("different") }
    // there and back
    let r = ValueRef::from(&x);
    sym::check(t.same(&r, &vs[0], Tz::Asia__Tokyo), "a value becomes another cell");
    let z = Value::from(r.clone());
    if !nan { sym::check(z == x && r == c.0, "a value is another one there and back") }
    sym::check(strip(&SqlType::from(x.clone()).to_string()) == strip(&SqlType::from(c.0.clone()).to_string()), "a value and its cell have different types");
    sym::check(Value::UInt8(1) != Value::Int8(1) && (matches!(x, Value::UInt8(_)) || x != Value::UInt8(1)), "values of different types are equal");
}
pub fn c19_values() { values(every()) }
pub fn c19_maps() { values(maps()) }
macro_rules! there { ($k:ident, $i:ident; $($t:ty, $e:expr);* $(;)?) => { $( if $i == $k { let v: $t = $e; let w: $t = Value::from(v.clone()).into(); sym::check(w == v, "a value is converted into another one"); } $i += 1; )* } }
/// Rust values become values and come back
pub fn c19_convert() {
    let k = sym::choose(22);
    let mut i = 0;
    there! { k, i;
        bool, sym::bool(); u8, sym::u8(); u16, sym::u16(); u32, sym::u32(); u64, sym::u64(); u128, sym::u128();
        i8, sym::i8(); i16, sym::i16(); i32, sym::i32(); i64, sym::i64(); i128, sym::i128();
        String, sym::ascii(3); Vec<u8>, sym::vec(3); [u8; 4], sym::bytes();
        NaiveDate, NaiveDate::from_num_days_from_ce_opt(719_163 + sym::choose(2) as i32 * 65_535).unwrap();
        DateTime<Tz>, Tz::Europe__Moscow.timestamp_opt([0, -5, 4_294_967_296][sym::choose(3)], 123_456_789).unwrap();
    }
    if k == i { let v = f32::from_bits(sym::u32()); sym::check(f32::from(Value::from(v)).to_bits() == v.to_bits(), "a value is converted into another one"); }
    i += 1;
    if k == i { let v = f64::from_bits(sym::u64()); sym::check(f64::from(Value::from(v)).to_bits() == v.to_bits(), "a value is converted into another one"); }
    i += 1;
    if k == i {
        let v = if sym::choose(2) == 0 { None } else { Some(sym::u32()) };
        let x = Value::from(v);
        sym::check(SqlType::from(x.clone()).to_string() == "Nullable(UInt32)", "an option has another type");
        match (x, v) { (Value::Nullable(either::Either::Left(_)), None) => {} (Value::Nullable(either::Either::Right(x)), Some(v)) => sym::check(*x == Value::UInt32(v), "an option is converted into another one"), _ => sym::fail("an option is converted into another one") }
    }
    i += 1;
    if k == i {
        let v = vec![sym::i16(), sym::i16()];
        match Value::from(v.clone()) { Value::Array(t, x) => sym::check(t.to_string() == "Int16" && *x == vec![Value::Int16(v[0]), Value::Int16(v[1])], "an array is converted into another one"), _ => sym::fail("an array is converted into something else") }
    }
    i += 1;
    if k == i {
        let mut m = HashMap::new();
        let (a, b) = (sym::u64(), sym::u64());
        m.insert("a".to_string(), a);
        m.insert("b".to_string(), b);
        let x = Value::from(m.clone());
        sym::check(x == Value::from(m), "a map is not equal to its copy");
        match &x { Value::Map(k, v, h) => sym::check(k.to_string() == "String" && v.to_string() == "UInt64" && h.len() == 2 && h[&Value::from("a")] == Value::UInt64(a) && h[&Value::from("b")] == Value::UInt64(b), "a map is converted into another one"), _ => sym::fail("a map is converted into something else") }
    }
    i += 1;
    if k == i { let b = sym::bytes(); let u = Uuid::from_bytes(b); match Value::from(u) { Value::Uuid(w) => { let (h, l) = u.as_u64_pair(); sym::check(w[..8] == h.to_le_bytes() && w[8..] == l.to_le_bytes(), "a UUID is converted into another one") } _ => sym::fail("a UUID is converted into something else") } }
    sym::reach("converted");
}
/// every value can be printed, as what it is
pub fn c19_print() {
    let k = sym::choose(18);
    let z = Tz::Europe__Moscow;
    let both = |v: Value, e: &str| { sym::check(format!("{}", v) == e, "a value is printed as something else"); sym::check(format!("{}", ValueRef::from(&v)) == e, "a cell is printed as something else") };
    match k {
        0 => both(Value::from(true), "true"),
        1 => both(Value::from(i64::MIN), "-9223372036854775808"),
        2 => both(Value::from(u128::MAX), "340282366920938463463374607431768211455"),
        3 => both(Value::from("text"), "text"),
        4 => both(Value::from(vec![0u8, 159, 146]), "[0, 159, 146]"),
        5 => both(Value::Date(16_436), "2015-01-01"),
        6 => both(Value::Date(u16::MAX), "2149-06-06"),
        7 => both(Value::from([4, 3, 2, 1]), "1.2.3.4"),
        8 => { let a = "2001:db8::8a2e:370:7334"; both(Value::from(a.parse::<Ipv6Addr>().unwrap().octets()), a) }
        9 => { let a = "936da01f-9abd-4d9d-80c7-02af85c822a8"; both(Value::from(Uuid::parse_str(a).unwrap()), a) }
        10 => both(Value::from(Option::<u8>::None), "NULL"),
        11 => both(Value::from(Some(7u8)), "7"),
        12 => both(Value::from(vec![1i32, -2]), "[1, -2]"),
        13 => both(Value::from(Decimal::new(-5, 2)), "-0.05"),
        14 => {
            let v = Value::DateTime(86_399, z);
            sym::check(format!("{}", v) == "Fri, 2 Jan 1970 02:59:59 +0300", "an instant is printed as another one");
            sym::check(format!("{}", ValueRef::from(&v)) == "1970-01-02 02:59:59", "an instant is printed as another one");
        }
        15 => {
            let v = Value::DateTime64(-1, (3, Tz::UTC));
            sym::check(format!("{}", v) == "Wed, 31 Dec 1969 23:59:59 +0000", "an instant is printed as another one");
            sym::check(format!("{}", ValueRef::from(&v)) == "1969-12-31 23:59:59", "an instant is printed as another one");
        }
        16 => {
            // whatever there is can be printed
            let p = sym::choose(10) as u32;
            let t = [i64::MIN, i64::MAX, 253_402_300_800, -62_167_219_201, 8_210_298_412_800, 9_300_000_000_000][sym::choose(6)];
            let v = Value::DateTime64(t, (p, z));
            sym::check(!format!("{}", v).is_empty() && !format!("{}", ValueRef::from(&v)).is_empty() && !format!("{:?}", v).is_empty(), "an instant cannot be printed");
        }
        _ => {
            let y = [0, 9999, 10_000, -1][sym::choose(4)];
            let v = Value::from(z.from_utc_datetime(&NaiveDate::from_ymd_opt(y, 3, 1).unwrap().and_hms_opt(1, 2, 3).unwrap()));
            sym::check(!format!("{}", v).is_empty() && !format!("{:?}", v).is_empty(), "an instant cannot be printed");
        }
    }
    sym::reach("printed");
}

/* C20 */
fn snapshot<K: ColumnType>(b: &Block<K>) -> Vec<(String, String, usize)> { b.columns().iter().map(|c| (c.name().to_string(), c.sql_type().to_string().into_owned(), vh::column_len(c))).collect() }
fn cell<'a>(b: &'a Block, r: usize, c: &str) -> ValueRef<'a> { let x: Cell = sym::ok(b.get(r, c), "a cell cannot be read"); x.0 }
/// rows with any selection of columns and of types
pub fn c20_rows() {
    const N: [&str; 3] = ["a", "b", "c"];
    let mut b: Block = if sym::choose(2) == 0 { Block::new() } else { Block::with_capacity(4) };
    let mut cols: Vec<&str> = vec![];
    let mut rows: Vec<Vec<(&str, Value)>> = vec![];
    for r in 0..sym::param("rows", 3) {
        let mut e: Vec<(&str, Value)> = vec![];
        let mut good = true;
        for n in N {
            // absent, present, of another type than elsewhere; the first row has at least one column
            let kind = if r < 2 { sym::choose(3) } else { [0, 1][sym::choose(2)] };
            if kind == 0 { continue; }
            let v = match (n, kind) { ("a", 1) => Value::from(sym::u8()), ("b", 1) => Value::from(sym::ascii(2)), ("c", 1) => Value::from(Some(sym::i32())), ("a", _) => Value::from(sym::i8()), ("b", _) => Value::from(sym::u64()), _ => Value::from(Some(f32::from_bits(sym::u32()))) };
            e.push((n, v));
        }
        if sym::choose(2) == 1 { e.reverse() }
        let twice = r == 1 && !e.is_empty() && sym::choose(2) == 1;
        if twice { let x = e[0].clone(); e.push(x) }
        let before = snapshot(&b);
        let first = rows.is_empty();
        if !first {
            good = e.len() == cols.len() && cols.iter().all(|n| e.iter().any(|x| x.0 == *n && SqlType::from(x.1.clone()).to_string() == SqlType::from(rows[0].iter().find(|y| y.0 == *n).unwrap().1.clone()).to_string()));
        } else if twice { good = false }
        let owned: Vec<(String, Value)> = e.iter().map(|(n, v)| (n.to_string(), v.clone())).collect();
        let res = b.push(owned);
        sym::check(res.is_ok() == good, if good { "a valid row is rejected" } else { "an invalid row is accepted" });
        if good {
            if first { cols = e.iter().map(|x| x.0).collect(); }
            if !e.is_empty() { rows.push(e); }
            sym::reach("pushed");
        } else {
            sym::check(snapshot(&b) == before, "a rejected row changes the block");
            sym::reach("rejected");
        }
        sym::check(b.row_count() == rows.len() && b.column_count() == cols.len() && b.columns().iter().all(|c| vh::column_len(c) == rows.len()), "the columns of a block have different lengths");
    }
    for (i, r) in rows.iter().enumerate() { for (n, v) in r { sym::check(Value::from(cell(&b, i, n)) == *v || matches!(v, Value::Nullable(either::Either::Right(x)) if matches!(**x, Value::Float32(_))), "a cell has another value than was pushed") } }
}
/// the macro and the vector are the same rows
pub fn c20_macro() {
    let (x, y, z) = (sym::u16(), sym::ascii(2), if sym::choose(2) == 0 { None } else { Some(sym::u64()) });
    let mut b: Block = Block::new();
    sym::ok(b.push(row! { x: x, y: y.clone(), z }), "a valid row is rejected");
    sym::ok(b.push(row! { "z" => z, "x" => x, "y" => y.clone() }), "a valid row is rejected");
    sym::check(b.push(row! { x: x, y: y.clone() }).is_err() && b.push(row! { x: x, y: y.clone(), z, w: 1u8 }).is_err() && b.push(row! { x: x, x: x, z }).is_err(), "an invalid row is accepted");
    sym::check(b.row_count() == 2 && b.column_count() == 3, "a block has another size");
    for r in 0..2 {
        sym::check(sym::ok(b.get::<u16, _>(r, "x"), "no x") == x && sym::ok(b.get::<String, _>(r, "y"), "no y") == y && sym::ok(b.get::<Option<u64>, _>(r, "z"), "no z") == z, "a cell has another value than was pushed");
    }
    sym::reach("pushed");
}
/// are these the same kind of values, wrappers aside?
fn kind(t: &T) -> String {
    match t {
        T::Null(t) | T::Lc(t, _) | T::Agg(_, t) => kind(t),
        T::Arr(t) => format!("[{}]", kind(t)),
        T::Map(k, v) => format!("[{}={}]", kind(k), kind(v)),
        T::Str(_) | T::FStr(_) => "S".into(),
        T::Fix(_, c, _) => { let b = c.split('(').next().unwrap(); if b == "DateTime64" { "DateTime".into() } else { b.into() } }
    }
}
/// a value of any type goes into a column of any type as itself or not at all
pub fn c20_types() {
    let mut ts = every();
    ts.push(map(st(), f("UInt8", 1)));
    ts.push(map(f("UUID", 16), null(st())));
    let t = &ts[sym::choose(ts.len())];
    let u = &ts[sym::choose(ts.len())];
    let same = t.name(false) == u.name(false);
    let (old, new) = (conc1(t), if same { gen(u, 1) } else { conc1(u) });
    let mut b = decode(t, &[old.clone()]);
    let from = decode(u, &[new.clone()]);
    let v = Value::from(cell(&from, 0, "x"));
    let copy = b.clone();
    let before = snapshot(&b);
    match b.push(vec![("x".to_string(), v)]) {
        Ok(()) => {
            sym::check(kind(t) == kind(u), "a value of another type is accepted");
            sym::check(b.row_count() == 2, "a pushed row is missing");
            sym::check(t.same(&cell(&b, 0, "x"), &old, Tz::UTC), "pushing a row changes another one");
            if same { sym::check(t.same(&cell(&b, 1, "x"), &new, Tz::UTC), "a cell has another value than was pushed"); sym::reach("same type") }
            // both can be written
            let b = sym::ok(vh::cast(&b, &decode(t, &[])), "a pushed row cannot be inserted");
            let o = vh::encode_block(&b, false);
            // the timezone is not written
            let r = sym::ok(vh::decode_block(&o, t.zone(Tz::UTC), false).0, "a written block cannot be read");
            sym::check(r.row_count() == 2 && t.same(&cell(&r, 0, "x"), &old, Tz::UTC), "a block is written with another value");
            if same { sym::check(t.same(&cell(&r, 1, "x"), &new, Tz::UTC), "a block is written with another value") }
        }
        Err(_) => { sym::check(!same, "a value of the type of the column is rejected"); sym::check(snapshot(&b) == before, "a rejected row changes the block"); sym::reach("rejected") }
    }
    sym::check(snapshot(&copy) == before && t.same(&cell(&copy, 0, "x"), &old, Tz::UTC), "pushing a row changes a clone");
}
/// one concrete value
fn conc1(t: &T) -> V {
    match t { T::Arr(t) => V::Arr(vec![conc(t, 0)]), T::Map(k, v) => V::Map(vec![(conc(k, 0), conc(v, 2))]), T::Agg(_, t) => conc1(t), t => conc(t, 0) }
}
/// values of every type make columns which hold them
pub fn c20_new() {
    let mut ts: Vec<T> = every().into_iter().filter(|t| !t.name(true).starts_with("DateTime")).collect();
    ts.push(map(st(), f("UInt8", 1)));
    let t = &ts[sym::choose(ts.len())];
    let vs = [gen(t, 0), gen(t, 1)];
    let from = decode(t, &vs);
    let mut b: Block = Block::new();
    for r in 0..2 {
        let v = Value::from(cell(&from, r, "x"));
        sym::ok(b.push(vec![("x".to_string(), v)]), "a valid row is rejected");
    }
    for r in 0..2 { sym::check(t.same(&cell(&b, r, "x"), &vs[r], Tz::UTC), "a cell has another value than was pushed") }
    sym::reach("pushed");
}
