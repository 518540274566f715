//! Access to results: C05 (all rows, in order), C06 (typed cells), C07 (typed columns).
use crate::{model::*, net::*, p_net, p_read, sym};
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Timelike};
use chrono_tz::Tz;
use clickhouse_rs::types::*;
use clickhouse_rs::verif_hooks as vh;
use clickhouse_rs::types::column::iter::Iterable;
use clickhouse_rs::{Block, Pool};
use futures_util::StreamExt;
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use uuid::Uuid;

/// may a value of this Rust type be read from a column?
#[derive(Clone, Copy, PartialEq)]
pub enum Fit { Must, May, Never }
use Fit::*;
fn both(a: Fit, b: Fit) -> Fit { if a == Never || b == Never { Never } else if a == May || b == May { May } else { Must } }
fn base(n: &str) -> &str { n.split('(').next().unwrap() }
/// the type without wrappers that do not show
fn plain(t: &T) -> &T { match t { T::Lc(t, _) | T::Agg(_, t) => plain(t), t => t } }

/// is this what the reference value means?
pub trait Same { fn same(&self, t: &T, v: &V, tz: Tz) -> bool; fn valid(_: &T, _: &V) -> bool { true } }
/// block.get::<Self>
pub trait Get: Same { fn get(t: &T) -> Fit; fn item(t: &T) -> Fit { if matches!(t, T::Lc(..) | T::Agg(..)) && Self::get(t) == Must { May } else { Self::get(t) } } }
/// column.iter::<Self>
pub trait Iter { fn fits(t: &T) -> Fit; }

fn is(t: &T, n: &str) -> Fit { match t { T::Fix(_, c, _) if base(c) == n => Must, _ => Never } }
fn rd<const N: usize>(v: &V) -> [u8; N] { let mut b = [0; N]; b.copy_from_slice(raw(v)); b }
macro_rules! nums { ($($t:ident $n:expr),*) => { $(
    impl Same for $t { fn same(&self, t: &T, v: &V, _: Tz) -> bool { is(plain(t), $n) == Must && raw(v) == &self.to_le_bytes()[..] } }
    impl Get for $t { fn get(t: &T) -> Fit { is(plain(t), $n) } }
    impl Iter for $t { fn fits(t: &T) -> Fit { if let T::Lc(..) = t { if is(plain(t), $n) == Must { return May } } is(plain(t), $n) } }
)* } }
nums!(u8 "UInt8", u16 "UInt16", u32 "UInt32", u64 "UInt64", u128 "UInt128", i8 "Int8", i16 "Int16", i32 "Int32", i64 "Int64", i128 "Int128", f32 "Float32", f64 "Float64");
macro_rules! others { ($($t:ty, $n:expr, |$x:ident, $ty:ident, $v:ident, $tz:ident| $e:expr);* $(;)?) => { $(
    impl Same for $t { fn same(&self, $ty: &T, $v: &V, $tz: Tz) -> bool { let $x = self; let $ty = plain($ty); $n.iter().any(|n: &&str| is($ty, n) == Must) && $e } }
    impl Get for $t { fn get(t: &T) -> Fit { if $n.iter().any(|n: &&str| is(plain(t), n) == Must) { Must } else { Never } } }
    impl Iter for $t { fn fits(t: &T) -> Fit { match <$t as Get>::get(t) { Must if matches!(t, T::Agg(..)) || (matches!(t, T::Lc(..)) && !["Date", "DateTime"].contains(&$n[0])) => May, f => f } } }
)* } }
others! {
    bool, ["Bool"], |x, t, v, tz| raw(v) == [*x as u8];
    Ipv4Addr, ["IPv4"], |x, t, v, tz| { let mut o = x.octets(); o.reverse(); raw(v) == o };
    Ipv6Addr, ["IPv6"], |x, t, v, tz| raw(v) == x.octets();
    Uuid, ["UUID"], |x, t, v, tz| { let (h, l) = x.as_u64_pair(); raw(v)[..8] == h.to_le_bytes() && raw(v)[8..] == l.to_le_bytes() };
    NaiveDate, ["Date"], |x, t, v, tz| x.signed_duration_since(NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days() == u16::from_le_bytes(rd(v)) as i64;
    DateTime<Tz>, ["DateTime", "DateTime64"], |x, t, v, tz| x.timezone() == t.zone(tz) && nanos(t, v) == x.timestamp() as i128 * 1_000_000_000 + x.timestamp_subsec_nanos() as i128;
    NaiveDateTime, ["DateTime", "DateTime64"], |x, t, v, tz| nanos(t, v) == x.timestamp() as i128 * 1_000_000_000 + x.nanosecond() as i128;
    Decimal, ["Decimal"], |x, t, v, tz| t.same(&ValueRef::Decimal(x.clone()), v, tz);
    Enum8, ["Enum8"], |x, t, v, tz| raw(v) == x.internal().to_le_bytes();
    Enum16, ["Enum16"], |x, t, v, tz| raw(v) == x.internal().to_le_bytes();
}
fn nanos(t: &T, v: &V) -> i128 {
    match t { T::Fix(_, c, _) if base(c) == "DateTime64" => i64::from_le_bytes(rd(v)) as i128 * 10i128.pow(9 - t.args()[0].parse::<u32>().unwrap()), _ => u32::from_le_bytes(rd(v)) as i128 * 1_000_000_000 }
}
fn text(t: &T) -> bool { matches!(plain(t), T::Str(_) | T::FStr(_)) }
impl Same for String { fn same(&self, t: &T, v: &V, _: Tz) -> bool { text(t) && raw(v) == self.as_bytes() } fn valid(_: &T, v: &V) -> bool { std::str::from_utf8(raw(v)).is_ok() } }
impl Get for String { fn get(t: &T) -> Fit { if text(t) { Must } else { Never } } fn item(t: &T) -> Fit { strs(t) } }
fn strs(t: &T) -> Fit { match t { T::Str(_) => Must, _ if text(t) => May, _ => Never } }
impl Same for &str { fn same(&self, t: &T, v: &V, _: Tz) -> bool { text(t) && raw(v) == self.as_bytes() } fn valid(_: &T, v: &V) -> bool { std::str::from_utf8(raw(v)).is_ok() } }
impl Get for &str { fn get(t: &T) -> Fit { if text(t) { Must } else { Never } } fn item(t: &T) -> Fit { strs(t) } }
impl Same for &[u8] { fn same(&self, t: &T, v: &V, _: Tz) -> bool { text(t) && raw(v) == *self } }
impl Get for &[u8] { fn get(t: &T) -> Fit { if text(t) { Must } else { Never } } fn item(t: &T) -> Fit { strs(t) } }
impl Iter for &[u8] { fn fits(t: &T) -> Fit { if text(t) { if let T::Agg(..) = t { May } else { Must } } else { Never } } }
impl<X: Same> Same for &X { fn same(&self, t: &T, v: &V, tz: Tz) -> bool { (**self).same(t, v, tz) } }
/// the bytes of a string or of an array of UInt8
pub struct Bytes(Vec<u8>);
impl Same for Bytes { fn same(&self, t: &T, v: &V, tz: Tz) -> bool { match (plain(t), v) { (T::Arr(_), _) => self.0.same(t, v, tz), (_, V::Raw(b)) => text(t) && *b == self.0, _ => false } } }
impl Get for Bytes { fn get(t: &T) -> Fit { if text(t) { Must } else { Vec::<u8>::get(t) } } fn item(t: &T) -> Fit { strs(t) } }
impl<'a> FromSql<'a> for Bytes { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Bytes(Vec::<u8>::from_sql(v)?)) } }
pub struct Many(Vec<Vec<u8>>);
impl Same for Many { fn same(&self, t: &T, v: &V, tz: Tz) -> bool { match (plain(t), v) { (T::Arr(t), V::Arr(v)) => v.len() == self.0.len() && (0..v.len()).all(|i| (&self.0[i][..]).same(t, &v[i], tz)), _ => false } } }
impl Get for Many { fn get(t: &T) -> Fit { Vec::<&[u8]>::get(t) } }
impl<'a> FromSql<'a> for Many { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Many(Vec::<Vec<u8>>::from_sql(v)?)) } }

impl<X: Same> Same for Vec<X> {
    fn same(&self, t: &T, v: &V, tz: Tz) -> bool { match (plain(t), v) { (T::Arr(t), V::Arr(v)) => v.len() == self.len() && (0..v.len()).all(|i| self[i].same(t, &v[i], tz)), _ => false } }
    fn valid(t: &T, v: &V) -> bool { match (plain(t), v) { (T::Arr(t), V::Arr(v)) => v.iter().all(|v| X::valid(t, v)), _ => true } }
}
impl<X: Get> Get for Vec<X> { fn get(t: &T) -> Fit { match plain(t) { T::Arr(t) => X::item(t), _ => Never } } }
impl<X: Iter> Iter for Vec<X> { fn fits(t: &T) -> Fit { match t { T::Arr(t) => inner::<X>(t), T::Agg(_, t) => both(May, Self::fits(t)), _ => Never } } }
/// dates are not offered inside of other types; wrappers neither
fn inner<X: Iter>(t: &T) -> Fit { match (X::fits(t), t) { (Must, T::Fix(_, c, _)) if base(c).starts_with("Date") => May, (Must, T::Lc(..) | T::Agg(..)) => May, (f, _) => f } }
impl<X: Same> Same for Option<X> {
    fn same(&self, t: &T, v: &V, tz: Tz) -> bool { match (plain(t), v, self) { (T::Null(_), V::Null, None) => true, (T::Null(t), V::Some(v), Some(x)) => x.same(t, v, tz), _ => false } }
    fn valid(t: &T, v: &V) -> bool { match (plain(t), v) { (T::Null(t), V::Some(v)) => X::valid(t, v), _ => true } }
}
impl<X: Get> Get for Option<X> { fn get(t: &T) -> Fit { match plain(t) { T::Null(t) => X::get(t), _ => Never } } }
impl<X: Iter> Iter for Option<X> { fn fits(t: &T) -> Fit { match t { T::Null(t) => inner::<X>(t), T::Agg(_, t) => both(May, Self::fits(t)), _ => Never } } }
impl<K: Same + Eq + std::hash::Hash, W: Same> Same for HashMap<K, W> {
    fn same(&self, t: &T, v: &V, tz: Tz) -> bool { match (plain(t), v) { (T::Map(k, w), V::Map(v)) => v.len() == self.len() && v.iter().all(|(a, b)| self.iter().any(|(x, y)| x.same(k, a, tz) && y.same(w, b, tz))), _ => false } }
    fn valid(t: &T, v: &V) -> bool { match (plain(t), v) { (T::Map(a, b), V::Map(v)) => v.iter().all(|(x, y)| K::valid(a, x) && W::valid(b, y)), _ => true } }
}
impl<K: Get + Eq + std::hash::Hash, W: Get> Get for HashMap<K, W> { fn get(t: &T) -> Fit { match plain(t) { T::Map(k, w) => both(K::get(k), W::get(w)), _ => Never } } }
impl<K: Iter, W: Iter> Iter for HashMap<K, W> { fn fits(t: &T) -> Fit { match t { T::Map(k, w) => both(inner::<K>(k), inner::<W>(w)), T::Agg(_, t) => both(May, Self::fits(t)), _ => Never } } }

/// dates and instants come from lists
fn tame(t: &T, v: V) -> V {
    match (t, v) {
        (T::Fix(_, "Date", _), _) => V::Raw([0u16, 18_000, 65_535][sym::shape(3)].to_le_bytes().to_vec()),
        (T::Fix(_, "DateTime", _), _) => V::Raw([0u32, 1_600_000_000, u32::MAX][sym::shape(3)].to_le_bytes().to_vec()),
        (T::Fix(_, c, _), _) if base(c) == "DateTime64" => { let p = t.args()[0].parse::<u32>().unwrap(); V::Raw(([0i64, 1_600_000_000 * 10i64.pow(p) + 10i64.pow(p) / 3][sym::shape(2)]).to_le_bytes().to_vec()) }
        (T::Null(t), V::Some(v)) => V::Some(Box::new(tame(t, *v))),
        (T::Arr(t), V::Arr(v)) => V::Arr(v.into_iter().map(|v| tame(t, v)).collect()),
        (T::Map(k, w), V::Map(v)) => V::Map(v.into_iter().map(|(a, b)| (tame(k, a), tame(w, b))).collect()),
        (T::Lc(t, _), v) | (T::Agg(_, t), v) => tame(t, v),
        (_, v) => v,
    }
}
/// of all the bytes of strings only the last two of the first one are arbitrary, the others are ASCII
fn calm(t: &T, v: &V, free: &mut bool) {
    match (t, v) {
        (T::Str(_) | T::FStr(_), V::Raw(b)) => {
            let k = if *free && !b.is_empty() { *free = false; b.len().saturating_sub(2) } else { b.len() };
            for x in &b[..k] { sym::assume(*x < 0x80) }
        }
        (T::Null(t), V::Some(v)) => calm(t, v, free),
        (T::Arr(t), V::Arr(v)) => for v in v { calm(t, v, free) },
        (T::Map(k, w), V::Map(v)) => for (a, b) in v { calm(k, a, free); calm(w, b, free) },
        (T::Lc(t, _) | T::Agg(_, t), v) => calm(t, v, free),
        _ => {}
    }
}
const N: usize = 3;
/// a column `x` of any values behind a column `id` of row numbers
fn table(t: &T, n: usize) -> [Col; 2] {
    sym::shapes(sym::param("shapes", 4));
    [Col { name: "id".into(), t: f("UInt16", 2), vs: (0..n).map(|i| p_net::u16v(i as u16)).collect() }, Col { name: "x".into(), t: t.clone(), vs: (0..n).map(|_| tame(t, t.any())).collect() }]
}
fn part(cs: &[Col], a: usize, b: usize) -> Vec<Col> { cs.iter().map(|c| Col { name: c.name.clone(), t: c.t.clone(), vs: c.vs[a..b].to_vec() }).collect() }
fn load(cs: &[Col], tz: Tz) -> Block { sym::ok(vh::decode_block(&enc_block(cs), tz, false).0, "a valid block is rejected") }
/// the same rows in several blocks
fn split(cs: &[Col], cuts: &[usize], tz: Tz) -> Block<Complex> {
    let n = cs[0].vs.len();
    let mut at = 0;
    let mut bs = vec![];
    for c in cuts.iter().copied().chain([n]) { bs.push(load(&part(cs, at, c), tz)); at = c; }
    vh::concat(&bs)
}
fn some_type() -> T {
    let mut ts = p_read::scalars();
    ts.extend(p_read::params());
    ts.extend(p_read::nested());
    ts.extend(p_read::deep());
    ts.extend(p_read::lowcard());
    ts[sym::choose(ts.len())].clone()
}
fn get<'a, X: FromSql<'a> + Get, K: ColumnType>(b: &'a Block<K>, rows: &'a [Row<'a, K>], c: &Col, tz: Tz) {
    for r in 0..c.vs.len() {
        let v = &c.vs[r];
        for how in 0..3 {
            let x: Result<X, _> = match how { 0 => b.get(r, 1), 1 => b.get(r, "x"), _ => rows[r].get("x") };
            match x {
                Ok(x) => {
                    sym::check(X::valid(&c.t, v), "a string which is no UTF-8 is read as one");
                    sym::check(x.same(&c.t, v, tz), "a cell is read as another value");
                }
                Err(_) => sym::check(X::get(&c.t) != Must || !X::valid(&c.t, v), "a cell cannot be read as its own type"),
            }
        }
    }
}
macro_rules! each { ($f:ident, $k:ty, $a:tt: $($t:ty),* $(,)?) => { $( $f::<$t, $k> $a; )* } }
fn get_all<'a, K: ColumnType>(b: &'a Block<K>, rows: &'a [Row<'a, K>], c: &Col, tz: Tz) {
    each!(get, K, (b, rows, c, tz): u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, String, &str, &[u8], Bytes, Ipv4Addr, Ipv6Addr, Uuid, NaiveDate, DateTime<Tz>, Decimal, Enum8, Enum16);
    each!(get, K, (b, rows, c, tz): Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<i128>, Vec<f32>, Vec<f64>, Vec<bool>, Vec<String>, Vec<&str>, Vec<&[u8]>, Many, Vec<NaiveDate>, Vec<DateTime<Tz>>, Vec<Enum8>, Vec<Enum16>);
    each!(get, K, (b, rows, c, tz): Option<u8>, Option<u16>, Option<i128>, Option<f64>, Option<bool>, Option<String>, Option<&str>, Option<Bytes>, Option<Ipv4Addr>, Option<Uuid>, Option<NaiveDate>, Option<DateTime<Tz>>, Option<Decimal>, Option<Enum8>, Option<Enum16>);
    each!(get, K, (b, rows, c, tz): HashMap<u8, u32>, HashMap<String, String>, HashMap<&str, Bytes>, HashMap<i64, Option<String>>, HashMap<String, HashMap<u16, u8>>, HashMap<u8, u8>);
}
/// every cell as every type
pub fn c06_types() {
    let t = some_type();
    let tz = Tz::America__New_York;
    let cs = table(&t, N - 1);
    let mut free = true;
    for v in &cs[1].vs { calm(&t, v, &mut free) }
    if sym::choose(2) == 0 {
        let b = load(&cs, tz);
        let rows: Vec<_> = b.rows().collect();
        get_all(&b, &rows, &cs[1], tz);
    } else {
        let b = split(&cs, &[1, 1], tz);
        let rows: Vec<_> = b.rows().collect();
        get_all(&b, &rows, &cs[1], tz);
    }
    sym::reach("read");
}
/// cells are found by row and by column, or not at all
pub fn c06_index() {
    let n = sym::choose(3);
    let mut cs = vec![];
    let m = sym::choose(4);
    let names = ["a", "b", "", "a "];
    for i in 0..m { cs.push(Col::any(names[i], &f("UInt16", 2), n)) }
    let b = load(&cs, Tz::UTC);
    sym::check(b.column_count() == m && b.row_count() == if m == 0 { 0 } else { n } && b.is_empty() == (m == 0), "the size of a block");
    let r = [0, 1, 2, 3, 1 << 40, usize::MAX][sym::choose(6)];
    let i = [0, 1, 2, 3, 4, usize::MAX][sym::choose(6)];
    let is = i < m;
    let get: Result<u16, _> = b.get(r, i);
    match get {
        Ok(x) => sym::check(is && r < n && x.same(&cs[i].t, &cs[i].vs[r], Tz::UTC), "a cell which is not there"),
        Err(_) => sym::check(!is || r >= n, "a cell is not found"),
    }
    match b.get_column(i) { Ok(c) => sym::check(is && c.name() == names[i], "another column"), Err(_) => sym::check(!is, "a column is not found") }
    for (k, name) in names.iter().enumerate() {
        let x: Result<u16, _> = b.get(r, *name);
        match x {
            Ok(x) => sym::check(k < m && r < n && x.same(&cs[k].t, &cs[k].vs[r], Tz::UTC), "a cell of a column which is not there"),
            Err(_) => sym::check(k >= m || r >= n, "a named cell is not found"),
        }
        sym::check(b.get_column(*name).is_ok() == (k < m), "a column by its name");
        sym::check(b.get::<u16, _>(r, "A").is_err() && b.get::<u16, _>(r, "aa").is_err(), "a name which is not there");
    }
    let rows: Vec<_> = b.rows().collect();
    sym::check(rows.len() == b.row_count(), "the number of rows");
    for (k, row) in rows.iter().enumerate() {
        sym::check(row.len() == m && row.is_empty() == (m == 0), "the length of a row");
        match row.get::<u16, _>(i) { Ok(x) => sym::check(is && x.same(&cs[i].t, &cs[i].vs[k], Tz::UTC), "a row's cell"), Err(_) => sym::check(!is, "a row's cell is not found") }
        match row.name(i) { Ok(x) => sym::check(is && x == names[i], "a row's name"), Err(_) => sym::check(!is, "a row's name is not found") }
        match row.sql_type(i) { Ok(x) => sym::check(is && x == SqlType::UInt16, "a row's type"), Err(_) => sym::check(!is, "a row's type is not found") }
    }
    if is && r < n { sym::reach("found") } else { sym::reach("out of range") }
}

fn iter<'a, X: Iterable<'a, K> + Iter, K: ColumnType>(b: &'a Block<K>, c: &Col, tz: Tz) where <X::Iter as Iterator>::Item: Same {
    let n = c.vs.len();
    let col = &b.columns()[1];
    let mut it = match col.iter::<X>() { Ok(it) => it, Err(_) => { sym::check(X::fits(&c.t) != Must, "a column cannot be read as its own type"); return } };
    sym::check(X::fits(&c.t) != Never || n == 0, "a column is read as another type");
    for r in 0..n {
        let (lo, hi) = it.size_hint();
        sym::check(lo <= n - r && hi.map_or(true, |h| h >= n - r), "size_hint");
        match it.next() { Some(x) => sym::check(x.same(&c.t, &c.vs[r], tz), "a column holds other values"), None => sym::fail("a column ends too soon") }
    }
    sym::check(it.next().is_none() && it.next().is_none(), "a column holds too many values");
    // the other ways through
    for k in 0..=n {
        let Ok(mut it) = col.iter::<X>() else { sym::fail("the second iterator fails") };
        match it.nth(k) { Some(x) => sym::check(k < n && x.same(&c.t, &c.vs[k], tz), "nth gives another value"), None => sym::check(k >= n, "nth ends too soon") }
        match it.next() { Some(x) => sym::check(k + 1 < n && x.same(&c.t, &c.vs[k + 1], tz), "the value behind nth"), None => sym::check(k + 1 >= n, "the iterator ends behind nth") }
        let Ok(mut it) = col.iter::<X>() else { sym::fail("the second iterator fails") };
        if k > 0 { let _ = it.nth(k - 1); }
        sym::check(it.count() == n - k, "count");
    }
}
fn iter_all<'a>(b: &'a Block<Simple>, c: &Col, tz: Tz) {
    each!(iter, Simple, (b, c, tz): u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, &[u8], Ipv4Addr, Ipv6Addr, Uuid, NaiveDate, NaiveDateTime, DateTime<Tz>, Decimal);
    each!(iter, Simple, (b, c, tz): Vec<u8>, Vec<u64>, Vec<f32>, Vec<bool>, Vec<&[u8]>, Vec<NaiveDate>, Vec<DateTime<Tz>>, Vec<Uuid>, Vec<Decimal>, Vec<Option<u16>>, Vec<Option<&[u8]>>, Vec<Vec<u8>>, Vec<Vec<&[u8]>>, Vec<Vec<Option<i32>>>, Vec<HashMap<u8, u8>>);
    each!(iter, Simple, (b, c, tz): Option<u8>, Option<&[u8]>, Option<NaiveDate>, Option<DateTime<Tz>>, Option<Decimal>, Option<Ipv4Addr>, Option<Uuid>, Option<f64>, Option<i128>, Option<bool>);
    each!(iter, Simple, (b, c, tz): HashMap<u8, u32>, HashMap<&[u8], &[u8]>, HashMap<&[u8], Vec<u8>>, HashMap<i64, Option<&[u8]>>, HashMap<&[u8], HashMap<u16, u8>>);
}
fn iter_complex<'a>(b: &'a Block<Complex>, c: &Col, tz: Tz) {
    each!(iter, Complex, (b, c, tz): u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, &[u8], Ipv4Addr, Ipv6Addr, Uuid, NaiveDate, NaiveDateTime, DateTime<Tz>, Decimal);
    each!(iter, Complex, (b, c, tz): Vec<u8>, Vec<u64>, Vec<f32>, Vec<bool>, Vec<&[u8]>, Vec<NaiveDate>, Vec<DateTime<Tz>>, Vec<Uuid>, Vec<Decimal>, Vec<Option<u16>>, Vec<Option<&[u8]>>, Vec<Vec<u8>>, Vec<Vec<&[u8]>>, Vec<Vec<Option<i32>>>, Vec<HashMap<u8, u8>>);
    each!(iter, Complex, (b, c, tz): Option<u8>, Option<&[u8]>, Option<NaiveDate>, Option<DateTime<Tz>>, Option<Decimal>, Option<Ipv4Addr>, Option<Uuid>, Option<f64>, Option<i128>, Option<bool>);
    each!(iter, Complex, (b, c, tz): HashMap<u8, u32>, HashMap<&[u8], &[u8]>, HashMap<&[u8], Vec<u8>>, HashMap<i64, Option<&[u8]>>, HashMap<&[u8], HashMap<u16, u8>>);
}
fn zone() -> Tz { [Tz::America__New_York, Tz::Asia__Tokyo][sym::shape(2)] }
pub fn c07_simple() {
    let t = some_type();
    let cs = table(&t, sym::param("rows", 2));
    let tz = zone();
    iter_all(&load(&cs, tz), &cs[1], tz);
    sym::reach("read");
}
pub fn c07_complex() {
    let t = some_type();
    let n = sym::param("rows", 2);
    let cs = table(&t, n);
    let tz = zone();
    let cuts = [vec![1], vec![0, n], vec![n - 1, n - 1], vec![1, n, n]][sym::choose(4)].clone();
    iter_complex(&split(&cs, &cuts, tz), &cs[1], tz);
    sym::reach("read");
}
pub fn c07_empty() {
    let t = some_type();
    let cs = table(&t, 0);
    let tz = zone();
    if sym::choose(2) == 0 { iter_all(&load(&cs, tz), &cs[1], tz) } else { iter_complex(&split(&cs, &[0], tz), &cs[1], tz) }
    sym::reach("read");
}

/// blocks put together hold the rows of all of them
pub fn c05_concat() {
    let ts = [f("UInt16", 2), st(), null(f("UInt8", 1)), arr(f("UInt8", 1)), lc(st(), 1), map(f("UInt8", 1), f("UInt8", 1)), f2("Decimal(9, 4)", "Decimal(9, 4)", 4), f("DateTime", 4)];
    let t = ts[sym::choose(ts.len())].clone();
    let k = sym::range(1, sym::param("blocks", 5));
    let mut cuts = vec![];
    let mut n = 0;
    for _ in 0..k { n += sym::choose(3); cuts.push(n) }
    let cs = table(&t, n);
    let tz = Tz::Asia__Tokyo;
    cuts.pop();
    check_block(&split(&cs, &cuts, tz), &cs, tz);
    sym::reach("concat");
}
/// a server's answer: a header, then blocks of any number of rows, with news between them
pub fn c05_result() {
    let rev = 54429;
    let k = sym::choose(sym::param("blocks", 4));
    let mut ans = data(&p_net::cols(&[]));
    let mut xs = vec![];
    let news = sym::choose(4);
    for i in 0..k {
        if news & 1 != 0 { ans.extend(progress(rev, [3, 300, 5, 1, 2])) }
        let part = p_net::rows(sym::choose(4));
        ans.extend(data(&p_net::cols(&part)));
        xs.extend(part);
        if news & 2 != 0 && i == 0 { ans.extend(profile([3, 2, 300, 0])) }
    }
    ans.push(EOS);
    setup(rev, p_net::server(vec![ans.clone(), ans]));
    let kind = sym::choose(3);
    let pool = Pool::new(url(""));
    let r = run(async {
        let mut c = pool.get_handle().await?;
        p_net::op(&mut c, kind, &xs).await?;
        p_net::op(&mut c, 0, &xs).await
    });
    sym::check(matches!(r, Some(Ok(()))), "a result cannot be read");
    sym::reach(["all", "blocks", "rows"][kind]);
}
/// answers without any block, and blocks which do not belong together
pub fn c05_odd() {
    let rev = 54429;
    let what = sym::choose(5);
    let mut ans = vec![];
    let x = sym::u16();
    let a = |v: u16| Col { name: "a".into(), t: f("UInt16", 2), vs: vec![p_net::u16v(v)] };
    let b = || Col { name: "b".into(), t: f("UInt8", 1), vs: vec![V::Raw(vec![1])] };
    match what {
        0 => {}
        1 => { ans.extend(data(&[])); ans.extend(progress(rev, [1, 1, 1, 1, 1])) }
        2 => { ans.extend(data(&[a(x)])); ans.extend(data(&[a(x), b()])) }
        3 => { ans.extend(data(&[a(x), b()])); ans.extend(data(&[a(x)])) }
        _ => { ans.extend(data(&[a(x)])); ans.extend(data(&[b()])) }
    }
    ans.push(EOS);
    setup(rev, p_net::server(vec![ans]));
    let pool = Pool::new(url(""));
    let kind = sym::choose(3);
    let r = run(async {
        let mut c = pool.get_handle().await?;
        let n = match kind {
            0 => { let b = c.query("CREATE TABLE t").fetch_all().await?; sym::check(b.column_count() == 0 || what > 1, "columns from nowhere"); b.row_count() }
            1 => { let mut s = c.query("CREATE TABLE t").stream_blocks(); let mut n = 0; while let Some(b) = s.next().await { n += b?.row_count() } n }
            _ => { let mut s = c.query("CREATE TABLE t").stream(); let mut n = 0; while let Some(r) = s.next().await { r?; n += 1 } n }
        };
        Ok::<usize, clickhouse_rs::errors::Error>(n)
    });
    match r {
        None => sym::fail("a result is never read"),
        Some(Ok(n)) => { sym::check(what < 2 || kind > 0, "blocks of different columns are put together"); sym::check(n == 0 || what >= 2, "rows from nowhere"); sym::reach("read") }
        Some(Err(_)) => { sym::check(what >= 2, "an empty result cannot be read"); sym::reach("error") }
    }
}
