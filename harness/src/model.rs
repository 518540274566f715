//! Reference of the native format's columns: types, values, an encoder and a decoder which share
//! no code with the driver.
use crate::{sym, wire};
use chrono_tz::Tz;
use clickhouse_rs::types::*;
use either::Either;

#[derive(Clone)]
pub enum T {
    /// fixed width: name on the wire, name the driver prints, bytes
    Fix(&'static str, &'static str, usize),
    Str(&'static str),
    FStr(usize),
    Null(Box<T>),
    Arr(Box<T>),
    Map(Box<T>, Box<T>),
    /// with an index width of 1, 2, 4, 8 bytes
    Lc(Box<T>, usize),
    Agg(&'static str, Box<T>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum V { Raw(Vec<u8>), Null, Some(Box<V>), Arr(Vec<V>), Map(Vec<(V, V)>) }

pub fn f(n: &'static str, w: usize) -> T { T::Fix(n, n, w) }
pub fn f2(n: &'static str, c: &'static str, w: usize) -> T { T::Fix(n, c, w) }
pub fn st() -> T { T::Str("String") }
pub fn null(t: T) -> T { T::Null(Box::new(t)) }
pub fn arr(t: T) -> T { T::Arr(Box::new(t)) }
pub fn map(k: T, v: T) -> T { T::Map(Box::new(k), Box::new(v)) }
pub fn lc(t: T, w: usize) -> T { T::Lc(Box::new(t), w) }
pub fn agg(fun: &'static str, t: T) -> T { T::Agg(fun, Box::new(t)) }

impl T {
    /// the name a server sends (`canon`: the name the driver should give it)
    pub fn name(&self, canon: bool) -> String {
        match self {
            T::Fix(n, c, _) => if canon { c.to_string() } else { n.to_string() },
            T::Str(n) => if canon { "String".into() } else { n.to_string() },
            T::FStr(n) => format!("FixedString({})", n),
            T::Null(t) => format!("Nullable({})", t.name(canon)),
            T::Arr(t) => format!("Array({})", t.name(canon)),
            T::Map(k, v) => format!("Map({}, {})", k.name(canon), v.name(canon)),
            T::Lc(t, _) => format!("LowCardinality({})", t.name(canon)),
            T::Agg(fun, t) => format!("SimpleAggregateFunction({}, {})", fun, t.name(canon)),
        }
    }
    fn zero(&self) -> V {
        match self {
            T::Fix(_, _, w) => V::Raw(vec![0; *w]),
            T::Str(_) => V::Raw(vec![]),
            T::FStr(n) => V::Raw(vec![0; *n]),
            T::Null(_) => V::Null,
            T::Arr(_) => V::Arr(vec![]),
            T::Map(..) => V::Map(vec![]),
            T::Lc(t, _) | T::Agg(_, t) => t.zero(),
        }
    }
    /// an arbitrary value: contents symbolic, lengths and nullness by forking
    pub fn any(&self) -> V {
        match self {
            T::Fix("Bool", _, _) => V::Raw(vec![sym::bool() as u8]),
            T::Fix(_, c, w) => {
                let v = sym::vec(*w);
                if c.starts_with("Enum8(") { sym::assume(enum_values(c).iter().any(|(_, x)| *x as i8 as u8 == v[0])); }
                if c.starts_with("Enum16(") { sym::assume(enum_values(c).iter().any(|(_, x)| (*x as i16).to_le_bytes()[..] == v[..])); }
                V::Raw(v)
            }
            T::Str(_) => V::Raw(sym::vec(sym::shape(3))),
            T::FStr(n) => V::Raw(sym::vec(*n)),
            T::Null(t) => if sym::shape(2) == 0 { V::Null } else { V::Some(Box::new(t.any())) },
            T::Arr(t) => { let n = sym::shape(3); V::Arr((0..n).map(|_| t.any()).collect()) }
            T::Map(k, v) => { let n = sym::shape(3); V::Map((0..n).map(|i| (k.key(i), v.any())).collect()) }
            T::Lc(t, _) | T::Agg(_, t) => t.any(),
        }
    }
    /// the i-th of the distinct, concrete keys of maps
    pub fn key(&self, i: usize) -> V {
        match self {
            T::Fix(_, _, w) => { let mut b = vec![0; *w]; b[0] = 7 + 5 * i as u8; V::Raw(b) }
            T::Str(_) => V::Raw(["k", "key2", "z"][i].as_bytes().to_vec()),
            T::FStr(n) => V::Raw(vec![b'a' + i as u8; *n]),
            t => t.any(),
        }
    }
    pub fn enc(&self, vs: &[V], out: &mut Vec<u8>) {
        if vs.is_empty() { return; }
        match self {
            T::Fix(..) | T::FStr(_) => for v in vs { out.extend_from_slice(raw(v)) },
            T::Str(_) => for v in vs { wire::string(out, raw(v)) },
            T::Agg(_, t) => t.enc(vs, out),
            T::Null(t) => {
                for v in vs { out.push((*v == V::Null) as u8) }
                // what stands in the place of a null is arbitrary
                let inner: Vec<V> = vs.iter().map(|v| match v { V::Some(x) => (**x).clone(), _ => match &**t { T::Fix(..) | T::FStr(_) => V::Raw(sym::vec(raw(&t.zero()).len())), _ => t.zero() } }).collect();
                t.enc(&inner, out)
            }
            T::Arr(t) => {
                let mut n = 0u64;
                let mut all = vec![];
                for v in vs { if let V::Arr(x) = v { n += x.len() as u64; all.extend(x.iter().cloned()) } out.extend_from_slice(&n.to_le_bytes()) }
                t.enc(&all, out)
            }
            T::Map(k, w) => {
                let mut n = 0u64;
                let (mut ks, mut ws) = (vec![], vec![]);
                for v in vs { if let V::Map(x) = v { n += x.len() as u64; for (a, b) in x { ks.push(a.clone()); ws.push(b.clone()) } } out.extend_from_slice(&n.to_le_bytes()) }
                k.enc(&ks, out);
                w.enc(&ws, out)
            }
            T::Lc(t, w) => {
                // a dictionary in reverse order of the rows, behind the default value
                out.extend_from_slice(&1u64.to_le_bytes());
                let flags = match w { 1 => 0u64, 2 => 1, 4 => 2, _ => 3 } | 1 << 9 | 1 << 10;
                out.extend_from_slice(&flags.to_le_bytes());
                let mut dict = vec![t.zero()];
                for v in vs.iter().rev() { dict.push(v.clone()) }
                out.extend_from_slice(&(dict.len() as u64).to_le_bytes());
                t.enc(&dict, out);
                out.extend_from_slice(&(vs.len() as u64).to_le_bytes());
                for i in 0..vs.len() { out.extend_from_slice(&((vs.len() - i) as u64).to_le_bytes()[..*w]) }
            }
        }
    }
    pub fn dec(&self, n: usize, r: &mut wire::Rd) -> Vec<V> {
        if n == 0 { return vec![]; }
        match self {
            T::Fix(_, _, w) | T::FStr(w) => (0..n).map(|_| V::Raw(r.take(*w).to_vec())).collect(),
            T::Str(_) => (0..n).map(|_| V::Raw(r.string())).collect(),
            T::Agg(_, t) => t.dec(n, r),
            T::Null(t) => {
                let m = r.take(n).to_vec();
                let vs = t.dec(n, r);
                vs.into_iter().zip(m).map(|(v, m)| { sym::check(m <= 1, "a null map holds 0 and 1 only"); if m == 1 { V::Null } else { V::Some(Box::new(v)) } }).collect()
            }
            T::Arr(t) => {
                let offs: Vec<usize> = (0..n).map(|_| r.u64() as usize).collect();
                let l = offs[n - 1];
                sym::check(l < 1000, "the last array offset exceeds the number of items");
                let vs = t.dec(l, r);
                let mut p = 0;
                offs.into_iter().map(|o| { sym::check(p <= o && o <= l, "array offsets decrease"); let x = vs[p..o].to_vec(); p = o; V::Arr(x) }).collect()
            }
            T::Map(k, w) => {
                let offs: Vec<usize> = (0..n).map(|_| r.u64() as usize).collect();
                let l = offs[n - 1];
                sym::check(l < 1000, "the last map offset exceeds the number of items");
                let ks = k.dec(l, r);
                let ws = w.dec(l, r);
                let mut p = 0;
                offs.into_iter().map(|o| { sym::check(p <= o && o <= l, "map offsets decrease"); let x = (p..o).map(|i| (ks[i].clone(), ws[i].clone())).collect(); p = o; V::Map(x) }).collect()
            }
            T::Lc(t, _) => {
                sym::check(r.u64() == 1, "LowCardinality version");
                let flags = r.u64();
                sym::check(flags & !0x6ff == 0 && flags & 1 << 9 != 0 && flags & 0xff < 4, "LowCardinality flags");
                let d = r.u64() as usize;
                sym::check(d < 1000, "LowCardinality dictionary size");
                let dict = t.dec(d, r);
                sym::check(r.u64() == n as u64, "LowCardinality row count");
                let w = 1 << (flags & 0xff);
                (0..n).map(|_| { let mut b = [0u8; 8]; b[..w].copy_from_slice(r.take(w)); let i = u64::from_le_bytes(b) as usize; sym::check(i < d, "LowCardinality index outside of the dictionary"); dict[i].clone() }).collect()
            }
        }
    }
    /// does the cell the driver returns stand for `v`?
    pub fn same(&self, c: &ValueRef, v: &V, tz: Tz) -> bool {
        match (self, c, v) {
            (T::Lc(t, _), _, _) | (T::Agg(_, t), _, _) => t.same(c, v, tz),
            (T::Null(_), ValueRef::Nullable(Either::Left(_)), V::Null) => true,
            (T::Null(t), ValueRef::Nullable(Either::Right(x)), V::Some(y)) => t.same(x, y, tz),
            (T::Arr(t), ValueRef::Array(ty, xs), V::Arr(ys)) => strip(&ty.to_string()) == strip(&t.name(true)) && xs.len() == ys.len() && (0..ys.len()).all(|i| t.same(&xs[i], &ys[i], tz)),
            (T::Map(k, w), ValueRef::Map(a, b, xs), V::Map(ys)) => strip(&a.to_string()) == strip(&k.name(true)) && strip(&b.to_string()) == strip(&w.name(true)) && xs.len() == ys.len() && ys.iter().all(|(y, z)| xs.iter().any(|(p, q)| k.same(p, y, tz) && w.same(q, z, tz))),
            (T::Str(_), ValueRef::String(x), V::Raw(y)) | (T::FStr(_), ValueRef::String(x), V::Raw(y)) => *x == &y[..],
            (T::Fix(_, n, _), c, V::Raw(y)) => {
                let base = n.split('(').next().unwrap();
                match (base, c) {
                    ("Bool", ValueRef::Bool(x)) => y[..] == [*x as u8],
                    ("UInt8", ValueRef::UInt8(x)) => y[..] == x.to_le_bytes(),
                    ("UInt16", ValueRef::UInt16(x)) => y[..] == x.to_le_bytes(),
                    ("UInt32", ValueRef::UInt32(x)) => y[..] == x.to_le_bytes(),
                    ("UInt64", ValueRef::UInt64(x)) => y[..] == x.to_le_bytes(),
                    ("UInt128", ValueRef::UInt128(x)) => y[..] == x.to_le_bytes(),
                    ("Int8", ValueRef::Int8(x)) => y[..] == x.to_le_bytes(),
                    ("Int16", ValueRef::Int16(x)) => y[..] == x.to_le_bytes(),
                    ("Int32", ValueRef::Int32(x)) => y[..] == x.to_le_bytes(),
                    ("Int64", ValueRef::Int64(x)) => y[..] == x.to_le_bytes(),
                    ("Int128", ValueRef::Int128(x)) => y[..] == x.to_le_bytes(),
                    ("Float32", ValueRef::Float32(x)) => y[..] == x.to_bits().to_le_bytes(),
                    ("Float64", ValueRef::Float64(x)) => y[..] == x.to_bits().to_le_bytes(),
                    ("Date", ValueRef::Date(x)) => y[..] == x.to_le_bytes(),
                    ("DateTime", ValueRef::DateTime(x, z)) => y[..] == x.to_le_bytes() && *z == self.zone(tz),
                    ("DateTime64", ValueRef::DateTime64(x, p)) => y[..] == x.to_le_bytes() && p.0 == self.args()[0].parse::<u32>().unwrap() && p.1 == self.zone(tz),
                    ("Enum8", ValueRef::Enum8(_, x)) => y[..] == x.internal().to_le_bytes(),
                    ("Enum16", ValueRef::Enum16(_, x)) => y[..] == x.internal().to_le_bytes(),
                    ("IPv4", ValueRef::Ipv4(x)) => y[..] == x[..],
                    ("IPv6", ValueRef::Ipv6(x)) => y[..] == x[..],
                    ("UUID", ValueRef::Uuid(x)) => y[..] == x[..],
                    ("Decimal", ValueRef::Decimal(d)) => {
                        let a = self.args();
                        let u: i64 = d.internal();
                        d.scale() == a[1].parse::<usize>().unwrap() && if y.len() == 4 { i64::from(i32::from_le_bytes([y[0], y[1], y[2], y[3]])) == u } else { y[..] == u.to_le_bytes() }
                    }
                    _ => false,
                }
            }
            _ => false,
        }
    }
    pub fn args(&self) -> Vec<String> {
        let n = match self { T::Fix(_, c, _) => *c, _ => "" };
        match n.find('(') { None => vec![], Some(i) => n[i + 1..n.len() - 1].split(',').map(|s| s.trim().trim_matches('\'').to_string()).collect() }
    }
    pub fn zone(&self, tz: Tz) -> Tz {
        let n = match self { T::Fix(w, _, _) => *w, _ => "" };
        if n.contains("'Europe/Moscow'") { Tz::Europe__Moscow } else if n.contains("'UTC'") { Tz::UTC } else if n.contains("'Asia/Tokyo'") { Tz::Asia__Tokyo } else { tz }
    }
}
pub fn enum_values(n: &str) -> Vec<(String, i64)> {
    n[n.find('(').unwrap() + 1..n.len() - 1].split(',').map(|s| { let p = s.rfind('=').unwrap(); (s[..p].trim().trim_matches('\'').to_string(), s[p + 1..].trim().parse().unwrap()) }).collect()
}
pub fn raw(v: &V) -> &[u8] { match v { V::Raw(b) => b, _ => sym::fail("reference: not a plain value") } }
pub fn strip(s: &str) -> String { s.chars().filter(|c| *c != ' ').collect() }

/// the cell as the driver gives it, whatever its type
pub struct Cell<'a>(pub ValueRef<'a>);
impl<'a> FromSql<'a> for Cell<'a> { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Cell(v)) } }

pub struct Col { pub name: String, pub t: T, pub vs: Vec<V> }
impl Col { pub fn any(name: &str, t: &T, n: usize) -> Col { Col { name: name.into(), t: t.clone(), vs: (0..n).map(|_| t.any()).collect() } } }

/// a block as a server sends it
pub fn enc_block(cols: &[Col]) -> Vec<u8> {
    let mut o = vec![1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0];
    wire::uvarint(&mut o, cols.len() as u64);
    wire::uvarint(&mut o, cols.first().map_or(0, |c| c.vs.len()) as u64);
    for c in cols {
        wire::string(&mut o, c.name.as_bytes());
        wire::string(&mut o, c.t.name(false).as_bytes());
        c.t.enc(&c.vs, &mut o);
    }
    o
}
/// reads what the driver wrote; the types are given
pub fn dec_block(r: &mut wire::Rd, ts: &[T]) -> Vec<Col> {
    sym::check(r.take(8) == [1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0], "block info");
    let nc = r.uvarint() as usize;
    let nr = r.uvarint() as usize;
    sym::check(nc == ts.len(), "number of columns");
    ts.iter().map(|t| {
        let name = String::from_utf8(r.string()).unwrap();
        let ty = String::from_utf8(r.string()).unwrap();
        sym::check(strip(&ty) == strip(&t.name(true)), "type name of a column");
        Col { name, t: t.clone(), vs: t.dec(nr, r) }
    }).collect()
}
/// equality of reference values; maps are unordered
pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Raw(x), V::Raw(y)) => x == y,
        (V::Null, V::Null) => true,
        (V::Some(x), V::Some(y)) => veq(x, y),
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && (0..x.len()).all(|i| veq(&x[i], &y[i])),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| veq(k, l) && veq(v, w))),
        _ => false,
    }
}
/// every cell of the block equals the reference
pub fn check_block<K: ColumnType>(b: &Block<K>, cols: &[Col], tz: Tz) {
    sym::check(b.column_count() == cols.len(), "number of columns");
    sym::check(b.row_count() == cols.first().map_or(0, |c| c.vs.len()), "number of rows");
    for (i, c) in cols.iter().enumerate() {
        let col = &b.columns()[i];
        sym::check(col.name() == c.name, "column name");
        sym::check(strip(&col.sql_type().to_string()) == strip(&c.t.name(true)), "column type");
        for r in 0..c.vs.len() {
            let x: Cell = sym::ok(b.get(r, i), "a cell cannot be read");
            sym::check(c.t.same(&x.0, &c.vs[r], tz), "a cell has another value");
        }
    }
}
