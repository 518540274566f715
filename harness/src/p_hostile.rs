//! C08: whatever bytes a server sends, the client answers with a value or an error.
use crate::{model::*, net::*, p_net, sym, wire};
use chrono_tz::Tz;
use clickhouse_rs::{types::*, verif_hooks as vh, Block, ClientHandle, Pool};
use futures_util::StreamExt;

const BIG: [u64; 7] = [3, 255, 65536, 1 << 24, 1 << 40, 1 << 63, u64::MAX];
/// reads every cell of the block
fn read_all<K: ColumnType>(b: &Block<K>) {
    sym::check(b.row_count() <= 64 && b.column_count() <= 64, "more rows than the bytes can hold");
    for i in 0..b.column_count() {
        let _ = b.columns()[i].sql_type().to_string();
        for r in 0..b.row_count() { let x: Cell = sym::ok(b.get(r, i), "a cell cannot be read"); walk(&x.0); }
    }
}
fn walk(v: &ValueRef) {
    match v {
        ValueRef::Array(_, xs) => { for x in xs.iter() { walk(x) } }
        ValueRef::Map(_, _, xs) => { for (k, x) in xs.iter() { walk(k); walk(x) } }
        ValueRef::Nullable(either::Either::Right(x)) => walk(x),
        ValueRef::String(s) => sym::check(s.len() <= 64, "a string longer than the input"),
        ValueRef::Bool(b) => sym::check((*b as u8) < 2, "a bool is neither true nor false"),
        _ => {}
    }
}
fn decode(b: &[u8], tz: Tz, compress: bool) {
    let (r, used) = vh::decode_block(b, tz, compress);
    sym::check(used <= b.len(), "more bytes used than there are");
    match r { Ok(blk) => { read_all(&blk); sym::reach("block") } Err(_) => sym::reach("rejected") }
}
fn header(cols: u64, rows: u64, name: &str, ty: &str) -> Vec<u8> {
    let mut o = vec![1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0];
    wire::uvarint(&mut o, cols);
    wire::uvarint(&mut o, rows);
    wire::string(&mut o, name.as_bytes());
    wire::string(&mut o, ty.as_bytes());
    o
}
/// n bytes, every one symbolic; `small`: they may be lengths, and are 0 to 4 or 127
fn payload(o: &mut Vec<u8>, n: usize, small: bool) {
    let v = sym::vec(n);
    if small { for b in &v { sym::assume(*b < 5 || *b == 0x7f) } }
    o.extend_from_slice(&v);
}
const FLAT: [&str; 22] = ["Bool", "UInt8", "Int16", "UInt32", "Float64", "Int128", "Date", "DateTime", "DateTime64(3)", "DateTime64(9, 'UTC')", "Decimal(9, 2)", "Decimal(18, 18)", "Enum8('a' = 1)", "Enum16('a' = 1)", "IPv4", "IPv6", "UUID", "FixedString(3)", "Nullable(UInt16)", "Nullable(Bool)", "SimpleAggregateFunction(sum, UInt64)", "Nullable(FixedString(2))"];
/// columns of fixed width: arbitrary bytes, too few or too many, and impossible row counts
pub fn c08_flat() {
    let t = FLAT[sym::choose(FLAT.len())];
    let rows = match sym::choose(9) { 0 => 1, 1 => 2, i => BIG[i - 2] };
    let mut b = header(1, rows, "c", t);
    let n = [0, 5, 20][sym::choose(3)];
    payload(&mut b, n, false);
    decode(&b, Tz::UTC, false);
}
/// columns of strings: arbitrary lengths
pub fn c08_strings() {
    let t = ["String", "Nullable(String)", "LowCardinality(String)", "SimpleAggregateFunction(any, String)"][sym::choose(4)];
    let rows = match sym::choose(9) { 0 => 1, 1 => 2, i => BIG[i - 2] };
    let mut b = header(1, rows, "c", t);
    if t.starts_with("Low") { return; }
    let kind = sym::choose(3);
    if kind == 0 { payload(&mut b, 6, true); }
    else if t == "String" { // a huge length
        wire::uvarint(&mut b, BIG[sym::choose(BIG.len())]);
        payload(&mut b, 2, true);
        if kind == 2 { b.pop(); b.extend_from_slice(&[0x80; 12]) }
    }
    decode(&b, Tz::UTC, false);
}
fn off() -> u64 { [0, 1, 2, 3, 1 << 30, 1 << 63, u64::MAX][sym::choose(7)] }
/// arrays and maps with arbitrary offsets
pub fn c08_offsets() {
    let t = ["Array(UInt8)", "Array(String)", "Array(Nullable(UInt8))", "Array(Array(UInt8))", "Map(UInt8, UInt8)", "Map(String, UInt8)", "Array(Map(UInt8, UInt8))", "Nullable(Array(UInt8))"][sym::choose(8)];
    let rows = [1, 2, 1 << 60][sym::choose(3)];
    let mut b = header(1, rows, "c", t);
    if t.starts_with("Nullable") { payload(&mut b, rows.min(2) as usize, false) }
    for _ in 0..rows.min(2) { b.extend_from_slice(&off().to_le_bytes()) }
    payload(&mut b, [0, 5][sym::choose(2)], true);
    decode(&b, Tz::UTC, false);
}
/// an array in an array: both levels of offsets arbitrary
pub fn c08_offsets2() {
    let mut b = header(1, 2, "c", "Array(Array(UInt8))");
    for _ in 0..4 { b.extend_from_slice(&[0u64, 1, 2, 3, 1 << 63][sym::choose(5)].to_le_bytes()) }
    payload(&mut b, 3, false);
    decode(&b, Tz::UTC, false);
}
/// LowCardinality: any one of version, flags, sizes and keys arbitrary
pub fn c08_lowcard() {
    let t = ["LowCardinality(String)", "LowCardinality(UInt8)", "LowCardinality(Nullable(UInt8))", "Array(LowCardinality(UInt8))"][sym::choose(4)];
    let what = sym::choose(7);
    let w = sym::choose(4);
    let sizes = [0, 1, 2, 3, 4, 1 << 44, u64::MAX];
    let mut rows = 2u64;
    if what == 0 { rows = sizes[sym::choose(7)] }
    let mut b = header(1, rows, "c", t);
    if t.starts_with("Array") { for i in 1..=rows.min(5) { b.extend_from_slice(&i.to_le_bytes()) } }
    if what == 1 { b.extend_from_slice(&sym::bytes::<8>()) } else { b.extend_from_slice(&1u64.to_le_bytes()) }
    if what == 2 { b.extend_from_slice(&sym::bytes::<8>()) } else { b.extend_from_slice(&[w as u8, 6, 0, 0, 0, 0, 0, 0]) }
    let dict = if what == 3 { sizes[sym::choose(7)] } else { 3 };
    b.extend_from_slice(&dict.to_le_bytes());
    if t.contains("Nullable") { payload(&mut b, dict.min(5) as usize, false) }
    for i in 0..dict.min(5) { if t.contains("String") { b.push(1) } b.push(b'a' + i as u8) }
    let keys = if what == 4 { sizes[sym::choose(7)] } else { rows };
    b.extend_from_slice(&keys.to_le_bytes());
    let n = keys.min(5) as usize * (1 << w);
    // keys: each arbitrary in its first and last byte
    let mut k = vec![0u8; n];
    for i in 0..n / (1 << w) { k[i << w] = sym::u8(); if what == 5 { k[(i << w) + (1 << w) - 1] = sym::u8() } }
    if what == 6 { k.truncate(sym::choose(n.min(3) + 1)) }
    b.extend_from_slice(&k);
    decode(&b, Tz::UTC, false);
}
/// several columns; the later ones short, unknown or with an impossible type
pub fn c08_columns() {
    let cols = [0, 1, 2, 1 << 50][sym::choose(4)];
    let rows = [0, 1, 2][sym::choose(3)];
    let mut b = header(cols, rows, "a", "UInt8");
    payload(&mut b, rows as usize, false);
    wire::string(&mut b, b"b");
    wire::string(&mut b, ["String", "Array(UInt8)", "LowCardinality(String)", "FixedString(2)", "FixedString(0)", "Nothing", "Tuple(UInt8)", "Map(UInt8, UInt8)", "Nullable(UInt8)"][sym::choose(9)].as_bytes());
    payload(&mut b, [0, 4][sym::choose(2)], true);
    decode(&b, Tz::UTC, false);
}
/// arbitrary bytes in place of a block
pub fn c08_header() {
    let n = sym::range(0, sym::param("len", 12));
    let v = sym::vec(n);
    // one varint may be long, elsewhere lengths stay small
    let long = sym::choose(4);
    for (i, b) in v.iter().enumerate() { if i != 8 || long != 0 { sym::assume(*b < 5 || *b == 0x7f) } }
    let mut b = vec![];
    match long { 1 => b.extend_from_slice(&[0]), 2 => b.extend_from_slice(&[1, 1, 0]), _ => {} }
    b.extend_from_slice(&v);
    decode(&b, Tz::UTC, false);
}
const NAMES: [&str; 34] = ["Nullable(UInt8)", "Array(UInt8)", "Map(UInt8, String)", "Map(Decimal(9, 4), Array(UInt8))", "FixedString(5)", "Decimal(9, 4)", "Decimal32(4)", "Decimal64(18)", "Enum8('a' = 1, 'b' = -2)", "Enum16('x' = 300)", "DateTime('UTC')", "DateTime64(3, 'UTC')", "DateTime64(9)", "Timestamp", "SimpleAggregateFunction(sum, UInt64)", "LowCardinality(String)", "LowCardinality(Nullable(String))", "Map(String, Map(UInt8, UInt8))", "Array(Array(Nullable(UInt8)))", "UInt8", "Nullable(Nullable(UInt8))", "Enum8('\\'' = 1)", "Array(DateTime64(3))", "FixedString(18446744073709551615)", "DateTime64(4294967295)", "Decimal(255, 255)", "Enum8('a' = 300)", "DateTime('\u{e9}')", "Nullable\u{e9}", "LowCardinality\u{20ac}(x)", "Map(\u{e9}, \u{20ac})", "Array\u{20ac}", "FixedString\u{e9}\u{e9}", "SimpleAggregateFunction(\u{e9},UInt8)"];
/// a type name cut anywhere, or with any one byte replaced by any ASCII byte, or one removed or doubled
pub fn c08_typename() {
    let t = NAMES[sym::choose(NAMES.len())];
    let mut v = t.as_bytes().to_vec();
    let i = sym::choose(v.len());
    match sym::choose(4) {
        0 => v.truncate(i),
        1 => {
            // looking up the name of a time zone hashes it: no symbolic bytes there
            if t.contains("DateTime") { v[i] = b"() ,'\\07x"[sym::choose(9)] } else { v[i] = sym::u8(); sym::assume(v[i] < 0x80) }
        }
        2 => { v.remove(i); }
        _ => v.insert(i, v[i]),
    }
    type_name(&v);
}
fn type_name(v: &[u8]) {
    let rows = sym::choose(2) as u64;
    let mut b = vec![1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0, 1, rows as u8, 1, b'c'];
    wire::string(&mut b, v);
    b.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    decode(&b, Tz::UTC, false);
}
/// short type names of arbitrary ASCII characters
pub fn c08_typename_any() {
    let p = ["", "Nullable", "Array", "Map", "Map(", "FixedString", "FixedString(", "Decimal", "Decimal(", "Decimal32(", "Enum8(", "DateTime", "DateTime64(", "LowCardinality", "SimpleAggregateFunction", "SimpleAggregateFunction("];
    let mut v = p[sym::choose(p.len())].as_bytes().to_vec();
    let tail = sym::vec(sym::range(0, sym::param("len", 3)));
    for b in &tail { sym::assume(*b < 0x80) }
    v.extend_from_slice(&tail);
    type_name(&v);
}
/// arbitrary bytes in place of a packet, at each revision the client distinguishes
pub fn c08_packet() {
    let rev = [0, 51554, 54058, 54060, 54372, 54401, 54420, 54429][sym::choose(8)];
    let tz = if sym::choose(2) == 0 { None } else { Some(Tz::UTC) };
    let kind = sym::u8();
    let mut b = vec![kind];
    if kind >= 0x80 { payload(&mut b, 2, false); }
    else {
        let n = sym::range(0, sym::param("len", 8));
        if kind == 1 || kind == 7 || kind == 8 { b.push(0); if n > 3 { b.extend_from_slice(&[1, 0, 2, 0, 0, 0, 0, 0]) } }
        payload(&mut b, n, true);
    }
    let (r, used) = vh::decode_packet(&b, rev, tz, false);
    sym::check(used <= b.len(), "more bytes used than there are");
    match r { Ok(vh::PacketView::Block(blk)) => { read_all(&blk); sym::reach("block") } Ok(_) => sym::reach("packet"), Err(_) => sym::reach("rejected") }
}
/// strings of impossible lengths in every packet which has one
pub fn c08_packet_len() {
    let rev = [51554, 54429][sym::choose(2)];
    let mut b = vec![[0, 1, 2, 11][sym::choose(4)]];
    if b[0] == 2 { b.extend_from_slice(&[1, 0, 0, 0]) }
    for _ in 0..sym::choose(3) { b.extend_from_slice(&[1, b'x']) }
    wire::uvarint(&mut b, BIG[sym::choose(BIG.len())]);
    // a name of a time zone is hashed
    if b[0] == 0 { b.extend_from_slice(b"UTC") } else { payload(&mut b, 3, false) }
    let (r, _) = vh::decode_packet(&b, rev, Some(Tz::UTC), false);
    if r.is_err() { sym::reach("rejected") } else { sym::reach("packet") }
}
/// arbitrary bytes in place of an answer, whatever the operation; then the connection ends or stays
pub fn c08_session() {
    let kind = sym::choose(6);
    let mut g = vec![];
    let at = sym::choose(3);
    let n = sym::range(1, sym::param("len", 3));
    if at == 1 { g.extend(data(&p_net::cols(&[(1, 2)]))) }
    if at == 2 { g.extend_from_slice(&[1, 0, 1, 0]) }
    payload(&mut g, n, true);
    let eof = sym::choose(2) == 1;
    setup(54429, move |_, p, c, rev| match p {
        Pkt::Hello { .. } => c.inp.extend(hello(rev)),
        Pkt::Ping => { c.inp.extend_from_slice(&g); c.eof = eof }
        Pkt::Query(q) => if q.sql.starts_with(b"INSERT") { c.types = vec![f("UInt16", 2), f("UInt8", 1)] },
        Pkt::Data(_, cs) if cs.is_empty() && c.pkts.len() < 4 => { c.inp.extend_from_slice(&g); c.eof = eof }
        _ => {}
    });
    let pool = Pool::new(url("ping_before_query=false"));
    let r = run(async {
        let mut c = sym::ok(pool.get_handle().await, "connecting");
        any_op(&mut c, kind).await
    });
    match r {
        Some(true) => sym::reach("answer"),
        Some(false) => sym::reach("error"),
        None => { sym::check(!eof, "an operation hangs although the server closed the connection"); sym::reach("waits") }
    }
}
async fn any_op(c: &mut ClientHandle, kind: usize) -> bool {
    match kind {
        0 => match c.query(p_net::SQL).fetch_all().await { Ok(b) => { read_all(&b); true } Err(_) => false },
        1 => {
            let mut s = c.query(p_net::SQL).stream_blocks();
            while let Some(b) = s.next().await { match b { Ok(b) => read_all(&b), Err(_) => return false } }
            true
        }
        2 => {
            let mut s = c.query(p_net::SQL).stream();
            while let Some(r) = s.next().await { match r { Ok(r) => { for i in 0..r.len() { let x: Cell = sym::ok(r.get(i), "cell"); walk(&x.0) } } Err(_) => return false } }
            true
        }
        3 => c.execute("DDL").await.is_ok(),
        4 => c.insert("t", p_net::block(&[(1, 2)])).await.is_ok(),
        _ => c.ping().await.is_ok(),
    }
}
