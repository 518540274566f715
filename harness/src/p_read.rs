//! C03: what a server sends in the native format is what the user reads.
use crate::{model::*, sym, wire};
use chrono_tz::Tz;
use clickhouse_rs::verif_hooks as vh;

pub const E8: &str = "Enum8('a' = -128,'bc' = 0,'d' = 5)";
pub const E16: &str = "Enum16('x' = -300,'y' = 0,'z' = 32767)";
pub fn scalars() -> Vec<T> {
    vec![
        f("UInt8", 1), f("UInt16", 2), f("UInt32", 4), f("UInt64", 8), f("UInt128", 16), f("Int8", 1), f("Int16", 2), f("Int32", 4), f("Int64", 8), f("Int128", 16),
        f("Float32", 4), f("Float64", 8), f("Bool", 1), f("Date", 2), f("IPv4", 4), f("IPv6", 16), f("UUID", 16), st(), T::FStr(1), T::FStr(3), T::FStr(12),
    ]
}
pub fn params() -> Vec<T> {
    vec![
        f("DateTime", 4), f2("DateTime('UTC')", "DateTime", 4), f2("DateTime('Europe/Moscow')", "DateTime", 4),
        f2("DateTime64(3)", "DateTime64(3, 'Asia/Tokyo')", 8), f2("DateTime64(0, 'UTC')", "DateTime64(0, 'UTC')", 8), f2("DateTime64(9, 'Europe/Moscow')", "DateTime64(9, 'Europe/Moscow')", 8),
        f2("Decimal(9, 4)", "Decimal(9, 4)", 4), f2("Decimal(1, 0)", "Decimal(1, 0)", 4), f2("Decimal(10, 10)", "Decimal(10, 10)", 8), f2("Decimal(18, 2)", "Decimal(18, 2)", 8),
        f2("Decimal32(3)", "Decimal(9, 3)", 4), f2("Decimal64(17)", "Decimal(18, 17)", 8),
        f2(E8, E8, 1), f2(E16, E16, 2), f2("Enum8('one' = 1)", "Enum8('one' = 1)", 1),
    ]
}
pub fn aliases() -> Vec<T> {
    let mut v = vec![f2("TinyInt", "Int8", 1), f2("SmallInt", "Int16", 2), f2("Int", "Int32", 4), f2("Integer", "Int32", 4), f2("BigInt", "Int64", 8), f2("Float", "Float32", 4), f2("Double", "Float64", 8), f2("uint64", "UInt64", 8)];
    for n in ["Char", "Varchar", "Text", "TinyText", "MediumText", "LongText", "Blob", "TinyBlob", "MediumBlob", "LongBlob", "STRING"] { v.push(T::Str(n)) }
    v
}
pub fn nested() -> Vec<T> {
    vec![
        null(f("UInt8", 1)), null(st()), null(T::FStr(2)), null(f("DateTime", 4)), null(f2("Decimal(9, 4)", "Decimal(9, 4)", 4)), null(f2(E8, E8, 1)), null(f("IPv4", 4)), null(f("UUID", 16)), null(f("Date", 2)), null(f("Float64", 8)), null(f("Int128", 16)), null(f("Bool", 1)),
        null(f2("DateTime64(3, 'UTC')", "DateTime64(3, 'UTC')", 8)), null(f2(E16, E16, 2)),
        arr(f("UInt8", 1)), arr(f("UInt64", 8)), arr(st()), arr(T::FStr(2)), arr(f("Date", 2)), arr(f("DateTime", 4)), arr(f2(E8, E8, 1)), arr(f("UUID", 16)), arr(f("Float32", 4)), arr(f("Bool", 1)), arr(f2("Decimal(18, 2)", "Decimal(18, 2)", 8)),
    ]
}
pub fn deep() -> Vec<T> {
    vec![
        arr(null(f("UInt16", 2))), arr(null(st())), arr(arr(f("UInt8", 1))), arr(arr(st())), arr(arr(null(f("Int32", 4)))),
        map(f("UInt8", 1), f("UInt32", 4)), map(st(), st()), map(st(), arr(f("UInt8", 1))), map(f("Int64", 8), null(st())), map(st(), map(f("UInt16", 2), f("UInt8", 1))), arr(map(f("UInt8", 1), f("UInt8", 1))),
        agg("sum", f("UInt64", 8)), agg("max", st()), agg("any", null(f("UInt8", 1))), agg("groupArrayArray", arr(f("UInt8", 1))), arr(agg("min", f("Date", 2))),
    ]
}
pub fn lowcard() -> Vec<T> {
    vec![lc(st(), 1), lc(st(), 2), lc(st(), 4), lc(st(), 8), lc(f("UInt32", 4), 1), lc(T::FStr(2), 1), lc(f("Date", 2), 2), lc(f("DateTime", 4), 1), lc(f("Int64", 8), 4)]
}
fn run(ts: Vec<T>, rows: usize, last: T) {
    let t = ts[sym::choose(ts.len())].clone();
    let n = sym::range(0, rows);
    let tz = Tz::Asia__Tokyo;
    // a column before and one behind show that the reader is where it has to be
    let cols = [Col::any("a", &f("UInt8", 1), n), Col::any("value", &t, n), Col::any("", &last, n)];
    let mut b = enc_block(&cols);
    let len = b.len();
    b.push(sym::u8());
    let (blk, used) = vh::decode_block(&b, tz, false);
    let blk = sym::ok(blk, "a valid block is rejected");
    sym::check(used == len, "a block consumes another number of bytes");
    check_block(&blk, &cols, tz);
    if n > 0 { sym::reach("rows") } else { sym::reach("empty") }
}
pub fn c03_scalars() { run(scalars(), sym::param("rows", 2), st()) }
pub fn c03_params() { run(params(), sym::param("rows", 2), st()) }
pub fn c03_aliases() { run(aliases(), 1, st()) }
pub fn c03_nested() { run(nested(), sym::param("rows", 2), f("UInt16", 2)) }
pub fn c03_deep() { run(deep(), sym::param("rows", 2), f("UInt16", 2)) }
pub fn c03_lowcard() { run(lowcard(), sym::param("rows", 3), f("UInt16", 2)) }
/// every column order and every block info the protocol allows
pub fn c03_info() {
    let n = 2;
    let cols = [Col::any("x", &f("UInt16", 2), n), Col::any("y", &f("Int8", 1), n)];
    let mut b = enc_block(&cols);
    let over = sym::choose(2) as u8;
    let bucket = sym::bytes::<4>();
    b[1] = over;
    b[3..7].copy_from_slice(&bucket);
    if sym::choose(2) == 1 { // the fields in the other order
        let mut c = vec![2];
        c.extend_from_slice(&bucket);
        c.extend_from_slice(&[1, over, 0]);
        c.extend_from_slice(&b[8..]);
        b = c;
    }
    let (blk, used) = vh::decode_block(&b, Tz::UTC, false);
    let blk = sym::ok(blk, "a valid block is rejected");
    sym::check(used == b.len(), "consumed");
    check_block(&blk, &cols, Tz::UTC);
    let _ = wire::Rd::new(&b);
    sym::reach("info");
}
